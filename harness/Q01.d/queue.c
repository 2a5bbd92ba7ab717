/* the queue macros, each used the way a program uses them */
#include <stdlib.h>
#include <string.h>
#include <u/libu_conf.h>
#include <u/toolbox/queue.h>
struct item { int id; LIST_ENTRY(item) l; TAILQ_ENTRY(item) t; CIRCLEQ_ENTRY(item) c; };
LIST_HEAD(lhead, item); TAILQ_HEAD(thead, item); CIRCLEQ_HEAD(chead, item);
enum { L, T, C }; enum { HEAD, TAIL, AFTER, BEFORE, REMOVE, REPLACE };

struct item *q_item (int id) { struct item *i = malloc(sizeof *i); memset(i, 0xa5, sizeof *i); i->id = id; return i; }
struct item *q_item_null (int id) { static const struct item z = { 0, LIST_ENTRY_NULL, TAILQ_ENTRY_NULL, { NULL, NULL } }; struct item *i = malloc(sizeof *i); *i = z; i->id = id; return i->l.le_next || i->l.le_prev || i->t.tqe_next || i->t.tqe_prev ? NULL : i; }
void *q_head (int kind, int how)
{   if (kind == L) { struct lhead *h = malloc(sizeof *h); memset(h, 0xa5, sizeof *h); if (how) LIST_INIT(h); else { struct lhead z = LIST_HEAD_INITIALIZER(z); *h = z; } return h; }
    if (kind == T) { struct thead *h = malloc(sizeof *h); memset(h, 0xa5, sizeof *h); TAILQ_INIT(h); return h; }
    { struct chead *h = malloc(sizeof *h); memset(h, 0xa5, sizeof *h); CIRCLEQ_INIT(h); return h; } }
void q_do (int kind, int op, void *head, struct item *a, struct item *at)
{   if (kind == L) { struct lhead *h = head; switch (op) { case HEAD: LIST_INSERT_HEAD(h, a, l); break; case AFTER: LIST_INSERT_AFTER(at, a, l); break; case BEFORE: LIST_INSERT_BEFORE(at, a, l); break; case REMOVE: LIST_REMOVE(a, l); break; case REPLACE: LIST_REPLACE(at, a, l); break; } }
    else if (kind == T) { struct thead *h = head; switch (op) { case HEAD: TAILQ_INSERT_HEAD(h, a, t); break; case TAIL: TAILQ_INSERT_TAIL(h, a, t); break; case AFTER: TAILQ_INSERT_AFTER(h, at, a, t); break; case BEFORE: TAILQ_INSERT_BEFORE(at, a, t); break; case REMOVE: TAILQ_REMOVE(h, a, t); break; } }
    else { struct chead *h = head; switch (op) { case HEAD: CIRCLEQ_INSERT_HEAD(h, a, c); break; case TAIL: CIRCLEQ_INSERT_TAIL(h, a, c); break; case AFTER: CIRCLEQ_INSERT_AFTER(h, at, a, c); break; case BEFORE: CIRCLEQ_INSERT_BEFORE(h, at, a, c); break; case REMOVE: CIRCLEQ_REMOVE(h, a, c); break; } } }
int q_empty (int kind, void *head) { return kind == L ? LIST_EMPTY((struct lhead *) head) : kind == T ? TAILQ_EMPTY((struct thead *) head) : ((struct chead *) head)->cqh_first == head; }
/* walk a queue: 0 the foreach loop, 1 by hand, 2 backwards loop, 3 backwards by hand; -1 when it is not available, at most max ids */
int q_walk (int kind, int mode, void *head, int *ids, int max)
{   int n = 0; struct item *v;
    #define STEP { if (n == max) return max + 1; ids[n++] = v->id; }
    if (kind == L) { struct lhead *h = head; if (mode == 0) { LIST_FOREACH (v, h, l) STEP } else if (mode == 1) for (v = LIST_FIRST(h); v != LIST_END(h); v = LIST_NEXT(v, l)) STEP else return -1; }
    else if (kind == T) { struct thead *h = head; switch (mode) { case 0: TAILQ_FOREACH (v, h, t) STEP break; case 1: for (v = TAILQ_FIRST(h); v != TAILQ_END(h); v = TAILQ_NEXT(v, t)) STEP break; case 2: TAILQ_FOREACH_REVERSE (v, h, thead, t) STEP break; default: for (v = TAILQ_LAST(h, thead); v != NULL; v = TAILQ_PREV(v, thead, t)) STEP } }
    else { struct chead *h = head; if (mode & 1) return -1; if (mode == 0) for (v = h->cqh_first; v != (void *) h; v = v->c.cqe_next) STEP else for (v = h->cqh_last; v != (void *) h; v = v->c.cqe_prev) STEP }
    return n; }
/* walk with a loop that allows removal: take out and release the items the callback names */
int q_walk_safe (int kind, int back, void *head, int *ids, int max, int (*take) (struct item *))
{   int n = 0; struct item *v, *w;
    #define SAFE(rm) { int t; if (n == max) return max + 1; ids[n++] = v->id; if ((t = take(v))) { rm; if (t > 1) { memset(v, 0x5a, sizeof *v); free(v); } } }
    if (kind == L) { struct lhead *h = head; if (back) return -1; LIST_FOREACH_SAFE (v, h, l, w) SAFE(LIST_REMOVE(v, l)) }
    else if (kind == T) { struct thead *h = head; if (back) { TAILQ_FOREACH_REVERSE_SAFE (v, h, thead, t, w) SAFE(TAILQ_REMOVE(h, v, t)) } else { TAILQ_FOREACH_SAFE (v, h, t, w) SAFE(TAILQ_REMOVE(h, v, t)) } }
    else return -1;
    return n; }
int q_id (const struct item *i) { return i->id; }
