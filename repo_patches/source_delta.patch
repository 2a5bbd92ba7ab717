From 603c8cfd4bdef099e2b25d5333164a692f40e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 01/95] fix: zero-terminate the text of a new string when
 reserving room for it

---
 srcs/toolbox/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..4c8d8fe 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -329,6 +329,7 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     /* zero terminate it */
     nbuf[size] = '\0';
+    nbuf[s->data_len] = '\0';
 
     s->data = (void *) nbuf;
     s->data_sz = size;
-- 
2.43.0


From 8a0b9ae98fe1846340a6f3cd6b6d453791335d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 02/95] fix: report formatting errors in u_string printing
 functions instead of looping

---
 srcs/toolbox/str.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 4c8d8fe..97fd7e9 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -461,6 +461,7 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
+    int rc;
     size_t sz, avail;
     va_list apcpy;
 
@@ -480,10 +481,20 @@ again:
      * if the return value is greater than or equal to the size argument, 
      * the string was too short and some of the printed characters were 
      * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
+    rc = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
 
     va_end(apcpy);
 
+    if (rc < 0)
+    {
+        /* discard the output of the failed conversion */
+        if (s->data_sz)
+            s->data[s->data_len] = '\0';
+        goto err;
+    }
+
+    sz = (size_t) rc;
+
     if (sz >= avail)
     {
         dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-- 
2.43.0


From d00d5789e2532a06a6bc7b6b1bedfcc08d3d8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 03/95] fix: do not exhaust the string growth step on failed
 reservations

---
 srcs/toolbox/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 97fd7e9..e9b102b 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -379,7 +379,7 @@ int u_string_do_printf (u_string_t *s, int clear, const char *fmt, ...)
  */
 int u_string_append (u_string_t *s, const char *buf, size_t len)
 {
-    size_t nsz, min;
+    size_t nsz, min, shift_cnt;
 
     dbg_return_if (s == NULL, ~0);
     dbg_return_if (buf == NULL, ~0);
@@ -390,10 +390,12 @@ int u_string_append (u_string_t *s, const char *buf, size_t len)
     {
         min = s->data_len + len + 1; /* min required buffer length */
         nsz = s->data_sz;
+        shift_cnt = s->shift_cnt;
         while (nsz <= min)
-            nsz += (BLOCK_SIZE << s->shift_cnt++);
+            nsz += ((size_t) BLOCK_SIZE << shift_cnt++);
 
         dbg_err_if (u_string_reserve(s, nsz));
+        s->shift_cnt = shift_cnt;
     }
 
     /* append this chunk to the data buffer */
-- 
2.43.0


From 31495fbd2afede5f726c9e3b7f3ae8a169e2a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 04/95] fix: u_buf_printf looped forever on long output and on
 formatting errors

---
 srcs/toolbox/buf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..163342d 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -349,6 +349,7 @@ int u_buf_free (u_buf_t *ubuf)
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
     va_list ap;
+    int rc;
     size_t sz, avail;
 
     dbg_return_if (ubuf == NULL, ~0);
@@ -360,12 +361,12 @@ again:
     avail = ubuf->size - ubuf->len; /* avail may be zero */
 
     /* write to the internal buffer of ubuf */
-    dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    dbg_err_if ((rc = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) < 0);
 
-    if (sz >= avail)
+    if ((sz = (size_t) rc) >= avail)
     {
         /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, sz + 1)));
 
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
         ubuf->data[ubuf->len] = '\0';
-- 
2.43.0


From 7e571589ec4b9a7cc3cd5d74f5d3254eab6bffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 05/95] fix: Base64 decoder accepted malformed text and wrote
 or read out of bounds

---
 srcs/toolbox/b64.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index fb4246f..0a87fd5 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -124,14 +124,17 @@ int u_b64_encode (const uint8_t *in, size_t in_sz, char *out, size_t out_sz)
 int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
-    size_t i, len, pad, tot_sz = *out_sz;
-    uint8_t *pout;
+    size_t i, len, pad, tot_sz;
+    uint8_t *pout, tmp[3];
 
     dbg_return_if (in == NULL, ~0);
     dbg_return_if (in_sz == 0, ~0);
+    dbg_return_if (in_sz % 4, ~0);  /* Encoded text comes in quadruplets. */
     dbg_return_if (out == NULL, ~0);
     dbg_return_if (out_sz == NULL, ~0);
 
+    tot_sz = *out_sz;
+
     for (pout = out; in_sz; )
     {
         for (pad = 0, len = 0, i = 0; i < 4; ++i)
@@ -140,9 +143,10 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
             {
                 buf[i] = *in++;
 
-                if (buf[i] == '=')
+                /* Up to two pad chars, at the very end only. */
+                if (buf[i] == '=' && i > 1 && in_sz <= 3 - i)
                     ++pad;
-                else if (!is_base64(buf[i]))    
+                else if (pad || !is_base64((uint8_t) buf[i]))
                     return ~0;
 
                 ++len;
@@ -157,7 +161,8 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
             if (tot_sz >= nlen)
             {
-                chunk_decode(buf, pout);
+                chunk_decode(buf, tmp);
+                memcpy(pout, tmp, nlen);
                 tot_sz -= nlen; /* Take care of subtracting pad bytes. */
                 pout += nlen;
             } 
-- 
2.43.0


From fe97dd9d52abee71903e86ab3222901dce208b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 06/95] fix: integer parsing depended on a stale errno and took
 text without digits for zero

---
 srcs/toolbox/misc.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..bbaec79 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -720,7 +720,10 @@ int u_atol (const char *nptr, long *pl)
 
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
- 
+
+    /* Reset errno. */
+    errno = 0;
+
     tmp = strtol(nptr, &endptr, 10);
     
     dbg_err_sif (tmp == 0 && errno == EINVAL);
@@ -795,12 +798,19 @@ err:
 int u_atoumax (const char *nptr, uintmax_t *pumax)
 {
     uintmax_t tmp; 
+    char *endptr;
     int saved_errno = errno;
 
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
- 
-    tmp = strtoumax(nptr, (char **) NULL, 10);
+
+    /* Reset errno. */
+    errno = 0;
+
+    tmp = strtoumax(nptr, &endptr, 10);
+
+    /* No conversion performed */
+    dbg_err_if (nptr == endptr);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
     dbg_err_if (tmp == UINTMAX_MAX && errno == ERANGE);
-- 
2.43.0


From d908c813df468fe1899744d80f7f76247c584dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 07/95] fix: u_tokenize wrote past a one-slot token vector

---
 srcs/toolbox/misc.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index bbaec79..1b234ae 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -913,15 +913,15 @@ int u_tokenize (char *wlist, const char *delim, char **tokv, size_t tokv_sz)
 
     ap = tokv;
 
-    for ( ; (*ap = strsep(&wlist, delim)) != NULL; )
+    /* check bounds */
+    while (ap < &tokv[tokv_sz - 1])
     {
-        /* skip empty field */
-        if (**ap == '\0')
-            continue;
-
-        /* check bounds */
-        if (++ap >= &tokv[tokv_sz - 1])
+        if ((*ap = strsep(&wlist, delim)) == NULL)
             break;
+
+        /* skip empty field */
+        if (**ap != '\0')
+            ++ap;
     }
 
     /* put an explicit stopper to tokv */
-- 
2.43.0


From f2d37f30712689686a54c399888dfb9214fb4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 08/95] fix: array slots added by a resize held garbage instead
 of zero

---
 srcs/toolbox/array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..f100c46 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -3,6 +3,7 @@
  */
 
 #include <stdint.h>
+#include <string.h>
 #include <u/libu.h>
 #include <toolbox/array.h>
 
@@ -211,6 +212,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* added slots start zeroed, as the initial ones do */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0, 
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From b617b731ce7e85a81686cf8eeee1d39aa10f54c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 09/95] fix: clearing a list did not reset its element count

---
 srcs/toolbox/list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..4f696d8 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -359,6 +359,7 @@ int u_list_clear (u_list_t *list)
     while((item = TAILQ_FIRST(&list->head)) != NULL)
     {
         TAILQ_REMOVE(&list->head, item, np);
+        list->count--;
 
         u_free(item);
     }
-- 
2.43.0


From 84a0b4ccb95630214015197a6477804103cc8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 10/95] fix: deleting from a search tree corrupted its element
 counters

---
 srcs/toolbox/bst.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..de94de5 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -855,6 +855,7 @@ static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r)
 
     /* Let the left subtree become the left child of the new root. */
     r->left = l;
+    r->nelem += (l ? l->nelem : 0);
 
     return r;
 }
@@ -884,9 +885,8 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
         u_bst_node_do_free(bst, delnode);
         *pfound = 1;
     }
-
-    /* Update child nodes' counter. */
-    if (node && *pfound)
+    /* Update child nodes' counter (the joined subtree is already right). */
+    else if (*pfound)
         node->nelem -= 1;
 
     return node;
-- 
2.43.0


From 47b4dfb6d4f46824fc61771407ae28394cf6669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 11/95] fix: search trees leaked string values and freed
 referenced keys

---
 srcs/toolbox/bst.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index de94de5..2f79a7c 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -405,8 +405,13 @@ int u_bst_set_keyattr (u_bst_t *bst, u_bst_type_t kt, size_t ks)
     bst->keytype = kt;
     bst->keysize = ks;
 
-    if (kt == U_BST_TYPE_OPAQUE)
+    /* Copied keys are owned by the BST, referenced ones are not (unless a 
+     * custom free function has been set). */
+    if (kt == U_BST_TYPE_OPAQUE || 
+            (kt == U_BST_TYPE_STRING && bst->keyfree == NULL))
         bst->keyfree = u_bst_genfree;
+    else if (kt == U_BST_TYPE_PTR && bst->keyfree == u_bst_genfree)
+        bst->keyfree = NULL;
 
     return 0;
 }
@@ -432,8 +437,12 @@ int u_bst_set_valattr (u_bst_t *bst, u_bst_type_t vt, size_t vs)
     bst->valtype = vt;
     bst->valsize = vs;
 
-    if (vt == U_BST_TYPE_OPAQUE)
+    /* Same ownership rules as in u_bst_set_keyattr. */
+    if (vt == U_BST_TYPE_OPAQUE || 
+            (vt == U_BST_TYPE_STRING && bst->valfree == NULL))
         bst->valfree = u_bst_genfree;
+    else if (vt == U_BST_TYPE_PTR && bst->valfree == u_bst_genfree)
+        bst->valfree = NULL;
 
     return 0;
 }
-- 
2.43.0


From f05600f1446b355f9aa73dabdb4f191078ddb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/95] fix: a failed insertion corrupted or emptied the search
 tree

---
 srcs/toolbox/bst.c | 106 +++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 62 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 2f79a7c..31328a9 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -39,13 +39,13 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -200,17 +200,23 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Create the node before touching the tree, so that a failure leaves the
+     * BST as it was. */
+    warn_return_if (u_bst_node_new(bst, key, val, &newnode), ~0);
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
-    return bst->root ? 0 : ~0;
+    return 0;
 }
 
 /**
@@ -703,76 +709,64 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *parent, *node;
+    u_bst_node_t *parent = NULL, *node;
 
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
-        return bst->root;
-    }
+        return newnode;
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? 
+                node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -782,53 +776,41 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
-    /* External node reached: create the node. */
+    /* External node reached: attach the new node. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From 577cae737101b220e7d0123409b980637e8973c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 13/95] fix: non-contiguous ring buffer reads got wrong bytes
 when wrapping around

---
 srcs/toolbox/rb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..bc42499 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,9 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    /* Ready data is fragmented only when it exceeds the room between the read
+     * offset and the end of the buffer. */
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From 09aaec0a314b33f83667903c4e8f7c71953a02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 14/95] fix: fast read on a non-contiguous ring buffer called a
 null pointer

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index bc42499..6f54a62 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From b9c65c1e8298f136ec362bfc293dc4791b9c621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 15/95] fix: ring buffer creation leaked on failure and took
 sizes it cannot double

---
 srcs/toolbox/rb.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 6f54a62..8bf7f3e 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -595,7 +595,12 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
 
     return 0;
 err:
-    u_rb_free(rb);
+    if (rb)
+    {
+        if (rb->base == MAP_FAILED)
+            rb->base = NULL;
+        free_mmap(rb);
+    }
     U_CLOSE(fd);
     return -1;
 }
@@ -629,6 +634,8 @@ static int create_malloc (size_t sz, int opts, u_rb_t **prb)
     u_rb_t *rb = NULL;
 
     dbg_return_if (sz == 0, -1);
+    dbg_return_if ((opts & U_RB_OPT_USE_CONTIGUOUS_MEM) && 
+            sz > ((size_t) -1) / 2, -1);
     dbg_return_if (prb == NULL, -1);
 
     dbg_err_sif ((rb = u_zalloc(sizeof *rb)) == NULL);
-- 
2.43.0


From 5f9ac2b704771e3a2c04f124d88cc49be59a602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 16/95] fix: a priority queue of SIZE_MAX items got no room at
 all

---
 srcs/toolbox/pqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pqueue.c b/srcs/toolbox/pqueue.c
index 0c95546..c6050c8 100644
--- a/srcs/toolbox/pqueue.c
+++ b/srcs/toolbox/pqueue.c
@@ -92,6 +92,7 @@ int u_pq_create (size_t nitems, u_pq_t **ppq)
 
     dbg_return_if (ppq == NULL, ~0);
     dbg_return_if (nitems < 2, ~0); /* Expect at least 2 elements. */
+    dbg_return_if (nitems == (size_t) -1, ~0); /* One slot is added below. */
 
     /* Make room for both the queue head and items' array. */
     dbg_err_sif ((pq = u_zalloc(sizeof *pq)) == NULL);
-- 
2.43.0


From ad290caa781e6fe5404706225a53975ed9b5505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 17/95] fix: deleting or clearing hash map entries left stale
 policy records and counts

---
 srcs/toolbox/hmap.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..149f13b 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -622,11 +622,14 @@ void u_hmap_clear (u_hmap_t *hmap)
         while ((obj = LIST_FIRST(&hmap->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
+            obj->pqe = NULL;
             if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
                 __o_free(hmap, obj);
         }
     }
 
+    hmap->sz = 0;
+
     /* free the policy queue */
     while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
     {
@@ -852,6 +855,10 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
     dbg_err_if (o == NULL);
     LIST_REMOVE(o, next);
 
+    /* the object is no longer subject to the discard policy */
+    if (o->pqe)
+        dbg_err_if (__queue_del(hmap, o));
+
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
     else
@@ -1616,9 +1623,8 @@ static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
     dbg_err_if (hmap == NULL);
 
     dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
+    /* also removes the queue element */
     dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
 
     return U_HMAP_ERR_NONE;
 err:
@@ -1634,9 +1640,8 @@ static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
 
     dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
             == NULL);
+    /* also removes the queue element */
     dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
 
     return U_HMAP_ERR_NONE;
 
-- 
2.43.0


From d7c2f9894862931a51f910baf48418f004b12663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 18/95] fix: deletions from a linear probing hash map led to
 duplicate keys

---
 srcs/toolbox/hmap.c | 57 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 149f13b..001380f 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -118,6 +118,8 @@ struct u_hmap_s
 typedef struct u_hmap_e_s u_hmap_e_t;
 
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o);
+static size_t __hash (u_hmap_t *hmap, const void *key);
+static void __linear_unlink (u_hmap_t *hmap, u_hmap_o_t *obj);
 
 static int __opts_check (u_hmap_opts_t *opts);
 static int __pcy_setup (u_hmap_t *hmap);
@@ -853,7 +855,11 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
         return U_HMAP_ERR_FAIL;
 
     dbg_err_if (o == NULL);
-    LIST_REMOVE(o, next);
+
+    if (hmap->opts->type == U_HMAP_TYPE_LINEAR)
+        __linear_unlink(hmap, o);
+    else
+        LIST_REMOVE(o, next);
 
     /* the object is no longer subject to the discard policy */
     if (o->pqe)
@@ -1615,6 +1621,55 @@ err:
     return U_HMAP_ERR_FAIL;
 }
 
+/* Compute the slot to which a key belongs */
+static size_t __hash (u_hmap_t *hmap, const void *key)
+{
+    size_t hash = hmap->opts->f_hash(key, hmap->size);
+
+    /* rehash if strong hash is required */
+    if (hmap->opts->f_hash != &__f_hash &&
+            !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
+    {
+        enum { MAX_INT = 20 };
+        char h[MAX_INT];
+
+        u_snprintf(h, MAX_INT, "%u", hash);
+        hash = __f_hash(h, hmap->size);
+    }
+
+    return hash;
+}
+
+/* Remove an object from a linear probing table, moving back the objects that
+ * would otherwise be cut off from the slot to which they belong */
+static void __linear_unlink (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    u_hmap_o_t *o;
+    size_t i, hole, n = hmap->size;
+
+    for (hole = __hash(hmap, obj->key);
+            LIST_FIRST(&hmap->hmap[hole]) != obj;
+            hole = (hole + 1) % n)
+        ;
+
+    LIST_REMOVE(obj, next);
+
+    for (i = (hole + 1) % n;
+            (o = LIST_FIRST(&hmap->hmap[i])) != NULL;
+            i = (i + 1) % n)
+    {
+        /* skip objects that probe from a slot after the hole */
+        if ((i + n - __hash(hmap, o->key)) % n < (i + n - hole) % n)
+            continue;
+
+        LIST_REMOVE(o, next);
+        LIST_INSERT_HEAD(&hmap->hmap[hole], o, next);
+        hole = i;
+    }
+
+    return;
+}
+
 /* pop the front of an object queue */
 static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
 {
-- 
2.43.0


From 400f8393e9cbe543055ea15f028816f7a0c77515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 19/95] fix: linear probing hash maps with a discard policy
 could not hold their maximum

---
 srcs/toolbox/hmap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 001380f..2452e79 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -576,6 +576,13 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     dbg_err_if (__pcy_setup(c));
 
     c->size = c->opts->size;
+
+    /* tables with a discard policy never grow: make sure that a linear probing
+     * one has room for every element, plus an incoming and a spare one */
+    if (c->opts->type == U_HMAP_TYPE_LINEAR &&
+            c->opts->policy != U_HMAP_PCY_NONE)
+        c->size = U_MAX(c->size, c->opts->max + 2);
+
     dbg_err_if (__next_prime(&c->size, c->size, &c->px));
     c->threshold = (size_t) (U_HMAP_RATE_FULL * c->size);
 
-- 
2.43.0


From 5908183eced812bba82c829a4c409e176ececfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 20/95] fix: hash maps leaked or got corrupted when running out
 of memory

---
 srcs/toolbox/hmap.c | 51 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 2452e79..065fa2c 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -126,6 +126,7 @@ static int __pcy_setup (u_hmap_t *hmap);
 static const char *__pcy2str(u_hmap_pcy_type_t policy);
 
 static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj);
+static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj);
 static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         u_hmap_o_t **old);
 
@@ -362,7 +363,9 @@ int u_hmap_easy_put (u_hmap_t *hmap, const char *key, const void *val)
 
     return rc;
 err:
-    /* don't free 'obj' because hmap owns it and will free it */
+    /* if the key exists 'obj' has already been freed by hmap, which owns it */
+    if (obj && rc != U_HMAP_ERR_EXISTS)
+        __o_discard(hmap, obj);
     return (rc ? rc : U_HMAP_ERR_FAIL);
 }
 
@@ -604,6 +607,7 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    u_hmap_opts_free(c->opts);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
@@ -792,8 +796,16 @@ end:
         dbg_err_if (hmap->pcy.pop(hmap, old));
     }
 
-    if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
-        dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+    if ((hmap->pcy.ops & U_HMAP_PCY_OP_PUT) &&
+            hmap->pcy.push(hmap, obj, &obj->pqe))
+    {
+        /* no policy record, no object */
+        if (hmap->opts->type == U_HMAP_TYPE_LINEAR)
+            __linear_unlink(hmap, obj);
+        else
+            LIST_REMOVE(obj, next);
+        goto err;
+    }
     hmap->sz++;
 
     return U_HMAP_ERR_NONE;
@@ -953,7 +965,8 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
-    U_FREEF(obj, u_hmap_o_free);
+    if (obj)
+        __o_discard(hmap, obj);
 
     return NULL;
 }
@@ -988,6 +1001,21 @@ void *u_hmap_o_get_val (u_hmap_o_t *obj)
     return obj->val;
 }
 
+/* Free a data object which did not get into the hmap, along with the private
+ * copies in it, if any: what has been supplied by the user is left alone */
+static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+    {
+        if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->key);
+        if (hmap->opts->val_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->val);
+    }
+
+    u_hmap_o_free(obj);
+}
+
 /* Free a data object including content (only if U_HMAP_OPTS_OWNSDATA) */
 static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj)
 {
@@ -1036,9 +1064,9 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     {
         if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         {
-            /* delete old object and enqueue new one */
-            dbg_err_if (__queue_del(hmap, o));
+            /* enqueue new object and delete old one */
             dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+            dbg_err_if (__queue_del(hmap, o));
         }
 
         /* replace object in hmap list */
@@ -1754,9 +1782,13 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
     {
         /* no reference to queue entry -> count == 0 */
         dbg_err_if ((new = __q_o_new(obj)) == NULL);
-        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
+        if ((count = (int *) u_zalloc(sizeof(int))) == NULL)
+        {
+            __q_o_free(new);
+            goto err;
+        }
         new->data = (void *) count;
+        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
         *counts = new;
         /*
         u_dbg(">k: %s, p: %d", new->ho->key, *((int *)new->data));
@@ -2153,7 +2185,7 @@ static int __resize(u_hmap_t *hmap)
             U_HMAP_RATE_RESIZE * newopts->size,
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
-    u_hmap_opts_free(newopts);
+    U_FREEF(newopts, u_hmap_opts_free);
 
     /* remove any ownership from old map to copy elements */
     hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
@@ -2173,6 +2205,7 @@ static int __resize(u_hmap_t *hmap)
 
     return 0;
 err:
+    U_FREEF(newopts, u_hmap_opts_free);
     return ~0;
 }
 
-- 
2.43.0


From c3aba97ba2e2987846b140637be1c8597c34d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 21/95] fix: JSON tokens that exceed the token size were
 replaced by stack garbage

---
 srcs/toolbox/json.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..4600e83 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1297,7 +1297,8 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
 
     /* Take care of the fact that the match includes the first non-number char
      * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
+    if (u_lexer_get_match(jl, match) == NULL || match[0] == '\0')
+        U_LEXER_ERR(jl, "number too long at offset %zu", u_lexer_pos(jl));
     match[strlen(match) - 1] = '\0';
 
     /* Push the matched number into the supplied json object. */
@@ -1610,7 +1611,8 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_depth(pair, jo->depth + 1));
     }
 
-    (void) u_lexer_get_match(jl, match);
+    if (u_lexer_get_match(jl, match) == NULL)
+        U_LEXER_ERR(jl, "key too long at offset %zu", u_lexer_pos(jl));
 
     /* Trim trailing '"'. */
     if ((mlen = strlen(match)) >= 1)
@@ -1705,15 +1707,16 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
     u_con("matched string: \'%s\'", u_lexer_get_match(jl, match));
 #endif  /* U_JSON_LEX_DEBUG */
 
+    /* The string must fit the token size, even if we're just validating. */
+    if (u_lexer_get_match(jl, match) == NULL)
+        U_LEXER_ERR(jl, "string too long at offset %zu", u_lexer_pos(jl));
+
     /* In case the string is matched as an rval, the caller shall
      * supply the json object that has to be set. */
     if (jo)
     {
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
 
-        /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
-
         /* Trim trailing '"'. */
         if ((mlen = strlen(match)) >= 1)
             match[mlen - 1] = '\0';
-- 
2.43.0


From 38ec108f9fbcd1f41d00eb16675e675a345c4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 22/95] fix: JSON literals were accepted with blanks between
 their letters

---
 srcs/toolbox/json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 4600e83..221a877 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1419,7 +1419,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
 
     for (i = 0; i < rem_sz; i++)
     {
-        U_LEXER_SKIP(jl, &c);
+        U_LEXER_NEXT(jl, &c);
         if (c != *(rem + i))
         {
             U_LEXER_ERR(jl, "expect \'%c\', got %c at %s", 
@@ -1428,7 +1428,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
     }
 
     /* Consume last checked char. */
-    U_LEXER_SKIP(jl, NULL);
+    U_LEXER_NEXT(jl, NULL);
 
     if (jo)
         dbg_err_if (u_json_set_type(jo, type));
-- 
2.43.0


From 16d949caff42b1b8a1f90774ecaa5b88eca556d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 23/95] fix: the DEL character is legal inside JSON strings

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 221a877..6b9ce61 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1689,7 +1689,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
                     U_LEXER_ERR(jl, "invalid char %c in escape", c);
             }
         }
-        else if (iscntrl((int) c))
+        else if ((unsigned char) c < 0x20)
             U_LEXER_ERR(jl, "control character in string", c); 
         else    
             U_LEXER_NEXT(jl, &c);
-- 
2.43.0


From 19e9a419b791d2eeda27ad1cfa0a6e8c55c69a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 24/95] fix: checked JSON values were accepted when only a part
 of them was valid

---
 srcs/toolbox/json.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 6b9ce61..e90f2c9 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -387,8 +387,15 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
 
     dbg_return_if (jo == NULL, ~0);
     dbg_return_if (val == NULL, ~0);
+
     /* Note that cached objects allow for value overwrite. */
 
+    /* Don't touch the current value (nor the stack) if 'val' doesn't fit. */
+    if (jo->type == U_JSON_TYPE_STRING || jo->type == U_JSON_TYPE_NUMBER)
+        dbg_return_if (strlen(val) >= sizeof jo->val, ~0);
+    else
+        check = 0;
+
     if (check)
     {
         /* XXX The following declaration assumes C99 or C89+support of variable 
@@ -407,17 +414,19 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
     switch (jo->type)
     {
         case U_JSON_TYPE_STRING:
-            dbg_err_if (check && u_json_match_string(vl, NULL));
+            dbg_err_if (check && 
+                    (u_json_match_string(vl, NULL) || !u_lexer_eot(vl)));
             break;
         case U_JSON_TYPE_NUMBER:
-            dbg_err_if (check && u_json_match_number(vl, NULL));
+            dbg_err_if (check && 
+                    (u_json_match_number(vl, NULL) || !u_lexer_eot(vl)));
             break;
         default:
             /* Non-critical error, just emit some debug info. */
             goto end;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    dbg_err_if (u_strlcpy(jo->val, val, sizeof jo->val));
 
     /* Fall through. */       
 end:
-- 
2.43.0


From cdf9d49079ec63b36d65548a00b4eb6eb54d3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 25/95] fix: walking, freeing or removing a JSON node spilled
 over to its siblings

---
 srcs/toolbox/json.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index e90f2c9..ea7c32c 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -622,6 +622,8 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *cur, *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
@@ -631,11 +633,13 @@ void u_json_walk (u_json_t *jo, int strategy, size_t l,
     if (strategy == U_JSON_WALK_PREORDER && cb)
         cb(jo, l, cb_args);
 
-    /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
-
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+    /* When recurring into the children branch, increment depth by one.
+     * Note that 'cb' is allowed to free the visited child. */
+    for (cur = TAILQ_FIRST(&jo->children); cur != NULL; cur = next)
+    {
+        next = TAILQ_NEXT(cur, siblings);
+        u_json_walk(cur, strategy, l + 1, cb, cb_args);
+    }
 
     if (strategy == U_JSON_WALK_POSTORDER && cb)
         cb(jo, l, cb_args);
-- 
2.43.0


From 911426de13dfc7fbc5d9fd0e45d0087b3b65b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 26/95] fix: JSON encoding spilled over to siblings and
 misplaced keys

---
 srcs/toolbox/json.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index ea7c32c..2e8eebb 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -84,7 +84,7 @@ static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
 
 /* Encode/Decode/Validate. */
-static int u_json_do_encode (u_json_t *jo, u_string_t *s);
+static int u_json_do_encode (u_json_t *jo, int with_key, u_string_t *s);
 static int u_json_do_parse (const char *json, u_json_t **pjo, 
         char status[U_LEXER_ERR_SZ]);
 
@@ -595,7 +595,7 @@ int u_json_encode (u_json_t *jo, char **ps)
     dbg_return_if (ps == NULL, ~0);
 
     dbg_err_if (u_string_create(NULL, 0, &s));
-    dbg_err_if (u_json_do_encode(jo, s));
+    dbg_err_if (u_json_do_encode(jo, 0, s));
     *ps = u_string_detach_cstr(s);
 
     return 0;
@@ -1147,13 +1147,12 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
  *  \}
  */ 
 
-static int u_json_do_encode (u_json_t *jo, u_string_t *s)
+static int u_json_do_encode (u_json_t *jo, int with_key, u_string_t *s)
 {
-    if (jo == NULL)
-        return 0;
+    u_json_t *cur;
 
-    /* Optional key. */
-    if (strlen(jo->key))
+    /* Only (and all) the members of an object have a key. */
+    if (with_key)
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
@@ -1185,7 +1184,14 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
     }
 
     /* Explore depth. */
-    dbg_err_if (u_json_do_encode(TAILQ_FIRST(&jo->children), s));
+    TAILQ_FOREACH (cur, &jo->children, siblings)
+    {
+        dbg_err_if (u_json_do_encode(cur, jo->type == U_JSON_TYPE_OBJECT, s));
+
+        /* When needed, add comma to separate siblings. */
+        if (TAILQ_NEXT(cur, siblings))
+            dbg_err_if (u_string_aprintf(s, ", "));
+    }
 
     /* Close matching paren. */
     switch (jo->type)
@@ -1200,13 +1206,6 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             break;
     }
 
-    /* When needed, add comma to separate siblings. */
-    if (TAILQ_NEXT(jo, siblings))
-        dbg_err_if (u_string_aprintf(s, ", "));
-
-    /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 4d332bcfa7fab37b437d1725020e4e8efdc09486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 27/95] fix: JSON indexing left stale references and missed
 nodes silently

---
 srcs/toolbox/json.c | 58 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 2e8eebb..02526b5 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -82,6 +82,8 @@ static const char *u_json_type_str (int type);
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_chk_index (u_json_t *jo, size_t l, void *failed);
+static void u_json_reset_map (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
 static int u_json_do_encode (u_json_t *jo, int with_key, u_string_t *s);
@@ -682,7 +684,7 @@ void u_json_print (u_json_t *jo)
  */
 int u_json_index (u_json_t *jo)
 {
-    size_t u;   /* Unused. */
+    int failed = 0;
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
 
@@ -697,17 +699,16 @@ int u_json_index (u_json_t *jo)
     dbg_err_if (u_hmap_easy_new(opts, &hmap));
     u_hmap_opts_free(opts), opts = NULL;
 
-    /* Initialize array elems' indexing. */
-    jo->icur = 0;
-
     /* Walk the tree in pre-order and cache each node while we traverse. */
-    u_json_walk(jo, U_JSON_WALK_PREORDER, u, u_json_do_index, hmap);
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, hmap);
 
-    /* Attach the associative array to the top level object. */
-    jo->map = hmap, hmap = NULL;
+    /* A node that could not be cached has no map reference: bail out. */
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_chk_index, &failed);
+    dbg_err_ifm (failed, "could not index all nodes");
 
     return 0;
 err:
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_reset_map, NULL);
     if (opts)
         u_hmap_opts_free(opts);
     if (hmap)
@@ -730,9 +731,12 @@ int u_json_unindex (u_json_t *jo)
 {
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map == NULL, 0);
+    dbg_return_if (jo->parent, ~0); /* The cache belongs to the top-obj. */
 
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+
+    /* Every node holds an alias of the cache. */
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_reset_map, NULL);
 
     return 0;
 }
@@ -1807,6 +1811,25 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
     return;
 }
 
+static void u_json_chk_index (u_json_t *jo, size_t l, void *failed)
+{
+    u_unused_args(l);
+
+    if (jo->map == NULL)
+        *((int *) failed) = 1;
+
+    return;
+}
+
+static void u_json_reset_map (u_json_t *jo, size_t l, void *opaque)
+{
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
 static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 {
     u_json_t *p;
@@ -1814,6 +1837,9 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 
     u_unused_args(l);
 
+    /* (Re)initialize array elems' indexing. */
+    jo->icur = 0;
+
     if ((p = jo->parent) == NULL)
     {
         /* Root node is named '.', its name and fully qualified name match. */
@@ -1822,26 +1848,24 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     else if (p->type == U_JSON_TYPE_OBJECT)
     {
         /* Nodes in object containers are named after their key. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key));
+        dbg_return_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, 
+                    jo->key), );
     }
     else if (p->type == U_JSON_TYPE_ARRAY)
     {
         /* Nodes in array containers are named after their ordinal position. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur));
+        dbg_return_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, 
+                    p->icur), );
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
-
-        /* In case we have an array inside another array, initialize the 
-         * counter for later recursive invocation. */
-        if (jo->type == U_JSON_TYPE_ARRAY)
-            jo->icur = 0;
     }
     else
         u_warn("Expecting an object, an array, or a top-level node.");
 
-    /* Insert node into the hmap. */
-    dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+    /* Insert node into the hmap (with equal names the first node wins). */
+    dbg_return_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo)
+            == U_HMAP_ERR_FAIL, );
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-- 
2.43.0


From 2b0a8e512cd2d09178a6e01f4e6554eded980273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 28/95] fix: setting a value through the JSON index checked the
 wrong node

---
 srcs/toolbox/json.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 02526b5..f2b90c4 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -800,23 +800,26 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
 {
     u_json_t *res;
 
-    dbg_return_if (U_JSON_OBJ_IS_CONTAINER(jo), ~0);
     dbg_return_if (type == U_JSON_TYPE_OBJECT || type == U_JSON_TYPE_ARRAY, ~0);
     /* 'jo' and 'name' will be checked by u_json_cache_get(); 
      * 'val' consistency is checked after type has been set. */
 
     /* Retrieve the node. */
     dbg_err_if ((res = u_json_cache_get(jo, name)) == NULL);
+    dbg_err_if (U_JSON_OBJ_IS_CONTAINER(res));
 
-    /* First set type (in case !unknown) so that we know how to check the
-     * subsequent value setting. */
-    if (type != U_JSON_TYPE_UNKNOWN)
-        res->type = type;
+    if (type == U_JSON_TYPE_UNKNOWN)
+        type = res->type;
 
     /* Set value.  The caller must have supplied some non-NULL 'val' in case 
      * the final underlying type is a string or a number. */
-    if (res->type == U_JSON_TYPE_STRING || res->type == U_JSON_TYPE_NUMBER)
-        dbg_err_if (val == NULL || u_strlcpy(res->val, val, sizeof res->val));
+    if (type == U_JSON_TYPE_STRING || type == U_JSON_TYPE_NUMBER)
+    {
+        dbg_err_if (val == NULL || strlen(val) >= sizeof res->val);
+        (void) u_strlcpy(res->val, val, sizeof res->val);
+    }
+
+    res->type = type;
 
     return 0;
 err:
-- 
2.43.0


From 67d81628cd68759d37a6a4c54e9fab69445b4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 29/95] fix: validating a JSON text crashed when running out of
 memory

---
 srcs/toolbox/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index f2b90c4..f7ef79b 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1980,7 +1980,8 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
 err:
     /* Copy out the lexer error string (if requested). */
     if (status)
-        (void) u_strlcpy(status, u_lexer_geterr(jl), U_LEXER_ERR_SZ);
+        (void) u_strlcpy(status, jl ? u_lexer_geterr(jl) : "out of memory",
+                U_LEXER_ERR_SZ);
 
     u_lexer_free(jl);
     u_json_free(jo);
-- 
2.43.0


From 42cf878ea3082bb3fb86bb42d5d8381782aa382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 30/95] fix: copying a file ignored read errors and short
 writes, closed streams twice and truncated a file copied onto itself

---
 srcs/toolbox/fs.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..bab3b32 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -37,6 +37,9 @@ int u_copy (const char *src, const char *dst)
     FILE *sfp = NULL, *dfp = NULL;
     size_t c;
     char buf[4096];
+#ifndef OS_WIN
+    struct stat ssb, dsb;
+#endif
 
     dbg_return_if (src == NULL, ~0);
     dbg_return_if (dst == NULL, ~0);
@@ -44,17 +47,29 @@ int u_copy (const char *src, const char *dst)
     sfp = fopen(src, "rb");
     dbg_err_sifm(sfp == NULL, "unable to open %s for reading", src);
 
+#ifndef OS_WIN
+    /* opening the destination would truncate the source if they are the same */
+    dbg_err_sif(fstat(fileno(sfp), &ssb) == -1);
+    dbg_err_ifm(stat(dst, &dsb) == 0 && ssb.st_dev == dsb.st_dev &&
+            ssb.st_ino == dsb.st_ino, "%s and %s are the same file", src, dst);
+#endif
+
     dfp = fopen(dst, "wb+");
     dbg_err_sifm(dfp == NULL, "unable to open %s for writing", dst);
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
+
+    /* the stream is gone even if fclose(3) fails */
+    c = fclose(sfp); sfp = NULL;
+    dbg_err_sifm(c, "error closing %s", src);
 
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    c = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(c, "error flushing %s", dst);
 
     return 0;
 err:
-- 
2.43.0


From 5913ebe497c8e85385386ba106e9aa22d14aed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 31/95] fix: moving a file reported success when the source
 could not be removed

---
 srcs/toolbox/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index bab3b32..c9aa765 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -109,7 +109,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src));
 
     return 0;
 err:
-- 
2.43.0


From cea5c0ce43fc3860608116c2bb02695e1fd9ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 32/95] fix: empty files could not be loaded, and a reused
 buffer was not terminated after loading

---
 srcs/toolbox/buf.c  | 7 ++++++-
 srcs/toolbox/misc.c | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 163342d..f511687 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -127,8 +127,13 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     dbg_err_sifm ((fp = fopen(filename, "r")) == NULL, "%s", filename);
 
     /* fill the buffer with the whole file content */
-    dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
+    if (st.st_size)
+        dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
+    else    /* be sure that it is really empty */
+        dbg_err_if (fgetc(fp) != EOF || ferror(fp));
     ubuf->len = st.st_size;
+    if (ubuf->data)
+        ubuf->data[ubuf->len] = '\0';
 
     (void) fclose(fp);
 
diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 1b234ae..158bba4 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -539,8 +539,12 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
     sz = sb.st_size;
     dbg_err_ifm (sz_max > 0 && sz > sz_max, 
             "file too big (%zu vs %zu bytes)", sz, sz_max);
-    dbg_err_sif ((buf = u_zalloc(sz)) == NULL);
-    dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    dbg_err_sif ((buf = u_zalloc(sz ? sz : 1)) == NULL);
+
+    if (sz)
+        dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    else    /* be sure that it is really empty */
+        dbg_err_sifm (fgetc(fp) != EOF || ferror(fp), "%s", path);
     
     U_FCLOSE(fp);
     
-- 
2.43.0


From 763734809a7861d56c58326fd3c628bfa9b405cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 33/95] fix: saving to a file reported success when the data
 could not be written out, and failed on no data

---
 srcs/toolbox/misc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 158bba4..eec9ecb 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -429,13 +429,15 @@ err:
  */
 int u_savepid (const char *pf)
 {
+    int rc;
     FILE *pfp = NULL;
 
     dbg_return_if (pf == NULL, ~0);
 
     dbg_err_sif ((pfp = fopen(pf, "w")) == NULL);
-    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) == 0);
-    fclose(pfp);
+    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) <= 0);
+    rc = fclose(pfp), pfp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
@@ -499,11 +501,13 @@ inline void u_use_unused_args (char *dummy, ...)
  */
 int u_data_dump (char *data, size_t sz, const char *file)
 {
+    int rc;
     FILE *fp = NULL;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
-    dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+    dbg_err_sif (sz && fwrite(data, sz, 1, fp) < 1);
+    rc = fclose(fp), fp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
-- 
2.43.0


From 938b4678a9e1a7717a5f2e46f90dcf6c9ddfe930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 34/95] fix: configuration lines lost characters at chunk
 boundaries and at end of file, and long ones were refused

---
 srcs/toolbox/config.c | 45 +++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..1fd68e1 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -44,7 +44,8 @@ extern u_config_driver_t u_config_drv_fs;
 static u_config_t *u_config_get_root (u_config_t *c);
 static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
-static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
+static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln, 
+        int *eof);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
         void *arg, int overwrite);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
@@ -1074,27 +1075,35 @@ err:
     return ~0;
 }
 
-static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
+static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln, int *eof)
 {
     enum { BUFSZ = 1024 };
     char buf[BUFSZ], *p = NULL;
-    ssize_t len;
+    size_t len, chunk;
 
-    u_string_clear(ln);
+    *eof = 0;
+
+    dbg_err_if(u_string_clear(ln));
 
     while((p = cb(arg, buf, BUFSZ)) != NULL)
     {
-        len = strlen(buf);
+        len = chunk = strlen(buf);
         if(len == 0)
             break; /* empty line */
-        dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
+        if(u_isnl(buf[len - 1]))
+            --chunk;
+        dbg_err_if(u_string_append(ln, buf, chunk));
+        /* a CR in the last place of a full buffer does not end the line */
+        if(chunk < len && (buf[chunk] == '\n' || len < BUFSZ - 1))
             break;
+        if(chunk < len)
+            dbg_err_if(u_string_append(ln, buf + chunk, 1));
+        /* line's longer the bufsz (or eof);get next line chunk */
     }
 
-    nop_err_if(p == NULL); /* eof */
+    /* the last line could miss the trailing newline */
+    if(p == NULL && u_string_len(ln) == 0)
+        *eof = 1;
 
     return 0;
 err:
@@ -1108,7 +1117,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1;
+    int lineno = 1, eof;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1119,8 +1128,13 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(;; u_string_clear(line), ++lineno)
     {
+        dbg_err_if (cs_getline(drv->gets, arg, line, &eof));
+
+        if(eof)
+            break;
+
         dbg_err_if (u_config_remove_comment(line));
 
         /* remove leading and trailing blanks */
@@ -1349,11 +1363,11 @@ err:
 
 static int u_config_remove_comment(u_string_t *line)
 {
-    char last, ln[2048], *p;
+    char last, *ln = NULL, *p;
 
     dbg_return_if (line == NULL, ~0);
 
-    dbg_err_if (u_strlcpy(ln, u_string_c(line), sizeof ln));
+    dbg_err_sif ((ln = u_strdup(u_string_c(line))) == NULL);
 
     for (last = '\0', p = ln; *p != '\0'; )
     {
@@ -1386,8 +1400,11 @@ static int u_config_remove_comment(u_string_t *line)
 
     dbg_err_if (u_string_set(line, ln, strlen(ln)));
 
+    u_free(ln);
+
     return 0;
 err:
+    u_free(ln);
     return ~0;
 }
 
-- 
2.43.0


From b1056860e29149252ad7efddfbd0c0fa193c0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 35/95] fix: setting a configuration value used freed memory,
 crashed on the root, leaked or lost values on failure

---
 srcs/toolbox/config.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 1fd68e1..eeb24ae 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -317,7 +317,7 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     child->parent = c;
     child->key = u_strdup(key);
-    dbg_err_if(child->key == NULL);
+    dbg_err_sif(child->key == NULL);
 
     TAILQ_INSERT_TAIL(&c->children, child, np);
 
@@ -325,6 +325,8 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    if(child)
+        u_config_free(child);
     return ~0;
 }
 
@@ -446,17 +448,11 @@ int u_config_set_value (u_config_t *c, const char *val)
 {
     u_config_t *root, *ignore;
     const char *varval, *vs, *ve, *p;
+    char *nvalue = NULL;
     u_string_t *var = NULL, *value = NULL;
 
     dbg_err_if(c == NULL);
 
-    /* free() previous value if any */
-    if(c->value)
-    {
-        U_FREE(c->value);
-        c->value = NULL;
-    } 
-
     if(val)
     {
         dbg_err_if(u_string_create(NULL, 0, &var));
@@ -483,7 +479,7 @@ int u_config_set_value (u_config_t *c, const char *val)
 
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
-            root = c->parent;
+            root = c->parent ? c->parent : c;
             if(u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
@@ -498,13 +494,17 @@ int u_config_set_value (u_config_t *c, const char *val)
 
         u_string_trim(value); /* remove leading and trailing spaces */
 
-        c->value = u_strdup(u_string_c(value));;
-        dbg_err_if(c->value == NULL);
+        nvalue = u_strdup(u_string_c(value));
+        dbg_err_sif(nvalue == NULL);
 
         u_string_free(value);
         u_string_free(var);
     }
 
+    /* free() previous value if any (not before: 'val' could point to it) */
+    U_FREE(c->value);
+    c->value = nvalue;
+
     return 0;
 err:
     if(value)
@@ -1047,15 +1047,16 @@ static u_config_t *u_config_get_root (u_config_t *c)
 static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
-    u_config_t *child = NULL;
-    char *p, *child_key;
+    u_config_t *child = NULL, *added = NULL;
+    char *p, *child_key = NULL;
 
     if((p = strchr(key, '.')) == NULL)
     {
         child = u_config_get_child(c, key);
         if(child == NULL || !overwrite)
         {   /* there's no such child, add a new child */
-            dbg_err_if(u_config_add_child(c, key, &child));
+            dbg_err_if(u_config_add_child(c, key, &added));
+            child = added;
         } 
         dbg_err_if(u_config_set_value(child, val));
 
@@ -1066,12 +1067,18 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         child_key = u_strndup(key, p-key);
         dbg_err_if(child_key == NULL);
         if((child = u_config_get_child(c, child_key)) == NULL)
-            dbg_err_if(u_config_add_child(c, child_key, &child));
+        {
+            dbg_err_if(u_config_add_child(c, child_key, &added));
+            child = added;
+        }
         U_FREE(child_key);
-        return u_config_do_set_key(child, ++p, val, overwrite, NULL);
+        dbg_err_if(u_config_do_set_key(child, ++p, val, overwrite, NULL));
     }
     return 0;
 err:
+    U_FREE(child_key);
+    if(added)   /* leave no trace of the failed attempt */
+        (void) u_config_del_child(c, added);
     return ~0;
 }
 
-- 
2.43.0


From 7a0bd8a227012997822878b04ca12720022e3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 36/95] fix: the position was ignored when looking up a dotted
 configuration key

---
 srcs/toolbox/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index eeb24ae..489f06b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -409,7 +409,7 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         }
 
         if (child != NULL)
-            return u_config_get_subkey(child, ++p, pc);
+            return u_config_get_subkey_nth(child, ++p, n, pc);
     }
 
     return ~0; /* not found */
-- 
2.43.0


From 017f3797d9f50604855e330cd495c3e04543f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 37/95] fix: configuration loading took broken nesting, crashed
 or never ended on includes, and closed files twice

---
 srcs/toolbox/config.c | 129 +++++++++++++++++++++++++++++++++---------
 1 file changed, 102 insertions(+), 27 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 489f06b..4496ef3 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -38,6 +38,19 @@ struct u_config_buf_s
     size_t len;
 };
 
+/* stack of the resources that are being loaded, linked by inclusion */
+struct u_config_inc_s
+{
+    const char *uri;
+    const struct u_config_inc_s *up;
+};
+
+/* limits to what a configuration source can ask for */
+enum { 
+    MAX_NEST_LEV = 256,     /* nested sections and inclusions */
+    MAX_KEY_LEV = 1024      /* components of a dotted key */
+};
+
 /* file system pre-defined driver */
 extern u_config_driver_t u_config_drv_fs;
 
@@ -47,9 +60,13 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln, 
         int *eof);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        const char *uri, void *arg, int overwrite);
+static int u_config_do_load_sect (u_config_t *c, u_config_driver_t *drv, 
+        void *arg, int overwrite, int in_sect, int lev, 
+        const struct u_config_inc_s *incs, int *fatal);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite);
+        u_config_t *inckey, int overwrite, int lev, 
+        const struct u_config_inc_s *incs, int *fatal);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
@@ -570,7 +587,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, NULL, arg, overwrite));
 
     return 0;
 err:
@@ -601,7 +618,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     file = fdopen(dup(fd), "r");
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, NULL, file, overwrite));
 
     fclose(file);
 
@@ -887,6 +904,7 @@ int u_config_get_subkey_value_b (u_config_t *c, const char *subkey, int def,
 int u_config_load_from_drv (const char *uri, u_config_driver_t *drv, 
         int overwrite, u_config_t **pc)
 {
+    int rc, opened = 0;
     u_config_t *c = NULL;
     void *arg = NULL;
 
@@ -899,18 +917,24 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     dbg_err_if (u_config_create(&c));
 
     if(drv->open)
+    {
         dbg_err_if (drv->open(uri, &arg));
+        opened = 1;
+    }
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, uri, arg, overwrite));
 
     if(drv->close)
-        dbg_err_if (drv->close(arg));
+    {
+        rc = drv->close(arg), opened = 0;
+        dbg_err_if (rc);
+    }
 
     *pc = c;
 
     return 0;
 err:
-    if(arg && drv->close)
+    if(opened && drv->close)
         drv->close(arg);
     if(c)
         u_config_free(c);
@@ -990,7 +1014,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, NULL, &arg, 0));
 
     *pc = c;
 
@@ -1049,6 +1073,12 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
 {
     u_config_t *child = NULL, *added = NULL;
     char *p, *child_key = NULL;
+    const char *dot;
+    int n;
+
+    /* bound the depth of the tree */
+    for (n = 0, dot = key; (dot = strchr(dot, '.')) != NULL; ++dot)
+        dbg_err_ifm (++n > MAX_KEY_LEV, "too many components in key");
 
     if((p = strchr(key, '.')) == NULL)
     {
@@ -1118,9 +1148,22 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        const char *uri, void *arg, int overwrite)
+{
+    int fatal = 0;
+    struct u_config_inc_s top = { uri, NULL };
+
+    return u_config_do_load_sect(c, drv, arg, overwrite, 0, 0, 
+            uri ? &top : NULL, &fatal);
+}
+
+/* load the whole source or, when 'in_sect' is set, what's left of a section.
+ * When inclusions are circular or nested too deeply 'fatal' is set, and the 
+ * load fails even if the inclusion is optional */
+static int u_config_do_load_sect (u_config_t *c, u_config_driver_t *drv, 
+        void *arg, int overwrite, int in_sect, int lev,
+        const struct u_config_inc_s *incs, int *fatal)
 {
-    enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
@@ -1140,7 +1183,10 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
         dbg_err_if (cs_getline(drv->gets, arg, line, &eof));
 
         if(eof)
+        {
+            crit_err_ifm(in_sect, "config error: missing '}'");
             break;
+        }
 
         dbg_err_if (u_config_remove_comment(line));
 
@@ -1176,13 +1222,17 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            crit_err_ifm(lev >= MAX_NEST_LEV, "config error [line %d]: "
+                    "too many nested sections", lineno);
+
+            dbg_err_if(u_config_do_load_sect(child, drv, arg, overwrite, 
+                        1, lev + 1, incs, fatal));
 
             dbg_err_if(u_string_clear(lastkey));
 
             continue;
         } else if(ln[0] == '}') {
-            crit_err_ifm(c->parent == NULL,"config error: unmatched '}'");
+            crit_err_ifm(!in_sect, "config error: unmatched '}'");
             if(!u_isblank_str(++ln))
                 dbg_err("config error [line %d]: { or } must be the "
                          "only not-blank char in a line", lineno);
@@ -1210,9 +1260,15 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
             /* load the included file */
             if (u_string_c(key)[0] == '-')  /* failure is not critical */
-                dbg_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite, 
+                            lev + 1, incs, fatal) && *fatal);
             else                            /* failure is critical */
-                dbg_err_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite, 
+                            lev + 1, incs, fatal));
+
+            dbg_err_if(u_string_clear(lastkey));
+
+            continue;
         } 
 
         /* if the valus is empty an open bracket will follow, save the key */
@@ -1227,6 +1283,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_c(key), 
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
+
+        /* a bracket can't follow a key with a value */
+        dbg_err_if(u_string_clear(lastkey));
     }
     
     u_string_free(lastkey);
@@ -1248,12 +1307,14 @@ err:
 }
 
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite)
+        u_config_t *inckey, int overwrite, int lev, 
+        const struct u_config_inc_s *incs, int *fatal)
 {
-    u_config_t *subkey;
-    int i;
+    int rc, opened = 0;
     const char *p, *path;
     void *arg = NULL;
+    const struct u_config_inc_s *inc;
+    struct u_config_inc_s this;
     char uri[U_FILENAME_MAX + 1];
 
     dbg_err_if(c == NULL);
@@ -1261,12 +1322,6 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     path = u_config_get_value(inckey);
     dbg_err_if(path == NULL);
 
-    for(i = 0; u_config_get_subkey_nth(c, "include", i, &subkey) == 0; ++i)
-    {
-        if(subkey != inckey && !strcmp(path, u_config_get_value(subkey)))
-            crit_err("circular dependency error loading %s", path);
-    }
-
     /* find the end of the key string */
     for(p = path; *p && u_isblank(*p); ++p);
 
@@ -1283,20 +1338,40 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         p = uri;
     } 
 
+    for(inc = incs; inc != NULL; inc = inc->up)
+        if(!strcmp(p, inc->uri))
+        {
+            *fatal = 1;
+            crit_err("circular dependency error loading %s", p);
+        }
+
+    if(lev > MAX_NEST_LEV)
+    {
+        *fatal = 1;
+        crit_err("too many nested inclusions loading %s", p);
+    }
+
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
+    opened = 1;
+
+    this.uri = p;
+    this.up = incs;
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_sect(c, drv, arg, overwrite, 0, lev, &this, 
+                fatal));
 
     if(drv->close)
-        crit_err_ifm (drv->close(arg),
-            "unable to close input file: %s", p);
+    {
+        rc = drv->close(arg), opened = 0;
+        crit_err_ifm (rc, "unable to close input file: %s", p);
+    }
     else
         u_warn("the 'close' driver callback is not defined, not closing...");
 
     return 0;
 err:
-    if(arg && drv->close)
+    if(opened && drv->close)
         drv->close(arg);
     return ~0;
 }
-- 
2.43.0


From b2f0b4671aec415d2caf4a3d2730218dec6a5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 38/95] fix: saved configurations lost comment signs, empty
 sections and write errors, and repeated optional includes

---
 srcs/toolbox/config.c | 85 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 4496ef3..cb74cc7 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -69,6 +69,10 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         const struct u_config_inc_s *incs, int *fatal);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
+static int u_config_is_include (u_config_t *c);
+static int u_config_needs_braces (u_config_t *c);
+static int u_config_escape (const char *v, u_string_t *s);
+static void u_config_fputs (const char *v, FILE *fp);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
 static int u_config_remove_comment(u_string_t *line);
 
@@ -259,22 +263,28 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
 
     u_config_t *item;
 
-    U_CONFIG_INDENT(fp, lev);
-
     /* "include" directives are skipped since that wouldn't give semantical 
      * equivalence to the dumped object (included key/val's are already 
      * there) */
-    if (c->key && strcmp(c->key, "include"))
+    if (u_config_is_include(c))
+        return;
+
+    U_CONFIG_INDENT(fp, lev);
+
+    if (c->key)
     {
-        fprintf(fp, "%s", c->key);
+        u_config_fputs(c->key, fp);
         if (c->value != NULL) 
-            fprintf(fp, "\t%s", c->value);
+        {
+            fputs("\t", fp);
+            u_config_fputs(c->value, fp);
+        }
         fputs("\n", fp);
     }
 
     ++lev;
 
-    if(u_config_has_children(c))
+    if(u_config_needs_braces(c))
     {
         if(c->parent)
         {
@@ -1389,19 +1399,59 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(c == NULL);
     dbg_err_if(s == NULL);
 
-    if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+    if(u_config_is_include(c))
+        return 0;
+
+    if(c->key)
+    {
+        dbg_err_if(u_config_escape(c->key, s));
+        dbg_err_if(u_string_append(s, " ", 1));
+        dbg_err_if(c->value && u_config_escape(c->value, s));
+        dbg_err_if(u_string_append(s, "\n", 1));
+    }
     
-    if(u_config_has_children(c))
+    if(u_config_needs_braces(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_append(s, "{\n", 2));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_append(s, "}\n", 2));
+    }
+
+    return 0;
+err:
+    return ~0;
+}
+
+/* tell if 'c' holds an inclusion directive */
+static int u_config_is_include (u_config_t *c)
+{
+    return c->key && 
+        (!strcmp(c->key, "include") || !strcmp(c->key, "-include"));
+}
+
+/* sections have braces, even when empty since they'd be lost otherwise */
+static int u_config_needs_braces (u_config_t *c)
+{
+    return u_config_has_children(c) || c->value == NULL || *c->value == '\0';
+}
+
+/* append 'v' to 's' escaping the comment sign */
+static int u_config_escape (const char *v, u_string_t *s)
+{
+    size_t len;
+
+    for (;; v += len + 1)
+    {
+        len = strcspn(v, "#");
+        dbg_err_if (u_string_append(s, v, len));
+        if (v[len] == '\0')
+            break;
+        dbg_err_if (u_string_append(s, "\\#", 2));
     }
 
     return 0;
@@ -1409,6 +1459,17 @@ err:
     return ~0;
 }
 
+/* the same, to a stream */
+static void u_config_fputs (const char *v, FILE *fp)
+{
+    for (; *v; ++v)
+    {
+        if (*v == '#')
+            fputc('\\', fp);
+        fputc(*v, fp);
+    }
+}
+
 static char *u_config_buf_gets (void *arg, char *buf, size_t size)
 {
     struct u_config_buf_s *g = (struct u_config_buf_s*)arg;
-- 
2.43.0


From b287144e6a9ed457d771d00afe447d81966d3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 39/95] fix: read errors were taken for the end of the
 configuration file

---
 srcs/toolbox/config.c    | 13 +++++++++++--
 srcs/toolbox/config_fs.c |  7 +++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index cb74cc7..05843c0 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -622,14 +622,23 @@ err:
  */
 int u_config_load (u_config_t *c, int fd, int overwrite)
 {
+    int dfd;
     FILE *file = NULL;
 
     /* must dup because fclose() calls close(2) on fd */
-    file = fdopen(dup(fd), "r");
-    dbg_err_if(file == NULL);
+    dbg_err_sif((dfd = dup(fd)) == -1);
+
+    if((file = fdopen(dfd, "r")) == NULL)
+    {
+        (void) close(dfd);
+        dbg_err("cannot open a stream on fd %d", fd);
+    }
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, NULL, file, overwrite));
 
+    /* gets can't tell a read error from end of file */
+    dbg_err_ifm(ferror(file), "read error on fd %d", fd);
+
     fclose(file);
 
     return 0;
diff --git a/srcs/toolbox/config_fs.c b/srcs/toolbox/config_fs.c
index fbd5d06..6bcabcc 100644
--- a/srcs/toolbox/config_fs.c
+++ b/srcs/toolbox/config_fs.c
@@ -48,15 +48,18 @@ err:
 
 static int drv_fs_close (void *arg)
 {
-    int rc;
+    int rc, bad;
     FILE *file = (FILE *) arg;
 
     dbg_return_if (file == NULL, ~0);
 
+    /* gets can't tell a read error from end of file */
+    bad = ferror(file);
+
     if ((rc = fclose(file)) != 0)
         dbg_strerror(errno);
 
-    return (rc == 0) ? 0 : ~0;
+    return (rc == 0 && !bad) ? 0 : ~0;
 }
 
 static char *drv_fs_gets (void *arg, char *buf, size_t size)
-- 
2.43.0


From b3baf5a62dabf31fd3fc5896534db7ba444a4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 40/95] fix: bad percent encodings were accepted in URIs and a
 leading good one lost

---
 srcs/toolbox/uri.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..eac1a62 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -406,7 +406,9 @@ static int u_uri_port_first (u_lexer_t *l)
 /* Check for both absolute and rootless paths. */
 static int u_uri_path_first (u_lexer_t *l)
 {
-    return (u_lexer_peek(l) == '/' || u_uri_match_pchar(l));
+    /* Don't let the match consume a leading pct-encoded character. */
+    return (u_lexer_peek(l) == '/' || u_lexer_peek(l) == '%' || 
+            u_uri_match_pchar(l));
 }
 
 /* scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ) */
@@ -830,18 +832,19 @@ static int u_uri_match_pchar_minus_at_sign (u_lexer_t *l)
 static int u_uri_expect_pct_encoded (u_lexer_t *l)
 {
     char i, c;
+    const char *p = u_lexer_lookahead(l);
 
-    if (u_lexer_peek(l) != '%')
-        U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", c);
+    if (*p != '%')
+        U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", *p);
 
+    /* Look ahead first, so that nothing is consumed in case of mismatch. */
+    if (!isxdigit((unsigned char) p[1]) || !isxdigit((unsigned char) p[2]))
+        U_LEXER_ERR(l, "Non hex digits in percent encoding.");
+
+    /* Leave the cursor on the last hex digit. */
     for (i = 0; i < 2; i++)
-    {
         U_LEXER_NEXT(l, &c);
 
-        if (!isxdigit((int) c))
-            U_LEXER_ERR(l, "Non hex digit \'%c\' in percent encoding.", c);
-    }
-
     return 0;
 err:
     return ~0;
-- 
2.43.0


From c36b5401d1e19a9d12872bfb5adc04b7a17e92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 41/95] fix: over-long URI components were silently dropped,
 writing out of bounds

---
 srcs/toolbox/uri.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index eac1a62..144e32d 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -428,7 +428,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
+    warn_err_if (u_lexer_get_match(l, u->scheme) == NULL);
     u->scheme[strlen(u->scheme) - 1] = '\0';
 
     return 0;
@@ -483,7 +483,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -514,7 +514,7 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
     return 0;
 err:
@@ -528,7 +528,8 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    /* The match may not fit the token size. */
+    warn_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
     if (!u_lexer_eot(l))
@@ -626,7 +627,7 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -688,7 +689,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -708,7 +709,7 @@ static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -747,7 +748,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -770,7 +771,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_lexer_get_match(l, u->fragment) == NULL);
 
     return 0;
 err:
-- 
2.43.0


From 8091ab44bf50a414c9eb4e3b12da675c38082d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 42/95] fix: text following a URI was ignored and an at sign
 past the authority spoiled it

---
 srcs/toolbox/uri.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 144e32d..5497477 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -375,6 +375,10 @@ static int u_uri_parser (u_lexer_t *l, u_uri_opts_t opts, u_uri_t **pu)
     if (u_uri_fragment_first(l))
         warn_err_if (u_uri_parse_fragment(l, u));
 
+    /* Nothing else is allowed. */
+    if (!u_lexer_eot(l))
+        U_LEXER_ERR(l, "Unexpected char \'%c\'.", u_lexer_peek(l));
+
     *pu = u;
 
     return 0;
@@ -440,6 +444,7 @@ err:
 static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
 {
     char c, i = 0;
+    const char *p;
 
     /* Consume "//". */
     do {
@@ -449,7 +454,8 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
     } while (++i < 2);
 
     /* [userinfo "@"] */
-    if (strchr(u_lexer_lookahead(l), '@'))
+    p = u_lexer_lookahead(l);
+    if (p[strcspn(p, "/?#@")] == '@')
         warn_err_if (u_uri_parse_userinfo(l, u));
     warn_err_if (u_uri_parse_host(l, u));
 
@@ -466,7 +472,7 @@ err:
 }
 
 /* Much more relaxed than requested: we want to let service names, not just
- * port numbers.  See /etc/services. */
+ * port numbers, and the wildcard.  See /etc/services. */
 static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 {
     char c;
@@ -479,7 +485,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+    while (isalnum((int) c) || c == '_' || c == '-' || c == '.' || c == '*')
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
@@ -619,11 +625,10 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    do {
-        U_LEXER_NEXT(l, &c);
-    } while (u_uri_match_pchar_minus_at_sign(l));
+    while (u_uri_match_pchar_minus_at_sign(l))
+        U_LEXER_NEXT(l, NULL);
 
-    if (u_lexer_peek(l) != '@')
+    if ((c = u_lexer_peek(l)) != '@')
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From 1774b8ffc88c004d82940ce52f4b035d4300eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 43/95] fix: URI hosts starting with a digit and root paths
 were not understood

---
 srcs/toolbox/uri.c | 60 +++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 5497477..9a4d479 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -37,7 +37,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u);
 static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u);
 static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u);
 static int u_uri_parse_ipliteral (u_lexer_t *l);
-static int u_uri_parse_ipv4address (u_lexer_t *l);
+static int u_uri_is_ipv4address (const char *s);
 static int u_uri_parse_regname (u_lexer_t *l);
 static int u_uri_expect_colon (u_lexer_t *l);
 static int u_uri_expect_pct_encoded (u_lexer_t *l);
@@ -47,7 +47,6 @@ static int u_uri_query_first (u_lexer_t *l);
 static int u_uri_fragment_first (u_lexer_t *l);
 static int u_uri_path_first (u_lexer_t *l);
 static int u_uri_ipliteral_first (u_lexer_t *l);
-static int u_uri_ipv4address_first (u_lexer_t *l);
 static int u_uri_regname_first (u_lexer_t *l);
 static int u_uri_port_first (u_lexer_t *l);
 static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u);
@@ -501,12 +500,8 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
     /* u_uri_parse_ipliteral() will override this. */
     u_lexer_record_lmatch(l);
 
-    if (u_uri_ipv4address_first(l))
-    {
-        warn_err_if (u_uri_parse_ipv4address(l));
-        u->flags |= U_URI_FLAGS_HOST_IS_IPADDRESS;
-    }
-    else if (u_uri_regname_first(l))
+    /* IPv4 addresses are a subset of the registered names. */
+    if (u_uri_regname_first(l))
         warn_err_if (u_uri_parse_regname(l));
     else if (u_uri_ipliteral_first(l))
     {
@@ -522,6 +517,9 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
+    if (u_uri_is_ipv4address(u->host))
+        u->flags |= U_URI_FLAGS_HOST_IS_IPADDRESS;
+
     return 0;
 err:
     return ~0;
@@ -570,6 +568,10 @@ static int u_uri_parse_ipliteral (u_lexer_t *l)
     U_LEXER_NEXT(l, &c);
     u_lexer_record_lmatch(l);
 
+    /* The literal can't be empty. */
+    if (c == ']')
+        U_LEXER_ERR(l, "Empty IP literal.");
+
     while (u_uri_match_pchar(l) && c != ']')
         U_LEXER_NEXT(l, &c);
 
@@ -585,22 +587,29 @@ err:
     return ~0;
 }
 
-static int u_uri_ipv4address_first (u_lexer_t *l)
+/* IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet */
+static int u_uri_is_ipv4address (const char *s)
 {
-    return (isdigit(u_lexer_peek(l)));
-}
+    int octet, i;
 
-static int u_uri_parse_ipv4address (u_lexer_t *l)
-{
-    char c;
+    for (i = 0; i < 4; i++)
+    {
+        if (i > 0 && *s++ != '.')
+            return 0;
 
-    do {
-        U_LEXER_NEXT(l, &c); 
-    } while (isdigit(c) || c == '.');
+        if (!isdigit((unsigned char) *s))
+            return 0;
 
-    return 0;
-err:
-    return ~0;
+        /* No leading zeros. */
+        if (*s == '0' && isdigit((unsigned char) s[1]))
+            return 0;
+
+        for (octet = 0; isdigit((unsigned char) *s); s++)
+            if ((octet = octet * 10 + (*s - '0')) > 255)
+                return 0;
+    }
+
+    return (*s == '\0');
 }
 
 static int u_uri_regname_first (u_lexer_t *l)
@@ -701,16 +710,17 @@ err:
     return ~0;
 }
 
-/* ['/'] segment-nz path-abempty 
+/* path-absolute / path-rootless
  * Absorbs both rootless and absolute paths. */
 static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
 {
     u_lexer_record_lmatch(l);
 
-    if (u_lexer_peek(l) == '/')
-        U_LEXER_NEXT(l, NULL);
-    
-    warn_err_if (u_uri_expect_segment_nz(l));
+    /* An absolute path may be the bare '/' (it can't start with "//" here
+     * because that would have introduced an authority.) */
+    if (u_lexer_peek(l) != '/')
+        warn_err_if (u_uri_expect_segment_nz(l));
+
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From eef32b8b78b4ad1cc1c276129a9668a033a7692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 44/95] fix: an empty user name or password in a URI was taken
 wrong

---
 srcs/toolbox/uri.c | 41 ++++++++---------------------------------
 1 file changed, 8 insertions(+), 33 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 9a4d479..2972d71 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -659,43 +659,18 @@ err:
 /* TODO: refine ! */
 static int u_uri_crumble_user_password (u_uri_t *u)
 {
-    char c;
-    u_lexer_t *l = NULL;
-
-    dbg_return_if (!strlen(u->userinfo), ~0);
-
-    /* Create a disposable lexer. */
-    dbg_err_if (u_lexer_new(u->userinfo, &l));
-
-    /* User name. */
-    u_lexer_record_lmatch(l);
-
-    /* Assume there is at least one char available. */
-    do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
+    size_t ulen = strcspn(u->userinfo, ":");
 
-    u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
+    /* User name (may be empty.) */
+    memcpy(u->user, u->userinfo, ulen);
+    u->user[ulen] = '\0';
 
-    /* Check if we've exhausted the userinfo string. */
-    nop_goto_if (u_lexer_eot(l), end);
-
-    /* Skip ':'. */
-    U_LEXER_NEXT(l, NULL);
+    /* Password, if any, is what follows the first ':'. */
+    if (u->userinfo[ulen] == ':')
+        dbg_return_if (u_strlcpy(u->pwd, u->userinfo + ulen + 1, 
+                    sizeof u->pwd), ~0);
 
-    /* Password. */
-    u_lexer_record_lmatch(l);
-
-    do u_lexer_next(l, &c); while (!u_lexer_eot(l));
-
-    u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
-
-end:
-    u_lexer_free(l);
     return 0;
-err:
-    u_lexer_free(l);
-    return ~0;
 }
 
 static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
-- 
2.43.0


From e9de2618f04e3230fd97dca6d33b75561bb1a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 45/95] fix: a refused URI component was stored truncated

---
 srcs/toolbox/uri.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 2972d71..1f80fb0 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -327,6 +327,8 @@ int u_uri_set_##field (u_uri_t *uri, const char *val)               \
     dbg_return_if (uri == NULL, ~0);                                \
     dbg_return_if (val == NULL, ~0);                                \
                                                                     \
+    /* Don't touch the current value on failure. */                 \
+    dbg_err_if (strlen(val) >= sizeof uri->field);                  \
     dbg_err_if (u_strlcpy(uri->field, val, sizeof uri->field));     \
                                                                     \
     return 0;                                                       \
-- 
2.43.0


From 1964b2ab38eb1e8c26d9f33830d3dcd4bf7eba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 46/95] fix: URIs without host could not be composed, and host
 and path were run together

---
 srcs/toolbox/uri.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 1f80fb0..b2b1d95 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -16,6 +16,7 @@
 struct u_uri_s
 {
     unsigned int opts, flags;
+    int has_authority;  /* True if an authority (even empty) was parsed. */
     char scheme[U_TOKEN_SZ];
     char userinfo[U_TOKEN_SZ];
     char user[U_TOKEN_SZ], pwd[U_TOKEN_SZ];
@@ -171,6 +172,10 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
     else /* try recompose authority through its atoms */
         dbg_err_if (u_uri_knead_authority(u, s));
 
+    /* A path that follows an authority is either empty or absolute. */
+    if (strstr(s, "//") && *u->path != '\0' && *u->path != '/')
+        dbg_err_if (u_strlcat(s, "/", U_URI_STRMAX));
+
     dbg_err_if (u_strlcat(s, u->path, U_URI_STRMAX));
 
     if (strlen(u->query))
@@ -447,6 +452,8 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
     char c, i = 0;
     const char *p;
 
+    u->has_authority = 1;
+
     /* Consume "//". */
     do {
         if ((c = u_lexer_peek(l)) != '/')
@@ -883,9 +890,16 @@ static int u_uri_expect_path_abempty (u_lexer_t *l)
 static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
 {
     dbg_return_if (u == NULL, ~0);
-    dbg_return_if (strlen(u->host) == 0, ~0);
     dbg_return_if (s == NULL, ~0);
 
+    /* Without any of its atoms there is no authority at all, unless an empty 
+     * one was parsed (as in "file:///etc"), or it's needed to tell a path 
+     * which begins with "//" from an authority. */
+    if (!strlen(u->host) && !strlen(u->port) && !strlen(u->userinfo) 
+            && !strlen(u->user) && !strlen(u->pwd) && !u->has_authority
+            && strncmp(u->path, "//", strlen("//")))
+        return 0;
+
     /* If host is IPv6 literal, automatically add the IPLITERAL flag.
      * XXX Lousy test, we'd better parse it through u_uri_parse_ipliteral() */
     if (strchr(u->host, ':'))
@@ -898,7 +912,7 @@ static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, u->userinfo, U_URI_STRMAX));
         dbg_err_if (u_strlcat(s, "@", U_URI_STRMAX));
     }
-    else if (strlen(u->user))
+    else if (strlen(u->user) || strlen(u->pwd))
     {
         dbg_err_if (u_strlcat(s, u->user, U_URI_STRMAX)); 
 
-- 
2.43.0


From d681102d89fdb7917170e878c77c9947a88890be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 47/95] fix: replacing an IP literal host in a URI kept the
 brackets

---
 srcs/toolbox/uri.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index b2b1d95..1febc74 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -320,13 +320,16 @@ err:
     return 0;
 }
 
-#define U_URI_GETSET_F(field)                                       \
+#define U_URI_GETSET_F(field) U_URI_GET_F(field) U_URI_SET_F(field)
+
+#define U_URI_GET_F(field)                                          \
 const char *u_uri_get_##field (u_uri_t *uri)                        \
 {                                                                   \
     dbg_return_if (uri == NULL, NULL);                              \
     return uri->field;                                              \
-}                                                                   \
-                                                                    \
+}
+
+#define U_URI_SET_F(field)                                          \
 int u_uri_set_##field (u_uri_t *uri, const char *val)               \
 {                                                                   \
     dbg_return_if (uri == NULL, ~0);                                \
@@ -345,13 +348,30 @@ U_URI_GETSET_F(scheme)
 U_URI_GETSET_F(userinfo)
 U_URI_GETSET_F(user)
 U_URI_GETSET_F(pwd)
-U_URI_GETSET_F(host)
+U_URI_GET_F(host)
 U_URI_GETSET_F(port)
 U_URI_GETSET_F(authority)
 U_URI_GETSET_F(path)
 U_URI_GETSET_F(query)
 U_URI_GETSET_F(fragment)
 
+int u_uri_set_host (u_uri_t *uri, const char *val)
+{
+    dbg_return_if (uri == NULL, ~0);
+    dbg_return_if (val == NULL, ~0);
+
+    dbg_err_if (strlen(val) >= sizeof uri->host);
+    dbg_err_if (u_strlcpy(uri->host, val, sizeof uri->host));
+
+    /* The flags that the parser has set describe the previous host. */
+    uri->flags &= ~(U_URI_FLAGS_HOST_IS_IPADDRESS |
+                    U_URI_FLAGS_HOST_IS_IPLITERAL);
+
+    return 0;
+err:
+    return ~0;
+}
+
 u_uri_flags_t u_uri_get_flags (u_uri_t *uri) { return uri->flags; }
 
 /**
-- 
2.43.0


From c41bce5139ce3dbeecb832e68e233503263872e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 48/95] fix: the authority of a parsed URI read as empty

---
 srcs/toolbox/uri.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 1febc74..5364d26 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -21,6 +21,7 @@ struct u_uri_s
     char userinfo[U_TOKEN_SZ];
     char user[U_TOKEN_SZ], pwd[U_TOKEN_SZ];
     char authority[U_TOKEN_SZ];
+    char full_authority[U_URI_STRMAX];  /* Authority made of its atoms. */
     char host[U_TOKEN_SZ];
     char port[U_TOKEN_SZ];
     char path[U_TOKEN_SZ];
@@ -350,11 +351,26 @@ U_URI_GETSET_F(user)
 U_URI_GETSET_F(pwd)
 U_URI_GET_F(host)
 U_URI_GETSET_F(port)
-U_URI_GETSET_F(authority)
+U_URI_SET_F(authority)
 U_URI_GETSET_F(path)
 U_URI_GETSET_F(query)
 U_URI_GETSET_F(fragment)
 
+/* Unless explicitly set, the authority is what its atoms make. */
+const char *u_uri_get_authority (u_uri_t *uri)
+{
+    dbg_return_if (uri == NULL, NULL);
+
+    if (strlen(uri->authority))
+        return uri->authority;
+
+    uri->full_authority[0] = '\0';
+    dbg_return_if (u_uri_knead_authority(uri, uri->full_authority), NULL);
+
+    /* Skip the leading "//" (if any.) */
+    return uri->full_authority + strspn(uri->full_authority, "/");
+}
+
 int u_uri_set_host (u_uri_t *uri, const char *val)
 {
     dbg_return_if (uri == NULL, ~0);
-- 
2.43.0


From 15628fef0afbc87a1409f81c127edb61f877107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 49/95] fix: malformed password lines made usable records, or
 hid the good ones

---
 srcs/toolbox/pwd.c | 154 +++++++++++++++++++++++++++++++--------------
 1 file changed, 106 insertions(+), 48 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..43fa78e 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -23,6 +23,8 @@ static int u_pwd_need_reload (u_pwd_t *pwd);
 /* u_pwd_rec_t */
 static int u_pwd_rec_new (const char *user, const char *pass, 
         const char *opaque, u_pwd_rec_t **prec);
+static char *u_pwd_get_line (u_pwd_t *pwd, char *ln, size_t ln_sz);
+static int u_pwd_split_line (char *ln, char *toks[3]);
 static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec);
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
@@ -444,9 +446,9 @@ err:
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
-    size_t lc, got_it = 0, ntoks;
-    char ln[U_PWD_LINE_MAX], uu[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* expected line fmt is: "name:password[:opaque]\n" */
+    size_t lc, got_it = 0;
+    char ln[U_PWD_LINE_MAX];
+    char *toks[3];  /* expected line fmt is: "name:password[:opaque]\n" */
     u_pwd_rec_t *rec = NULL;
 
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -456,21 +458,25 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    /* do suitable search string for strstr(3) */
-    u_snprintf(uu, sizeof uu, "%s:", user);
-    
     /* read line by line */
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 1; u_pwd_get_line(pwd, ln, sizeof ln) != NULL; lc++)
     {
         /* skip comments */
         if (ln[0] == '#')
             continue;
 
+        /* tokenize line: expect at least 2 fields: user and password */
+        dbg_ifb (u_pwd_split_line(ln, toks))
+        {
+            u_info("bad syntax at line %zu (%s)", lc, ln);
+            continue;
+        }
+
         /* check if we're on user line, in case break the read loop... 
          * this is different from using the in-memory version in case an 
          * entry is duplicated: in-memory matches the last entry, here
          * we would get the first one */
-        if (strstr(ln, uu) == ln)
+        if (!strcmp(toks[0], user))
         {
             got_it = 1;
             break;
@@ -480,20 +486,8 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
-
-    /* tokenize line: expect at least 2 fields: user and password */
-    dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
-            "bad syntax at line %zu (%s)", lc, ln);
-
     /* create new record */
-    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                &rec));
-
-    /* dispose u_strtok rubbish */
-    u_strtok_cleanup(toks, ntoks);
+    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], toks[2], &rec));
 
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
@@ -506,14 +500,72 @@ err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
-
     u_pwd_res_close(pwd);
 
     return ~0;
 }
 
+/* get next line from the master db, without the terminating \n.  Lines that 
+ * don't fit are discarded as a whole, so that their tail isn't mistaken for 
+ * a record */
+static char *u_pwd_get_line (u_pwd_t *pwd, char *ln, size_t ln_sz)
+{
+    size_t len, chunks;
+
+    for (chunks = 0; pwd->cb_load(ln, ln_sz, pwd->res_handler) != NULL; )
+    {
+        len = strlen(ln);
+
+        if (len + 1 == ln_sz && ln[len - 1] != '\n')
+        {
+            ++chunks;
+            continue;
+        }
+
+        /* last chunk of an over-long line */
+        if (chunks)
+        {
+            u_info("discarding over-long line");
+            chunks = 0;
+            continue;
+        }
+
+        if (len && ln[len - 1] == '\n')
+            ln[len - 1] = '\0';
+
+        return ln;
+    }
+
+    return NULL;
+}
+
+/* split "name:password[:opaque]" in place: name and password are mandatory */
+static int u_pwd_split_line (char *ln, char *toks[3])
+{
+    size_t i;
+
+    for (i = 0; i < 3; i++)
+    {
+        toks[i] = ln;
+
+        if (ln != NULL)
+        {
+            ln += strcspn(ln, ":");
+
+            if (*ln == ':')
+                *ln++ = '\0';
+            else
+                ln = NULL;
+        }
+    }
+
+    /* an empty opaque field is the same as no opaque field */
+    if (toks[2] && *toks[2] == '\0')
+        toks[2] = NULL;
+
+    return (*toks[0] == '\0' || toks[1] == NULL || *toks[1] == '\0') ? ~0 : 0;
+}
+
 static int u_pwd_res_open (u_pwd_t *pwd)
 {
     dbg_return_if (pwd->cb_open == NULL, ~0);
@@ -650,9 +702,9 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
-    size_t lc, ntoks;
+    size_t lc;
     char ln[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
+    char *toks[3];  /* line fmt is: "name:password[:hint]\n" */
     u_pwd_rec_t *rec = NULL;
     
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -662,33 +714,21 @@ static int u_pwd_db_load (u_pwd_t *pwd)
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 1; u_pwd_get_line(pwd, ln, sizeof ln) != NULL; lc++)
     {
-        /* cleanup strtok rubbish from the previous loop */
-        if (toks)
-        {
-            u_strtok_cleanup(toks, ntoks);
-            toks = NULL;
-        }
-
         /* skip comment lines */
         if (ln[0] == '#')
             continue;
 
-        /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
-
         /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
+        dbg_ifb (u_pwd_split_line(ln, toks))
         {
             u_info("bad syntax at line %zu (%s)", lc, ln);
             continue;
         }
 
         /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
+        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], toks[2], &rec))
         {
             u_info("could not create record for entry at line %zu", lc);
             continue;
@@ -704,9 +744,6 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         rec = NULL;
     }
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
@@ -717,9 +754,6 @@ err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
     u_pwd_res_close(pwd);
 
     return ~0;
@@ -758,7 +792,31 @@ static void __file_close (void *fp)
 
 static char *__file_load (char *str, int size, void *fp)
 {
-    return fgets(str, size, (FILE *) fp);
+    int c, len, bad;
+
+    do
+    {
+        for (len = bad = 0; (c = getc((FILE *) fp)) != EOF; )
+        {
+            /* binary and over-long lines are not records */
+            if (c == '\0' || len == size - 1)
+                bad = 1;
+            else
+                str[len++] = c;
+
+            if (c == '\n')
+                break;
+        }
+
+        /* don't trust what comes before an error or the end of file */
+        nop_return_if (c == EOF && (len == 0 || bad || ferror((FILE *) fp)), 
+                NULL);
+    }
+    while (bad);
+
+    str[len] = '\0';
+
+    return str;
 }
 
 /* in case file update has been detected, *pnew_update is also set */
-- 
2.43.0


From 0b8378a9de64d7bea175c6d1641d42da50220798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 50/95] fix: the buffer of hashed passwords had no room for the
 terminator

---
 srcs/toolbox/pwd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 43fa78e..cd56cf6 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -259,8 +259,9 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     /* hash if requested, otherwise do cleartext cmp */
     if (pwd->cb_hash)
     {
-        /* create a buffer that fits the specific hash function */
-        dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
+        /* create a buffer that fits the specific hash function 
+         * (plus the terminating NUL char) */
+        dbg_err_if ((__p = u_zalloc(pwd->hash_len + 1)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
     }
     else
-- 
2.43.0


From df6bd630a02e16e6382f1f0db080498a858691bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 51/95] fix: a failed reload wiped the password snapshot, and
 no notifier meant no snapshot

---
 srcs/toolbox/pwd.c | 54 +++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index cd56cf6..0a182a9 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -428,19 +428,28 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old_db;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
+    /* put the old snapshot aside */
+    old_db = pwd->db;
+    pwd->db = NULL;
     
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old_db)
+        u_hmap_easy_free(old_db);
+
     return 0;
 err:
+    /* go on with the old snapshot */
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old_db;
     return ~0;
 }
 
@@ -656,21 +665,24 @@ err:
 
 static int u_pwd_need_reload (u_pwd_t *pwd)
 {
-    time_t update_timestamp;
+    time_t update_timestamp = pwd->last_mod;
 
     /* if needed parameters are not set return immediately (no error) */
     nop_return_if (!pwd->in_memory, 0);
-    nop_return_if (pwd->cb_notify == NULL, 0);
 
-    /* in case no update has been notified return */
-    if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
-        return 0;
+    /* in case no update has been notified return (unless there's no snapshot
+     * at all) */
+    if (pwd->cb_notify == NULL || 
+            !pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
+        nop_return_if (pwd->db != NULL, 0);
 
-    /* update notified: set .last_mod */
-    pwd->last_mod = update_timestamp;
-    
     /* reload db to memory */
-    return u_pwd_load(pwd);
+    dbg_return_if (u_pwd_load(pwd), ~0);
+
+    /* update done: set .last_mod (on failure we'll try again) */
+    pwd->last_mod = update_timestamp;
+
+    return 0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
@@ -729,22 +741,20 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         }
 
         /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], toks[2], &rec))
-        {
-            u_info("could not create record for entry at line %zu", lc);
-            continue;
-        }
+        dbg_err_ifm (u_pwd_rec_new(toks[0], toks[1], toks[2], &rec),
+                "could not create record for entry at line %zu", lc);
 
         /* push rec to db */
-        dbg_ifb (u_pwd_db_push(pwd, rec))
-        {
-            u_info("could not push record for entry at line %zu", lc);
-            u_pwd_rec_free(pwd, rec), rec = NULL;
-        }
+        dbg_err_ifm (u_pwd_db_push(pwd, rec),
+                "could not push record for entry at line %zu", lc);
 
         rec = NULL;
     }
 
+    /* the snapshot is not complete if the master db could not be read out */
+    dbg_err_sif (pwd->cb_load == __file_load && 
+            ferror((FILE *) pwd->res_handler));
+
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-- 
2.43.0


From 3f2f261ea7e8bca04913b19b345fb5c997b12589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 52/95] fix: each password snapshot leaked its map options

---
 srcs/toolbox/pwd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 0a182a9..595950e 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -694,7 +694,12 @@ static int u_pwd_db_new (u_pwd_t *pwd)
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
             
-    return u_hmap_easy_new(hopts, &pwd->db);
+    dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
+
+    /* options have been copied */
+    u_hmap_opts_free(hopts);
+
+    return 0;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From 56cbe3975776b94709dc9ff89c2fb04cecced9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 53/95] fix: releasing a record retrieved from a password
 snapshot damaged the snapshot

---
 srcs/toolbox/pwd.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 595950e..37c1b51 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -276,16 +276,14 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     if (__p && (__p != __pstack))
         u_free(__p);
 
-    /* rec ownership is ours only if hmap doesn't have it */
-    if (!pwd->in_memory)
-        u_pwd_rec_free(pwd, rec);
+    u_pwd_rec_free(pwd, rec);
 
     return rc;
 err:
     if (__p && (__p != __pstack))
         u_free(__p);
 
-    if (!pwd->in_memory && rec)
+    if (rec)
         u_pwd_rec_free(pwd, rec);
 
     return ~0;
@@ -338,8 +336,7 @@ int u_pwd_init_file (const char *res_uri, u_pwd_hash_cb_t cb_hash,
  *  \brief  Dispose a ::u_pwd_rec_t object 
  *
  *  Dispose the supplied ::u_pwd_rec_t object \p rec.  It MUST be called
- *  on ::u_pwd_rec_t records returned from ::u_pwd_retr when using "in memory" 
- *  pwd instances (for non "in memory" pwd's the function is a NOP)
+ *  on ::u_pwd_rec_t records returned from ::u_pwd_retr.
  *
  *  \param  pwd     the pwd instance which owns \p rec
  *  \param  rec     the pwd_rec record to be disposed
@@ -656,9 +653,9 @@ static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user,
     pr = (u_pwd_rec_t *) u_hmap_easy_get(pwd->db, user);
     dbg_err_if (pr == NULL);
 
-    *prec = pr;
-
-    return 0;
+    /* the caller will dispose its record through u_pwd_rec_free, while ours
+     * belongs to the snapshot and goes away with it */
+    return u_pwd_rec_new(pr->user, pr->pass, pr->opaque, prec);
 err:
     return ~0;
 }
-- 
2.43.0


From 5fc28ef2d54c1743b0707ac614ac866c7429785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 54/95] fix: duplicate names in a password file were freed
 twice when loaded into memory

---
 srcs/toolbox/pwd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 37c1b51..fd547ba 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -690,7 +690,10 @@ static int u_pwd_db_new (u_pwd_t *pwd)
 
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
-            
+
+    /* in case of duplicate entries the last one wins */
+    dbg_err_if (u_hmap_opts_unset_option(hopts, U_HMAP_OPTS_NO_OVERWRITE));
+
     dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
 
     /* options have been copied */
-- 
2.43.0


From 79c8be90bb581534311a8545f03725b8bd28fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 55/95] fix: connecting with a time limit changed the mode of
 the descriptor, and interrupted local connects were lost

---
 srcs/toolbox/net.c | 63 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..c774ec7 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -96,6 +96,7 @@ static int scheme_mapper (const char *scheme, u_net_scheme_map_t *map);
 static int uri2addr (u_uri_t *u, u_net_scheme_map_t *m, u_net_addr_t *a);
 static inline int update_timeout (struct timeval *timeout, 
         struct timeval *tstart);
+static inline int is_nonblocking (int s);
 
 /**
     \defgroup net Networking
@@ -496,7 +497,7 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
 int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         struct timeval *timeout)
 {
-    int rc;
+    int rc, saved_errno, restore = 0;
     u_socklen_t rc_len = sizeof rc;
     struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
     fd_set writefds;
@@ -507,8 +508,15 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
 
     if (timeout)
     {
-        dbg_err_if (u_net_set_nonblocking(sd));
         dbg_err_sif (gettimeofday(&tstart, NULL) == -1);
+
+        /* Go non-blocking, unless the caller did it already: in that case 
+         * there is nothing to restore on exit. */
+        if (!is_nonblocking(sd))
+        {
+            dbg_err_if (u_net_set_nonblocking(sd));
+            restore = 1;
+        }
     }
    
     /* Open Group Base Specifications:
@@ -520,9 +528,31 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      * instead a rather convoluted select() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    while ((rc = connect(sd, addr, addrlen)) == -1 && errno == EINTR)
+    {
+        /* An interrupted connect(2) on a local socket doesn't go on behind 
+         * the scenes: it has to be started again. */
+#ifndef NO_UNIXSOCK
+        if (addr->sa_family == AF_UNIX)
+            continue;
+#endif  /* !NO_UNIXSOCK */
+        break;
+    }
+
+    if (rc == 0)
+        goto end;
+
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
+#ifdef OS_UNIX
+    /* No room in the set for this descriptor. */
+    if (sd >= FD_SETSIZE)
+    {
+        errno = EMFILE;
+        dbg_err("can't wait for completion on socket %d", sd);
+    }
+#endif  /* OS_UNIX */
+
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
@@ -578,14 +608,22 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         warn_err("error detected on socket %d: %s", sd, strerror(errno));
     }
 
-    if (timeout)
-        (void) u_net_unset_nonblocking(sd);
+end:
+    if (restore)
+    {
+        restore = 0;
+        dbg_err_if (u_net_unset_nonblocking(sd));
+    }
 
     return 0;
 err:
-    if (timeout)
+    saved_errno = errno;
+
+    if (restore)
         (void) u_net_unset_nonblocking(sd);
 
+    errno = saved_errno;
+
     return (errno == ETIMEDOUT) ? -2 : -1;
 }
 
@@ -1441,6 +1479,19 @@ err:
 }
 #endif  /* HAVE_GETADDRINFO */
 
+/* tell if the non-blocking bit is set on the supplied descriptor */
+static inline int is_nonblocking (int s)
+{
+#ifdef HAVE_FCNTL
+    int flags = fcntl(s, F_GETFL, 0);
+
+    return (flags != -1 && (flags & O_NONBLOCK));
+#else
+    u_unused_args(s);
+    return 0;
+#endif  /* HAVE_FCNTL */
+}
+
 static inline int update_timeout (struct timeval *timeout, 
         struct timeval *tstart)
 {
-- 
2.43.0


From 71ae0c3f2d3054a6c1a770cdd9d47dbea896d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 56/95] fix: opening a socket on no address did not return -1

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index c774ec7..7f9a4f0 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -278,7 +278,7 @@ err:
  */ 
 int u_net_sd_by_addr_ex (u_net_addr_t *a, struct timeval *timeout)
 {
-    dbg_return_if (a == NULL, ~1);
+    dbg_return_if (a == NULL, -1);
 
     switch (a->mode)
     {
-- 
2.43.0


From ed0357e7b153f2d79bc5abcfedbb340157672910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 57/95] fix: printing a local address read past a path with no
 terminator

---
 srcs/toolbox/net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 7f9a4f0..db13100 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -832,7 +832,9 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         case AF_UNIX:
         {
             const struct sockaddr_un *su = (const struct sockaddr_un *) sa;
-            dbg_if (u_strlcpy(d, su->sun_path, dlen));
+            /* the path isn't terminated when it takes up all the room */
+            dbg_if (u_snprintf(d, dlen, "%.*s", (int) sizeof su->sun_path, 
+                        su->sun_path));
             break;
         }
 #endif  /* !NO_UNIXSOCK */
-- 
2.43.0


From 4020d843699b0622ef92a6b2363c50857b331c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 58/95] fix: out of range and empty ports were accepted, the
 doubly wildcard address was refused

---
 srcs/toolbox/net.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index db13100..ee9f8ca 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1244,6 +1244,7 @@ static int ai_resolv (const char *host, const char *port, const char *path,
 {
     int e;
     const char *hostname, *servname;
+    unsigned long ul;
     struct addrinfo hints, *ai = NULL;
 
     /* 'host', 'port' and 'path' check depend on 'family' */
@@ -1258,13 +1259,22 @@ static int ai_resolv (const char *host, const char *port, const char *path,
     }
 
     dbg_return_if (host == NULL, ~0);
-    dbg_return_if (port == NULL, ~0);
+    dbg_return_if (port == NULL || *port == '\0', ~0);
 
     /* 
-     * Handle '*' for both host and port.
+     * Handle '*' for both host and port.  (At least one of them has to be 
+     * handed to getaddrinfo(), 0 being the port that stands for ephemeral.)
      */
     hostname = !strcmp(host, "*") ? NULL : host;
-    servname = !strcmp(port, "*") ? NULL : port;
+    servname = !strcmp(port, "*") ? "0" : port;
+
+    /* getaddrinfo() doesn't check the range of numeric ports */
+    if (strspn(port, "0123456789") == strlen(port))
+    {
+        errno = 0;
+        ul = strtoul(port, NULL, 10);
+        dbg_err_ifm (errno || ul > 65535, "port %s out of range", port);
+    }
 
     memset(&hints, 0, sizeof hints);
 
-- 
2.43.0


From ae0d1e3898a64a0797016ed88ce9bc02032dedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 59/95] fix: a local address was released twice when out of
 memory, an empty path was accepted

---
 srcs/toolbox/net.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee9f8ca..09ee3e8 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1190,7 +1190,7 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
 
     u_unused_args(dummy1, dummy2);
 
-    dbg_return_if (path == NULL, ~0);
+    dbg_return_if (path == NULL || *path == '\0', ~0);
     dbg_return_if (ai == NULL, ~0);
 
     dbg_err_sif ((sunix = u_zalloc(sizeof *sunix)) == NULL);
@@ -1199,15 +1199,15 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
     dbg_err_ifm (u_strlcpy(sunix->sun_path, path, sizeof sunix->sun_path), 
             "%s too long", path);
 
+    /* set cname to what was provided as 'path' by the caller */
+    dbg_err_sif ((cname = u_strdup(path)) == NULL);
+    ai->ai_canonname = cname;
+
     ai->ai_protocol = 0;    /* override previous setting if any */
     ai->ai_addr = (struct sockaddr *) sunix;
     ai->ai_addrlen = sizeof *sunix;
     ai->ai_next = NULL;
 
-    /* set cname to what was provided as 'path' by the caller */
-    dbg_err_sif ((cname = u_strdup(path)) == NULL);
-    ai->ai_canonname = cname;
-
     return 0;
 err:
     U_FREE(sunix);
-- 
2.43.0


From 0472e1979f00d98c58767a413c39791c01a281a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 60/95] fix: SCTP events nobody asked for were subscribed at
 random

---
 srcs/toolbox/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 09ee3e8..2a4fe24 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1009,6 +1009,8 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
-- 
2.43.0


From 3e8ff955c4a11a149aa30456d15c84a4c9105f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 61/95] fix: environment files failed silently, or lost and
 forged long and multi-line values

---
 srcs/toolbox/env.c | 102 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 14 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index d95236b..31ec30c 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -8,10 +8,15 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <errno.h>
 
 #include <toolbox/env.h>
 #include <toolbox/carpal.h>
 #include <toolbox/misc.h>
+#include <toolbox/str.h>
+
+static int make_command (const char *cfile, u_string_t *pcmd);
+static int set_variable (const char *prefix, const char *line);
 
 /**
     \defgroup env Environment
@@ -86,38 +91,58 @@
  */
 int u_env_init (const char *prefix, const char *cfile)
 {
-    enum { BUFSZ = 1024 };
+    int c, status;
     struct stat sb;
-    char line[BUFSZ], pcmd[BUFSZ], *val;
+    char ch;
+    u_string_t *pcmd = NULL, *line = NULL;
     FILE *pi = NULL;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
 
     /* if 'cfile' does not exist bail out */
     dbg_err_sifm (stat(cfile, &sb) == -1, "%s", cfile);
+    dbg_err_ifm (S_ISDIR(sb.st_mode), "%s is a directory", cfile);
+
+    dbg_err_if (u_string_create(NULL, 0, &pcmd));
+    dbg_err_if (u_string_create(NULL, 0, &line));
 
-    dbg_err_if (u_snprintf(pcmd, BUFSZ, ". %s 2>/dev/null && env", cfile));
+    dbg_err_if (make_command(cfile, pcmd));
 
-    dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
+    dbg_err_if ((pi = popen(u_string_c(pcmd), "r")) == NULL);
 
-    while(fgets(line, BUFSZ-1, pi))
+    /* pick up the variables, each terminated by a NUL */
+    while ((c = fgetc(pi)) != EOF)
     {
-        if(strncmp(line, prefix, strlen(prefix)) == 0)
+        if (c != '\0')
         {
-            line[strlen(line)-1] = 0;
-            val = strchr(line, '=');
-            if(!val)
-                continue; /* should never happen... */
-            *val++ = 0;
-            /* line is the name and val the value */
-            dbg_err_if(setenv(line, val, 1));
+            ch = (char) c;
+            dbg_err_if (u_string_append(line, &ch, 1));
+            continue;
         }
+
+        if (u_string_len(line))
+            dbg_err_if (set_variable(prefix, u_string_c(line)));
+        dbg_err_if (u_string_clear(line));
     }
 
-    pclose(pi);
+    dbg_err_if (ferror(pi));
+
+    /* the shell fails in case the file could not be evaluated (its status is 
+     * not available when the calling process ignores SIGCHLD) */
+    status = pclose(pi);
+    pi = NULL;
+    dbg_err_if (status == -1 ? errno != ECHILD : status != 0);
+
+    u_string_free(line);
+    u_string_free(pcmd);
+
     return 0;
 err:
     U_PCLOSE(pi);
+    if (line)
+        u_string_free(line);
+    if (pcmd)
+        u_string_free(pcmd);
     return ~0;
 }
 
@@ -139,3 +164,52 @@ const char *u_env_var (const char *name)
 /**
  *  \}
  */
+
+/* Build the shell command that evaluates 'cfile' and writes the environment 
+ * that comes out of it on standard output, with NUL terminated variables where 
+ * env(1) can do that (i.e. values can span more than one line). */
+static int make_command (const char *cfile, u_string_t *pcmd)
+{
+    const char *p;
+
+    /* a name with no slashes would be searched in the PATH */
+    dbg_err_if (u_string_cat(pcmd, strchr(cfile, '/') ? ". '" : ". './"));
+
+    /* quote the file name */
+    for (p = cfile; *p != '\0'; ++p)
+    {
+        if (*p == '\'')
+            dbg_err_if (u_string_cat(pcmd, "'\\''"));
+        else
+            dbg_err_if (u_string_append(pcmd, p, 1));
+    }
+
+    dbg_err_if (u_string_cat(pcmd, "' >/dev/null 2>&1 && "
+                "{ env -0 2>/dev/null || env | tr '\\n' '\\0'; }"));
+
+    return 0;
+err:
+    return ~0;
+}
+
+/* Put the variable in 'line' (i.e. "name=value") into the environment in case 
+ * it belongs to the 'prefix' namespace. */
+static int set_variable (const char *prefix, const char *line)
+{
+    char *name = NULL;
+    const char *eq;
+
+    if (strncmp(line, prefix, strlen(prefix)) || 
+            (eq = strchr(line, '=')) == NULL)
+        return 0;
+
+    dbg_err_sif ((name = u_strndup(line, eq - line)) == NULL);
+    dbg_err_sif (setenv(name, eq + 1, 1));
+
+    u_free(name);
+
+    return 0;
+err:
+    U_FREE(name);
+    return ~0;
+}
-- 
2.43.0


From 1246e35a39c3db6e9a1f051a6205f596b1ffb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 62/95] fix: log messages one character too long were handed
 over truncated

---
 srcs/toolbox/log.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..6e0ebe4 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -98,6 +98,7 @@ static inline const char* u_log_label(int lev)
 
 static int u_log(int fac, int level, const char *fmt, ...)
 {
+    int rc;
     va_list ap;
     char buf[U_MAX_LOG_LENGTH];
 
@@ -107,7 +108,9 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
@@ -157,8 +160,8 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
-        goto err; /* message too long */
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
+        goto err; /* bad format or message too long */
 
     /* init empty strings */
     errmsg[0] = strerr[0] = 0;
-- 
2.43.0


From f642911eaa2ea8ec2ac9f10a1932072c66f68e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 63/95] fix: crit_goto_if and crit_strerror named a label that
 does not exist

---
 include/toolbox/carpal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index de65df5..a6cc66c 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -471,8 +471,8 @@ extern "C" {
 #define crit_err_sifm(expr, ...)        msg_err_sifm(crit_, expr, __VA_ARGS__)
 #define crit_err_rcif(expr, ...)        msg_err_rcif(crit_, expr, __VA_ARGS__)
 
-#define crit_goto_if(expr, gt)          msg_goto_if(crit, expr, gt)
-#define crit_strerror(err)              msg_strerror(crit, err)
+#define crit_goto_if(expr, gt)          msg_goto_if(crit_, expr, gt)
+#define crit_strerror(err)              msg_strerror(crit_, err)
 
 /* err_ macros */
 #define u_err(...)                      msg(err_, 0, __VA_ARGS__)
-- 
2.43.0


From 60eafb5056493e098320d572c23ac61af9e60d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 64/95] fix: the strerror macros printed the number of another
 error

---
 include/toolbox/carpal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index a6cc66c..004f171 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -368,7 +368,7 @@ extern "C" {
         if(u_strerror_r(en, _eb, _DBG_BUFSZ)) {                     \
             msg(label, 0, "strerror_r(%d, ...) failed", en);        \
         } else {                                                    \
-            msg(label, 0, "errno: %d (%s)", errno, _eb);            \
+            msg(label, 0, "errno: %d (%s)", en, _eb);               \
         }                                                           \
     } while(0)  
 #endif /* OS_WIN */
-- 
2.43.0


From 6b79913ddc76a5f16e1c6427ea05b5fcd185e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 65/95] fix: declaring the same test dependency twice was
 refused as a dependency loop

---
 srcs/toolbox/test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 237ce56..e06baf2 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -984,7 +984,7 @@ static int u_test_obj_dep_add (u_test_dep_t *td, u_test_obj_t *to)
 
     /* See if the dependency isn't already recorded, in which case
      * insert it into the dependency list for this test case/suite. */
-    if (u_test_dep_search(&to->deps, to->id) == NULL)
+    if (u_test_dep_search(&to->deps, td->id) == NULL)
     {
         LIST_INSERT_HEAD(&to->deps, td, links);
     }
-- 
2.43.0


From 6c918a7d72dc5e9f2166afea458446fec6f1d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 66/95] fix: test scheduling ran too many cases in parallel, or
 span on skipped ones

---
 srcs/toolbox/test.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index e06baf2..aec0a5a 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1262,7 +1262,11 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
             tc = TC_HANDLE(tptr);
 
         resched:
-            for (to = tptr; to != NULL; to = LIST_NEXT(to, links))
+            parallel = 0;   /* Each chunk starts with no running TC. */
+
+            /* Unset 'tptr', so that, in case we go out on loop exhaustion,
+             * the reaper branch knows that we don't need to be restarted. */
+            for (to = tptr, tptr = NULL; to != NULL; to = LIST_NEXT(to, links))
             {
                 if (to->rank == r)
                 {
@@ -1286,11 +1290,6 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
                         goto reap;
                     }
                 }
-                    
-                /* Make sure 'tptr' is unset, so that, in case we go out on 
-                 * loop exhaustion, the reaper branch knows that we don't need
-                 * to be restarted. */
-                tptr = NULL;
             }
 
         reap:
@@ -1298,10 +1297,7 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
 
             /* If 'tptr' was set, it means that we need to restart. */
             if (tptr != NULL)
-            {
-                parallel = 0;       /* Reset parallel counter. */
                 goto resched;       /* Go to sched again. */
-            }
         }
     }
 
-- 
2.43.0


From cbcc4e6a22bc6625447f931abe4d1f45f7b7a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 67/95] fix: test cases that could not be started or waited for
 were reported as passed

---
 srcs/toolbox/test.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index aec0a5a..0698f31 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -170,6 +170,7 @@ static int u_test_case_exec (u_test_case_t *tc);
 
 /* Test cases routines. */
 static int u_test_cases_reap (TO *h);
+static void u_test_cases_lost (TO *h);
 static u_test_case_t *u_test_cases_search_by_pid (TO *h, pid_t pid);
 
 /* Test suite routines. */
@@ -1326,10 +1327,18 @@ static int u_test_cases_reap (TO *h)
         if ((child = wait(&status)) == -1)
 #endif
         {
-            /* Interrupted (should be by user interaction) or no more child 
-             * processes */
-            if (errno == EINTR || errno == ECHILD)
+            /* Interrupted by user interaction, or by some unrelated signal */
+            if (errno == EINTR && g_interrupted)
                 break;
+            else if (errno == EINTR)
+                continue;
+            else if (errno == ECHILD)
+            {
+                /* No more child processes: nobody knows what became of the
+                 * test cases that have not been waited for yet. */
+                u_test_cases_lost(h);
+                break;
+            }
             else    /* THIS IS BAD */
                 con_err_sifm (1, "wait3 failed badly, test aborted");
         }
@@ -1391,6 +1400,25 @@ err:
 #endif  /* U_TEST_SANDBOX_ENABLED */
 }
 
+static void u_test_cases_lost (TO *h)
+{
+    u_test_obj_t *to;
+    u_test_case_t *tc;
+
+    LIST_FOREACH (to, &h->objs, links)
+    {
+        if (tc = TC_HANDLE(to), tc->pid != U_TEST_CASE_PID_INITIALIZER)
+        {
+            tc->pid = U_TEST_CASE_PID_INITIALIZER;
+            tc->o.status = U_TEST_ABORTED;
+        }
+    }
+
+    h->nchildren = 0;
+
+    return;
+}
+
 static u_test_case_t *u_test_cases_search_by_pid (TO *h, pid_t pid)
 {
     u_test_obj_t *to;
@@ -1547,6 +1575,7 @@ static int u_test_case_exec (u_test_case_t *tc)
     {
         case -1:
             u_warn("test case %s spawn failed: %s", tc->o.id, strerror(errno));
+            tc->o.status = U_TEST_ABORTED;
             return ~0;
         case 0:
             exit(tc->func(tc));
-- 
2.43.0


From 9207bf8ff3f7ce869ba8e0db43bc5b6757ea77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 68/95] fix: the totals of a skipped test suite were reported
 as zero

---
 srcs/toolbox/test.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 0698f31..1bcc592 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1239,8 +1239,12 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
                         /* Update test cases status. */
                         if (to->what == U_TEST_SUITE_T)
                         {
-                            (void) u_test_suite_update_all_status(TS_HANDLE(to),
+                            u_test_suite_t *ts = TS_HANDLE(to);
+
+                            (void) u_test_suite_update_all_status(ts,
                                     U_TEST_SKIPPED);
+                            (void) u_test_syn_update(&ts->syn, 
+                                    &ts->u_test_cases);
                         }
 
                         continue;
-- 
2.43.0


From 4c9833571a3865ec06ba4b1929500a01ef2d01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 69/95] fix: test cases returning an unknown status were left
 out of the totals, or passed

---
 srcs/toolbox/test.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 1bcc592..dae8621 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -167,6 +167,7 @@ static int u_test_case_scheduler (u_test_obj_t *to);
 static int u_test_case_report_txt (FILE *fp, u_test_case_t *tc);
 static int u_test_case_report_xml (FILE *fp, u_test_case_t *tc);
 static int u_test_case_exec (u_test_case_t *tc);
+static int u_test_case_verdict (int rc);
 
 /* Test cases routines. */
 static int u_test_cases_reap (TO *h);
@@ -1368,7 +1369,7 @@ static int u_test_cases_reap (TO *h)
              * or _exit(2), or by returning from main().  
              * We expect a compliant test case to return one of U_TEST_FAILURE
              * or U_TEST_SUCCESS. */
-            tc->o.status = WEXITSTATUS(status);
+            tc->o.status = u_test_case_verdict(WEXITSTATUS(status));
             dbg_if (tc->o.status != U_TEST_SUCCESS && 
                     tc->o.status != U_TEST_FAILURE);
         }
@@ -1548,6 +1549,21 @@ static int u_test_case_scheduler (u_test_obj_t *to)
     return u_test_case_exec(TC_HANDLE(to));
 }
 
+/* Anything a test case may return which is not a known status is a failure
+ * (note that only the low order 8 bits of an exit code reach the reaper.) */
+static int u_test_case_verdict (int rc)
+{
+    switch (rc)
+    {
+        case U_TEST_SUCCESS:
+        case U_TEST_ABORTED:
+        case U_TEST_SKIPPED:
+            return rc;
+        default:
+            return U_TEST_FAILURE;
+    }
+}
+
 static int u_test_case_exec (u_test_case_t *tc)
 {
     int rc;
@@ -1568,7 +1584,7 @@ static int u_test_case_exec (u_test_case_t *tc)
         dbg_if ((rc = tc->func(tc)) != U_TEST_SUCCESS && rc != U_TEST_FAILURE);
 
         /* Update test case stats. */
-        tc->o.status = rc;
+        tc->o.status = u_test_case_verdict(rc);
         tc->o.stop = time(NULL);
 
         return 0;
@@ -1582,7 +1598,7 @@ static int u_test_case_exec (u_test_case_t *tc)
             tc->o.status = U_TEST_ABORTED;
             return ~0;
         case 0:
-            exit(tc->func(tc));
+            exit(u_test_case_verdict(tc->func(tc)));
         default:
             break;
     }
-- 
2.43.0


From c1b2f09a7a60ea4b748ff933506c82d7db1c0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 70/95] fix: an interrupt between two test suites made the rest
 count as passed

---
 srcs/toolbox/test.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index dae8621..e607e2d 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1480,6 +1480,10 @@ static int u_test_scheduler (u_test_t *t)
     /* Run the test scheduler. */ 
     rc = u_test_obj_scheduler(&t->u_test_suites, u_test_suite_scheduler);
 
+    /* Suites may have been left out if we've been interrupted. */
+    if (g_interrupted)
+        rc = ~0;
+
     /* Collect synoptical stats. */
     (void) u_test_syn_update(&t->syn, &t->u_test_suites);
 
-- 
2.43.0


From 9b9d4b42b5338c91412bbf87897b1233b3efb544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:06 +0000
Subject: [PATCH 71/95] fix: str: a printf that runs out of memory leaves the
 text unaltered

---
 srcs/toolbox/str.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index e9b102b..ccd8541 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -499,10 +499,11 @@ again:
 
     if (sz >= avail)
     {
-        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-
         /* trunc the buffer again since vsnprintf could have overwritten '\0' */
-        s->data[s->data_len] = '\0';
+        if (s->data_sz)
+            s->data[s->data_len] = '\0';
+
+        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
 
         goto again;
     }
-- 
2.43.0


From 4490a7a51155e70aaff7a073a8458deb30755798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:06 +0000
Subject: [PATCH 72/95] fix: config: look dotted keys up without allocating
 (present keys read as absent when out of memory)

---
 srcs/toolbox/config.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 05843c0..f5fec39 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -417,7 +417,8 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         u_config_t **pc)
 {
     u_config_t *child = NULL;
-    char *first_key = NULL, *p;
+    const char *p;
+    size_t len;
 
     if ((p = strchr(subkey, '.')) == NULL)
     {
@@ -429,14 +430,14 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
     } 
     else 
     {
-        if ((first_key = u_strndup(subkey, p - subkey)) != NULL)
+        len = (size_t) (p - subkey);
+
+        /* find the child named by the first component of the path */
+        TAILQ_FOREACH(child, &c->children, np)
         {
-            child = u_config_get_child(c, first_key);
-            U_FREE(first_key);
+            if (!strncmp(child->key, subkey, len) && child->key[len] == '\0')
+                return u_config_get_subkey_nth(child, ++p, n, pc);
         }
-
-        if (child != NULL)
-            return u_config_get_subkey_nth(child, ++p, n, pc);
     }
 
     return ~0; /* not found */
-- 
2.43.0


From 40cf2ae1ad56c8a3891e95cfcf9e7fd8be12fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:19 +0000
Subject: [PATCH 73/95] fix: build with debugging messages enabled
 (u_json_set_val_ex)

---
 srcs/toolbox/json.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index f7ef79b..133c9ee 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -394,7 +394,9 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
 
     /* Don't touch the current value (nor the stack) if 'val' doesn't fit. */
     if (jo->type == U_JSON_TYPE_STRING || jo->type == U_JSON_TYPE_NUMBER)
+    {
         dbg_return_if (strlen(val) >= sizeof jo->val, ~0);
+    }
     else
         check = 0;
 
-- 
2.43.0


From e996121b8175ecedbee28c5a191937fb7d3ec605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 74/95] fix: fnmatch replacement with bytes above 127, ']'
 first in a bracket, leading periods

---
 srcs/missing/fnmatch.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 4c0bf06..93a3e3a 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -45,6 +45,7 @@
 #define	EOS	'\0'
 
 static const char *rangematch(const char *, int, int);
+static int fnmatch_from(const char *, const char *, const char *, int);
 
 static inline int foldcase(int ch, int flags)
 {
@@ -58,10 +59,15 @@ static inline int foldcase(int ch, int flags)
 
 int fnmatch (const char *pattern, const char *string, int flags)
 {
-	const char *stringstart;
-	char c, test;
+	return (fnmatch_from(pattern, string, string, flags));
+}
+
+static int fnmatch_from (const char *pattern, const char *string,
+    const char *stringstart, int flags)
+{
+	int c, test;
 
-	for (stringstart = string;;)
+	for (;;)
 		switch (c = FOLDCASE(*pattern++, flags)) {
 		case EOS:
 			if ((flags & FNM_LEADING_DIR) && *string == '/')
@@ -105,8 +111,8 @@ int fnmatch (const char *pattern, const char *string, int flags)
 
 			/* General case, use recursion. */
 			while ((test = FOLDCASE(*string, flags)) != EOS) {
-				if (!fnmatch(pattern, string,
-					     flags & ~FNM_PERIOD))
+				if (!fnmatch_from(pattern, string,
+					     stringstart, flags))
 					return (0);
 				if (test == '/' && flags & FNM_PATHNAME)
 					break;
@@ -118,6 +124,10 @@ int fnmatch (const char *pattern, const char *string, int flags)
 				return (FNM_NOMATCH);
 			if (*string == '/' && flags & FNM_PATHNAME)
 				return (FNM_NOMATCH);
+			if (*string == '.' && (flags & FNM_PERIOD) &&
+			    (string == stringstart ||
+			    ((flags & FNM_PATHNAME) && *(string - 1) == '/')))
+				return (FNM_NOMATCH);
 			if ((pattern =
 			    rangematch(pattern, FOLDCASE(*string, flags),
 				       flags)) == NULL)
@@ -142,8 +152,9 @@ int fnmatch (const char *pattern, const char *string, int flags)
 
 static const char *rangematch (const char *pattern, int test, int flags)
 {
+	const char *first;
 	int negate, ok;
-	char c, c2;
+	int c, c2;
 
 	/*
 	 * A bracket expression starting with an unquoted circumflex
@@ -155,7 +166,11 @@ static const char *rangematch (const char *pattern, int test, int flags)
 	if ((negate = (*pattern == '!' || *pattern == '^')) != 0)
 		++pattern;
 	
-	for (ok = 0; (c = FOLDCASE(*pattern++, flags)) != ']';) {
+	/* A ']' in the first position is an ordinary member. */
+	first = pattern;
+
+	for (ok = 0; (c = FOLDCASE(*pattern++, flags)) != ']' ||
+	    pattern - 1 == first;) {
 		if (c == '\\' && !(flags & FNM_NOESCAPE))
 			c = FOLDCASE(*pattern++, flags);
 		if (c == EOS)
-- 
2.43.0


From f1842bd691ffa73a606e88c11a9f14e83bb92a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 75/95] fix: timegm replacement restores TZ as it was and
 ignores daylight saving

---
 srcs/missing/timegm.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/srcs/missing/timegm.c b/srcs/missing/timegm.c
index 2a2f59a..6de1108 100644
--- a/srcs/missing/timegm.c
+++ b/srcs/missing/timegm.c
@@ -6,7 +6,8 @@
 #ifndef HAVE_TIMEGM
 
 #include <stdlib.h>
-#include <stdio.h>
+#include <string.h>
+#include <u/missing/setenv.h>
 
 time_t timegm(struct tm *tm)
 {
@@ -14,18 +15,23 @@ time_t timegm(struct tm *tm)
     char *tz;
     
     /* save current timezone and set UTC */
-    tz = getenv("TZ");
-    putenv("TZ=UTC");   /* use Coordinated Universal Time (i.e. zero offset) */
+    if((tz = getenv("TZ")) != NULL && (tz = strdup(tz)) == NULL)
+        return (time_t) -1;
+    setenv("TZ", "UTC", 1); /* use Coordinated Universal Time (i.e. zero offset) */
     tzset();
     
+    tm->tm_isdst = 0;   /* no daylight saving time in UTC */
     ret = mktime(tm);
     if(tz)
     {
-        char buf[256];
-        snprintf(buf, sizeof(buf), "TZ=%s", tz);
-        putenv(buf);
+        setenv("TZ", tz, 1);
+        free(tz);
     } else
+#ifdef OS_WIN
         putenv("TZ=");
+#else
+        unsetenv("TZ");
+#endif
     tzset();
     
     return ret;
-- 
2.43.0


From b59df414fe4e57cedad39e0cc61f383883750015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 76/95] fix: dumping a hash map used its content as a format, a
 missing or null string function and dead strings

---
 srcs/toolbox/hmap.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 065fa2c..41dacb1 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -442,8 +442,6 @@ static int __f_comp (const void *k1, const void *k2)
 /* Default string representation of objects */
 static u_string_t *__f_str (u_hmap_o_t *obj)
 {
-    enum { MAX_OBJ_STR = 256 };
-    char buf[MAX_OBJ_STR];
     u_string_t *s = NULL;
     const char *key, *val;
 
@@ -454,13 +452,13 @@ static u_string_t *__f_str (u_hmap_o_t *obj)
     val = (obj->hmap->opts->val_type == U_HMAP_OPTS_DATATYPE_STRING) ?
         (const char *) obj->val : "";
 
-    dbg_err_if (u_snprintf(buf, MAX_OBJ_STR, "[%s:%s]", key, val));
-    dbg_err_if (u_string_create(buf, strlen(buf)+1, &s));
+    dbg_err_if (u_string_create("", 1, &s));
+    dbg_err_if (u_string_sprintf(s, "[%s:%s]", key, val));
 
     return s;
 
 err:
-    U_FREE(s);
+    U_FREEF(s, u_string_free);
     return NULL;
 }
 
@@ -2008,14 +2006,13 @@ void u_hmap_dbg (u_hmap_t *hmap)
             }
             else
             {
-                st = hmap->opts->f_str(obj);
-                dbg_err_if (u_string_append(s, u_string_c(st),
-                            u_string_len(st)-1));
-                u_string_free(st);
+                dbg_err_if ((st = hmap->opts->f_str(obj)) == NULL);
+                dbg_err_if (u_string_cat(s, u_string_c(st)));
+                u_string_free(st), st = NULL;
             }
         }
-        u_dbg(u_string_c(s));
-        u_string_free(s);
+        u_dbg("%s", u_string_c(s));
+        u_string_free(s), s = NULL;
     }
 
     return;
@@ -2045,14 +2042,21 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
 
     TAILQ_FOREACH(q, &hmap->pcy.queue, next)
     {
-        s2 = hmap->opts->f_str(q->ho);
-        dbg_err_if (u_string_cat(s, u_string_c(s2)));
+        if (hmap->opts->f_str == NULL)
+        {
+            dbg_err_if (u_string_cat(s, "[]"));
+        }
+        else
+        {
+            dbg_err_if ((s2 = hmap->opts->f_str(q->ho)) == NULL);
+            dbg_err_if (u_string_cat(s, u_string_c(s2)));
+            u_string_free(s2), s2 = NULL;
+        }
         if (hmap->opts->policy == U_HMAP_PCY_LFU)  /* print count */
             dbg_err_if (u_string_aprintf(s, "-%d", *((int *)q->data)));
-        u_string_free(s2);
     }
 
-    u_dbg(u_string_c(s));
+    u_dbg("%s", u_string_c(s));
     u_string_free(s);
 
     return;
-- 
2.43.0


From 226566a48dc8b92ef3eb04ea062ef45d8b034ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 77/95] fix: u_sleep returned at once for more than INT_MAX
 seconds

---
 srcs/toolbox/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index eec9ecb..517fda3 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -693,7 +693,7 @@ int u_sleep(unsigned int secs)
 #ifdef OS_WIN
     Sleep(secs * 1000);
 #else
-    int sleep_for, c;
+    unsigned int sleep_for, c;
 
     for (sleep_for = secs; sleep_for > 0; sleep_for = c)
     {
-- 
2.43.0


From 9106f5f005229b553a341bc5b2f64f2e4777d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:22 +0000
Subject: [PATCH 78/95] fix: sandboxed test cases repeated what the program had
 not flushed yet

---
 srcs/toolbox/test.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index e607e2d..1e3ca4c 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1595,6 +1595,9 @@ static int u_test_case_exec (u_test_case_t *tc)
     }
 
 #ifdef U_TEST_SANDBOX_ENABLED
+    /* Don't let the test case flush a copy of what is still buffered here. */
+    (void) fflush(NULL);
+
     switch (pid = fork())
     {
         case -1:
-- 
2.43.0


From 037ab6c1ebebc4dcc06f46092af0a044bb8978cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 79/95] fix: a copied hmap kept counting, and its discard
 policy kept recording, entries that had moved

---
 srcs/toolbox/hmap.c | 58 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 41dacb1..0220dd3 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -120,6 +120,8 @@ typedef struct u_hmap_e_s u_hmap_e_t;
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o);
 static size_t __hash (u_hmap_t *hmap, const void *key);
 static void __linear_unlink (u_hmap_t *hmap, u_hmap_o_t *obj);
+static int __move (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner);
+static void __relink (u_hmap_t *hmap, u_hmap_o_t *obj);
 
 static int __opts_check (u_hmap_opts_t *opts);
 static int __pcy_setup (u_hmap_t *hmap);
@@ -1561,9 +1563,17 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
  * \retval  U_HMAP_ERR_FAIL     on failure
  */
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
+{
+    return __move(to, from, to);
+}
+
+/* Move all objects to another hmap, where they will belong to 'owner' */
+static int __move (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner)
 {
     u_hmap_o_t *obj;
+    u_hmap_q_t *q;
     size_t i;
+    int rc;
 
     dbg_err_if (to == NULL);
     dbg_err_if (from == NULL);
@@ -1572,8 +1582,36 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
     {
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
-            LIST_REMOVE(obj, next);
-            dbg_err_if (u_hmap_put(to, obj, NULL));
+            if (from->opts->type == U_HMAP_TYPE_LINEAR)
+                __linear_unlink(from, obj);
+            else
+                LIST_REMOVE(obj, next);
+
+            /* the discard policy of 'from' doesn't apply any more */
+            q = obj->pqe;
+            obj->pqe = NULL;
+            obj->hmap = owner;
+
+            rc = u_hmap_put(to, obj, NULL);
+
+            /* if the key exists 'obj' has been freed by 'to', if it owns it */
+            if (rc && !(rc == U_HMAP_ERR_EXISTS &&
+                        (to->opts->options & U_HMAP_OPTS_OWNSDATA)))
+            {
+                obj->pqe = q;
+                obj->hmap = from;
+                __relink(from, obj);
+                goto err;
+            }
+
+            if (q)
+            {
+                TAILQ_REMOVE(&from->pcy.queue, q, next);
+                __q_o_free(q);
+            }
+            from->sz--;
+
+            dbg_err_if (rc);
         }
     }
 
@@ -1703,6 +1741,20 @@ static void __linear_unlink (u_hmap_t *hmap, u_hmap_o_t *obj)
     return;
 }
 
+/* Put an object that was the first of its slot (or cluster) back */
+static void __relink (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    size_t i = __hash(hmap, obj->key);
+
+    if (hmap->opts->type == U_HMAP_TYPE_LINEAR)
+        while (!LIST_EMPTY(&hmap->hmap[i]))
+            i = (i + 1) % hmap->size;
+
+    LIST_INSERT_HEAD(&hmap->hmap[i], obj, next);
+
+    return;
+}
+
 /* pop the front of an object queue */
 static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
 {
@@ -2195,7 +2247,7 @@ static int __resize(u_hmap_t *hmap)
     hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
 
     /* copy old elements to new map policy */
-    dbg_err_if (u_hmap_copy(newmap, hmap));
+    dbg_err_if (__move(newmap, hmap, hmap));
 
     /* free old allocated objects */
     u_hmap_opts_free(hmap->opts);
-- 
2.43.0


From 0ee87c6cad9927253a4df57632b1e57aaf0a78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 80/95] fix: test reports show durations right in every time
 zone

Elapsed and CPU times are spans, not points in time: breaking them down as
local time added the minutes of the zone's offset (30:00 in UTC+5:30).
---
 srcs/toolbox/test.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 1e3ca4c..a0c3458 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -2062,7 +2062,7 @@ static int __timeval_fmt (struct timeval *tv, char t[80])
 
     secs = tv->tv_sec;
 
-    dbg_if (strftime(_tv, sizeof _tv, "%M:%S", localtime(&secs)) == 0);
+    dbg_if (strftime(_tv, sizeof _tv, "%M:%S", gmtime(&secs)) == 0);
     dbg_if (u_snprintf(t, 80, "%s.%06.6d", _tv, tv->tv_usec));
 
     return 0;
@@ -2091,7 +2091,7 @@ static int u_test_obj_ts_fmt (u_test_obj_t *to, char b[80], char e[80],
     }
 
     if (d)
-        dbg_if (strftime(d, 80, "%M:%S", localtime(&elapsed)) == 0);
+        dbg_if (strftime(d, 80, "%M:%S", gmtime(&elapsed)) == 0);
 
     return 0;
 }
-- 
2.43.0


From 41a768a7fda4d469c275ad4f735e8b6569242da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 81/95] fix: a test report on standard output does not close
 it, and a failed one is closed

---
 srcs/toolbox/test.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index a0c3458..38ba332 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1623,7 +1623,7 @@ static int u_test_case_exec (u_test_case_t *tc)
 
 static int u_test_reporter (u_test_t *t)
 {
-    FILE *fp;
+    FILE *fp = NULL;
     u_test_obj_t *tso, *tco;
     u_test_suite_t *ts;
 
@@ -1653,10 +1653,16 @@ static int u_test_reporter (u_test_t *t)
 
     dbg_err_if (t->reporters.t_cb(fp, t, U_TEST_REP_TAIL));
 
-    (void) fclose(fp);
+    /* The standard output belongs to the caller. */
+    if (fp != stdout)
+        (void) fclose(fp);
+    else
+        (void) fflush(fp);
 
     return 0;
 err:
+    if (fp && fp != stdout)
+        (void) fclose(fp);
     return ~0;
 }
 
-- 
2.43.0


From 9a2c3c74fb9aff7e533c588bedfb9b094ad1749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 82/95] fix: u_hmap_opts_new must not write through a null
 pointer when it refuses

---
 srcs/toolbox/hmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 0220dd3..9f5b535 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1136,7 +1136,7 @@ int u_hmap_opts_new (u_hmap_opts_t **opts)
 {
     u_hmap_opts_t *o;
 
-    dbg_err_if (opts == NULL);
+    dbg_return_if (opts == NULL, U_HMAP_ERR_FAIL);
 
     dbg_err_sif ((o = (u_hmap_opts_t *) u_zalloc(sizeof(u_hmap_opts_t)))
             == NULL);
-- 
2.43.0


From fd1a848acd93eafff8abf2f3aa6299bd1e85a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:52 +0000
Subject: [PATCH 83/95] fix: u_rb_create must refuse a null result pointer with
 mmap buffers too

---
 srcs/toolbox/rb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 8bf7f3e..7213d5e 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -543,6 +543,8 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
     u_rb_t *rb = NULL;
     char path[] = "/tmp/rb-XXXXXX";
 
+    dbg_return_if (prb == NULL, -1);
+
     dbg_err_sif ((rb = u_zalloc(sizeof(u_rb_t))) == NULL);
     dbg_err_sif ((fd = mkstemp(path)) == -1);
     dbg_err_sif (u_remove(path));
-- 
2.43.0


From 2452da7e60e6270a59227eb038e33dc3dcf5fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:52 +0000
Subject: [PATCH 84/95] fix: u_atoi must refuse a null result pointer like its
 siblings

---
 srcs/toolbox/misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 517fda3..0ff1088 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -770,6 +770,8 @@ int u_atoi (const char *nptr, int *pi)
 {
     long int tmp;
 
+    dbg_return_if (pi == NULL, ~0);
+
     dbg_err_if (u_atol(nptr, &tmp));
 
     /* check overflows/underflows when int bits are less than long bits */
-- 
2.43.0


From cf0f047a06f6d6c907f5805d39450ab9c8fe3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:21 +0000
Subject: [PATCH 85/95] fix: u_json_set_key must keep the current key when the
 new one does not fit

---
 srcs/toolbox/json.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 133c9ee..91f24bb 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -458,7 +458,12 @@ int u_json_set_key (u_json_t *jo, const char *key)
     dbg_return_if (jo == NULL, ~0);
     dbg_return_ifm (jo->map, ~0, "Cannot set key of a cached object");
 
-    dbg_return_if (u_strlcpy(jo->key, key ? key : "", sizeof jo->key), ~0);
+    if (key == NULL)
+        key = "";
+
+    /* Don't touch the current key if the new one doesn't fit. */
+    dbg_return_if (strlen(key) >= sizeof jo->key, ~0);
+    dbg_return_if (u_strlcpy(jo->key, key, sizeof jo->key), ~0);
 
     return 0;
 }
-- 
2.43.0


From 9740f83258d0dfa39cd7af791f3c5b3b97973a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:21 +0000
Subject: [PATCH 86/95] fix: u_test_set_outfn must keep the current name when
 the new one does not fit

---
 srcs/toolbox/test.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 38ba332..233fad5 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -665,6 +665,8 @@ int u_test_set_outfn (u_test_t *t, const char *outfn)
     dbg_return_if (t == NULL, ~0);
     dbg_return_if (outfn == NULL, ~0);
 
+    /* Don't touch the current name if the new one doesn't fit. */
+    dbg_return_if (strlen(outfn) >= sizeof t->outfn, ~0);
     dbg_return_if (u_strlcpy(t->outfn, outfn, sizeof t->outfn), ~0);
 
     return 0;
-- 
2.43.0


From 3654e2fb9bb3dfc6d745271bb8bf5b06cf8fadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:09 +0000
Subject: [PATCH 87/95] fix: u_json_cache_get must not look up a truncated name

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 91f24bb..66f2e92 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -781,7 +781,7 @@ u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
 
     /* If 'name' is relative, we need to prefix it with the parent name 
      * space. */
-    dbg_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name));
+    dbg_return_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name), NULL);
 
     return (u_json_t *) u_hmap_easy_get(jo->map, fqn);
 }
-- 
2.43.0


From 0514df967501dca11d90c73ba4f255187de44b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:09 +0000
Subject: [PATCH 88/95] fix: u_json_add must refuse an indexed object, its
 index would be lost

---
 srcs/toolbox/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 66f2e92..d6561d2 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -499,6 +499,7 @@ int u_json_add (u_json_t *head, u_json_t *jo)
     dbg_return_if (!U_JSON_OBJ_IS_CONTAINER(head), ~0);
     dbg_return_ifm (head->map, ~0, "Cannot add new child to a cached object");
     dbg_return_if (jo == NULL, ~0);
+    dbg_return_ifm (jo->map, ~0, "Cannot add a cached object");
 
 #ifdef U_JSON_OBJ_DEBUG
     u_con("chld (%p): %s {%s} added at depth %u", 
-- 
2.43.0


From 1ac4c624b5f782aeae15eacc6265337a12c118ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:14 +0000
Subject: [PATCH 89/95] fix: u_json_array_get_nth returned another array's
 element when names are ambiguous

---
 srcs/toolbox/json.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index d6561d2..77fa67b 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -857,7 +857,11 @@ u_json_t *u_json_array_get_nth (u_json_t *jo, unsigned int n)
     {
         char elem_fqn[U_JSON_FQN_SZ] = { '\0' };
         dbg_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n));
-        return u_json_cache_get(jo, elem_fqn);
+        elem = u_json_cache_get(jo, elem_fqn);
+
+        /* The name may belong to another node (e.g. duplicate keys). */
+        if (elem && elem->parent == jo)
+            return elem;
     }
     
     /* Too bad if we don't have cache in place: we have to go through the 
-- 
2.43.0


From b868ff57ff197668c973743ef99ae6dd485ea1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:14 +0000
Subject: [PATCH 90/95] fix: a test run whose report could not be written ended
 in success

---
 srcs/toolbox/test.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 233fad5..8d402ce 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1655,11 +1655,12 @@ static int u_test_reporter (u_test_t *t)
 
     dbg_err_if (t->reporters.t_cb(fp, t, U_TEST_REP_TAIL));
 
+    /* A report that could not be (completely) written is not a report. */
+    dbg_err_if (fflush(fp) == EOF || ferror(fp));
+
     /* The standard output belongs to the caller. */
     if (fp != stdout)
         (void) fclose(fp);
-    else
-        (void) fflush(fp);
 
     return 0;
 err:
-- 
2.43.0


From 2735b96127ad05479d13d9c9bb703737e96d0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:14 +0000
Subject: [PATCH 91/95] fix: the test runner truncated an overlong report file
 name

---
 srcs/toolbox/test.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 8d402ce..b54b96d 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1907,7 +1907,8 @@ static int u_test_getopt (int ac, char *av[], u_test_t *t)
         switch (c)
         {
             case 'o':   /* Report file. */
-                (void) u_strlcpy(t->outfn, optarg, sizeof t->outfn);
+                if (u_test_set_outfn(t, optarg))
+                    u_test_usage(av[0], "bad report file");
                 break;
             case 'f':   /* Report format. */
                 if (u_test_set_outfmt(t, optarg))
-- 
2.43.0


From 64c0fe930959970db37ce5b45f1a777a804303ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:57 +0000
Subject: [PATCH 92/95] fix: stepping a JSON iterator back from a node without
 a container crashed

---
 srcs/toolbox/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 77fa67b..b2fa3fb 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1156,8 +1156,9 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
 
     dbg_return_if (it == NULL, NULL);
 
+    /* A node that is in no container has no siblings to step back to. */
     if ((jo = it->cur) != NULL)
-        it->cur = TAILQ_PREV(jo, u_json_chld_s, siblings);
+        it->cur = jo->parent ? TAILQ_PREV(jo, u_json_chld_s, siblings) : NULL;
 
     return jo;
 }
-- 
2.43.0


From 53e8483971e2019ba0d21b089fe8668bda75b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:59 +0000
Subject: [PATCH 93/95] fix: the test report dropped the hours of elapsed and
 CPU times

---
 srcs/toolbox/test.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index b54b96d..c0889b7 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -2064,16 +2064,16 @@ static int u_test_case_rusage_fmt (u_test_case_t *tc, char uti[80],
 
 static int __timeval_fmt (struct timeval *tv, char t[80])
 {
-    char _tv[80];
-    time_t secs;
+    long secs;
 
     dbg_return_if (t == NULL, ~0);
     dbg_return_if (tv == NULL, ~0);
 
-    secs = tv->tv_sec;
+    secs = (long) tv->tv_sec;
 
-    dbg_if (strftime(_tv, sizeof _tv, "%M:%S", gmtime(&secs)) == 0);
-    dbg_if (u_snprintf(t, 80, "%s.%06.6d", _tv, tv->tv_usec));
+    /* Minutes go on beyond the hour. */
+    dbg_if (u_snprintf(t, 80, "%02ld:%02ld.%06ld", secs / 60, secs % 60, 
+                (long) tv->tv_usec));
 
     return 0;
 }
@@ -2082,11 +2082,11 @@ static int __timeval_fmt (struct timeval *tv, char t[80])
 static int u_test_obj_ts_fmt (u_test_obj_t *to, char b[80], char e[80], 
         char d[80])
 {
-    time_t elapsed;
+    long elapsed;
    
     dbg_return_if (to == NULL, ~0);
 
-    elapsed = to->stop - to->start;
+    elapsed = (long) (to->stop - to->start);
 
     if (b)
     {
@@ -2101,7 +2101,7 @@ static int u_test_obj_ts_fmt (u_test_obj_t *to, char b[80], char e[80],
     }
 
     if (d)
-        dbg_if (strftime(d, 80, "%M:%S", gmtime(&elapsed)) == 0);
+        dbg_if (u_snprintf(d, 80, "%02ld:%02ld", elapsed / 60, elapsed % 60));
 
     return 0;
 }
-- 
2.43.0


From 490393449f9f24165d39edb3acd1f2df050ba201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:33 +0000
Subject: [PATCH 94/95] fix: reserving the largest size wrapped around and
 wrote out of bounds

---
 srcs/toolbox/buf.c | 2 ++
 srcs/toolbox/str.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index f511687..5dd1a8f 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -45,6 +45,8 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
     dbg_err_if (ubuf == NULL);
 
     nop_return_if (size <= ubuf->size, 0);  /* nothing to do */
+
+    dbg_err_if (size + 1 == 0); /* no room for the terminating '\0' */
    
     /* size plus 1 char to store a '\0' */
     dbg_err_sif ((nbuf = u_realloc(ubuf->data, size + 1)) == NULL);
diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index ccd8541..bb60c74 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -322,6 +322,8 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     dbg_return_if (s == NULL, ~0);
     nop_return_if (size <= s->data_sz, 0);
+
+    dbg_err_if (size + 1 == 0); /* no room for the terminating '\0' */
    
     /* realloc requested size plus 1 char to store the terminating '\0' */
     nbuf = u_realloc(((s->data == null) ? NULL : s->data), size + 1);
-- 
2.43.0


From 712b7e8d08c51ee3c360a75cdba65980f8797b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:17 +0000
Subject: [PATCH 95/95] fix: the timing macros did not compile in debug builds

---
 include/toolbox/carpal.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index 004f171..099a5d4 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -600,11 +600,11 @@ extern "C" {
     #define TIMER_STEP                                                      \
         do {                                                                \
         _t_now = time(0);                                                   \
-        dbg("  step %u: %u s (delta: %u s)",                                \
-            _t_step++, _t_now - _t_beg, _t_now - _t_prev);                  \
+        u_dbg("  step %d: %ld s (delta: %ld s)", _t_step++,                 \
+            (long) (_t_now - _t_beg), (long) (_t_now - _t_prev));           \
             _t_prev = _t_now;                                               \
        } while(0)
-    #define TIMER_OFF  dbg("elapsed: %u s", (time(0) - _t_beg))
+    #define TIMER_OFF  u_dbg("elapsed: %ld s", (long) (time(0) - _t_beg))
 #else /* disable debugging */
     #include <ctype.h>
     /* this will be used just to avoid empty-if (and similar) warnings */
-- 
2.43.0

