#!/usr/bin/env python3
"""Plant one bug and confirm it: seed.py BATCH.py [ID...].  BATCH.py defines SEEDS = {id: dict(prop, edits=[(file, old, new)], demo=C source, needs, breaks)}.
Writes /verif/seeded/<id>/ when the change builds, passes the stable tests, and its demonstration tells it from the unchanged tree; then runs the property's quick check against it."""
import sys, os, subprocess, json, runpy
R = '/repo'
DEMO_SH = '''#!/bin/sh
# exit 0 when the property holds for the library built in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
gcc -w -g -D_GNU_SOURCE -DHAVE_CONF_H -I"$R/include" -I"$R/_build/include" -o "$T/demo" "$D/demo.c" "$R/_build/srcs/libu.a" -lm -lpthread%s || exit 99
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def demo(d): return sh('sh %s/demo.sh' % d, cwd=R)
g = runpy.run_path(sys.argv[1]); ids = sys.argv[2:] or list(g['SEEDS'])
assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
for i in ids:
    s = g['SEEDS'][i]; d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    open(d + '/demo.c', 'w').write('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <errno.h>\n#include <unistd.h>\n#include <u/libu.h>\nint facility = LOG_LOCAL0;\n#define REQ(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)\nstatic int quiet_hook (void *a, int l, const char *s) { return 0; }\n#define QUIET u_log_set_hook(quiet_hook, 0, 0, 0)\n' + s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO_SH % s.get('ld', ''))
    for f, old, new in s['edits']:
        t = open(R + '/' + f).read(); n = t.count(old)
        if n != 1: print(i, 'BAD EDIT: %d matches of %r' % (n, old[:80])); clean(); break
        open(R + '/' + f, 'w').write(t.replace(old, new))
    else:
        diff = sh('git -C /repo diff').stdout; clean()
        open(d + '/patch.diff', 'w').write(diff)
        # only lines of the original repository may go
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh'); a = demo(d)
        if b.returncode or a.returncode: print(i, 'DEMO FAILS ON THE CLEAN TREE', a.returncode, a.stdout[-600:]); continue
        assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
        try:
            t = sh('bash /opt/vp/test.sh /tmp/seed.json | tail -1'); p = demo(d)
            ok = '46 passed, 0 failed' in t.stdout and p.returncode not in (0, 99)
            print(i, 'tests:', t.stdout.strip()[-60:], '| demo:', p.returncode, p.stdout.strip()[-160:], '' if ok else '*** NOT A VALID SEED')
            if ok:
                for q in [s['prop']] + s.get('also', []):
                    c = sh('python3 run.py %s quick' % q, cwd='/verif'); print('   ', q, 'CAUGHT' if 'VIOLATION' in c.stdout else 'MISSED', c.stdout.strip()[:260].replace('\n', ' | '))
        finally: clean()
clean(); sh('bash /opt/vp/build.sh')
