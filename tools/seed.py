#!/usr/bin/env python3
"""seed.py ID PROP PKG DIFF TESTFILE [extra test files...] -- needs / what_it_breaks read from stdin, separated by a line '--'.
Assembles /verif/seeded/ID."""
import json, os, shutil, sys
ID, prop, pkg, diff, *tests = sys.argv[1:]
needs, what = [x.strip() for x in sys.stdin.read().split('\n--\n')]
d = f'/verif/seeded/{ID}'
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
shutil.copy(diff, d + '/patch.diff')
for t in tests:
    shutil.copy(t, d + '/' + os.path.basename(t))
s = open('/verif/tools/demo.tmpl').read().replace('PKG', pkg)
open(d + '/demo.sh', 'w').write(s); os.chmod(d + '/demo.sh', 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + '/meta.json', 'w'), indent=1)
