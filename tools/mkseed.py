#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'old' 'new' 'needs' 'breaks' [FILE old new ...] < demo.cc : creates seeded/ID from a textual edit of /repo."""
import sys, os, subprocess, json, shutil
a = sys.argv[1:]
i, prop, f, old, new, needs, br = a[:7]; rest = a[7:]
edits = [(f, old, new)] + [tuple(rest[k:k + 3]) for k in range(0, len(rest), 3)]
for f, old, new in edits:
    p = '/repo/' + f; s = open(p).read()
    if s.count(old) != 1: sys.exit('%d matches in %s for %r' % (s.count(old), f, old))
    open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open(d + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
t = sys.stdin.read()
if t.strip(): open(d + '/demo.cc', 'w').write(t)
