#!/usr/bin/env python3-vt
"""build and run one native harness: tools/nat.py c06.cc [seconds] [seed]"""
import sys, tempfile, shutil, os
sys.path.insert(0, '/verif')
import check
t = tempfile.mkdtemp(prefix='verif_nat_')
try:
    exe, err = check.native_build(t, sys.argv[1])
    if not exe: print(err); sys.exit(2)
    r = check.native_run(exe, int(sys.argv[3]) if len(sys.argv) > 3 else 1, float(sys.argv[2]) if len(sys.argv) > 2 else 5, t)
    print('rc', r['rc'], 'fail', r['fail'], 'ev', r['ev'], 'dn', r['dn']); print('\n'.join(map(str, r['samples'][:3]))); print(r['out'][-800:] if r['rc'] else ''); print(r['err'][-2500:] if r['rc'] else '')
finally: shutil.rmtree(t, ignore_errors=True)
