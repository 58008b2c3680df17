"""Mechanical extraction: every translation unit of /repo (tests and generators excluded) is compiled by clang to LLVM IR
on each run, with the flags of the real build plus -fno-exceptions, and linked into one module."""
import os, subprocess, sys, glob, tempfile, shutil, concurrent.futures as cf, re
from . import ir
REPO = '/repo'
CLANG = 'clang++'
FLAGS = ['-std=c++17', '-O0', '-gline-tables-only', '-fno-exceptions', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-I' + REPO, '-w']
LINK = '/usr/lib/llvm-18/bin/llvm-link'

class ExtractError(Exception): pass

def sources():
    out = []
    for d, _, fs in os.walk(REPO + '/DPPIR'):
        for f in sorted(fs):
            if f.endswith('.cc') and not f.endswith('_test.cc'): out.append(os.path.join(d, f))
    return sorted(out)

DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'drivers')
def extract(only=None, drivers=()):
    """drivers: specification clients in /verif/specs/drivers, compiled against /repo's headers and linked in"""
    tmp = tempfile.mkdtemp(prefix='verif_ir_')
    try:
        srcs = [s for s in sources() if os.path.basename(s) not in ('main.cc', 'gen_config.cc')]
        srcs += [os.path.join(DRV, d) for d in drivers]
        if only: srcs = [s for s in srcs if any(('/' + o) in s for o in only)]
        def comp(s):
            o = os.path.join(tmp, re.sub(r'\W', '_', s) + '.ll')
            p = subprocess.run([CLANG] + FLAGS + (['-fno-access-control'] if s.startswith(DRV) else []) + [s, '-o', o], capture_output=True, text=True, timeout=300)
            return s, o, p.returncode, p.stderr
        with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, srcs))
        good = [r for r in res if r[2] == 0]; bad = [r for r in res if r[2] != 0]
        if not good: raise ExtractError('no translation unit compiles: ' + (bad[0][3][:500] if bad else 'no sources'))
        allf = os.path.join(tmp, 'all.ll')
        p = subprocess.run([LINK, '-S'] + [r[1] for r in good] + ['-o', allf], capture_output=True, text=True, timeout=300)
        if p.returncode != 0: raise ExtractError('llvm-link: ' + p.stderr[:500])
        m = ir.Module(open(allf).read())
        m.failed_tus = [(r[0], r[3][:400]) for r in bad]
        m.tus = [r[0] for r in good]
        m.cxx_types = {}
        for r in good:
            tys = {}
            for line in open(r[1]):
                mm = re.match(r'%("?)([^"]*?)\1 = type (.*)$', line)
                if mm:
                    rest = mm.group(3).strip()
                    if rest != 'opaque':
                        try: tys[mm.group(2)] = ir.parse_type(ir.TS(ir.tokenize(rest)))
                        except Exception: pass
                elif line.startswith('define'): break
            def close(t, d=0):
                if t[0] == 'named': return close(tys[t[1].lstrip('%').strip('"')], d + 1)
                if t[0] == 'struct': return (t[0], t[1], tuple(close(x, d + 1) for x in t[2])) + tuple(t[3:])
                if t[0] == 'arr': return (t[0], t[1], close(t[2], d + 1)) + tuple(t[3:])
                return t
            for n, t in tys.items():
                k = re.sub(r'^(struct|class|union)\.', '', n)
                if re.search(r'\.\d+$', k): continue
                if k in m.cxx_types: continue
                try: m.cxx_types[k] = close(t)
                except (KeyError, RecursionError): pass
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
