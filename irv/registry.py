"""Properties, their specifications, replay harnesses and lemmas."""
import os, subprocess, hashlib, time, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ['clang 18 (C++ to LLVM IR) agrees with g++ on the semantics of the code', 'the IR verifier in /verif/irv', 'z3 4.x/cvc5 1.1.2',
           'contracts of the C++ standard library, libc and libsodium functions listed under library_contracts_assumed']
ASSUME = ['memory allocation succeeds', 'distinct parameters and heap blocks do not alias unless the task says so', 'exceptions end the process (none is caught in the code)']
PROPS = {
 'C01': dict(spec='c01:c01', harness='c01.cc', lemmas=['prime_gcd', 'mul_inverse']),
 'C02': dict(spec='c01:c02', harness='c02.cc'),
 'C03': dict(spec='c03:c03', harness='c03.cc', lemmas=['xor_any_order']),
 'C04': dict(spec='c04:c04', harness='c04.cc'),
 'C05': dict(spec='c05:c05', harness='c05.cc', lemmas=['inj_surj']),
 'C07': dict(spec='c07:c07', harness='c07.cc'),
 'C08': dict(spec='c07:c08', harness='c08.cc'),
 'C11': dict(spec='c11:c11', harness='c11.cc'),
 'C12': dict(spec='c11:c12', harness='c12.cc'),
 'C13': dict(spec='c13:c13', harness='c13.cc'),
 'C14': dict(spec='c14:c14', harness='c14.cc'),
 'C15': dict(spec='c15:c15', harness='c15.cc'),
 'C20': dict(spec='c20:c20', harness='c20.cc'),
 'C06': dict(spec='c06:c06', harness='c06.cc', lemmas=['inj_surj', 'count_step', 'count_le', 'count_mono', 'count_window', 'count_after', 'count_strict', 'count_nth', 'count_sources', 'count_perm', 'slices_sum', 'owner_count']),
 'C09': dict(spec=None, level='exploration', harness='c09.cc'),
 'C10': dict(spec=None, level='exploration', harness='c10.cc'),
 'C16': dict(spec='proto:c16', harness='c16.cc'),
 'C17': dict(spec='proto:c17', harness='c17.cc'),
 'C18': dict(spec='c18:c18', harness='c18.cc', lemmas=['retrieval']),
 'C19': dict(spec='c18:c19', harness='c19.cc'),
 'C22': dict(spec=None, level='exploration', harness='c22.cc'),
 'C23': dict(spec=None, level='exploration', harness='c23.cc'),
 'C21': dict(spec='c21:c21', harness='c21.cc'),
}
def check_lemmas(names, tier):
    if not names: return []
    t = time.time()
    res = []
    for f in sorted(os.listdir(os.path.join(HERE, 'lemmas'))):
        if not f.endswith('.lean'): continue
        p = os.path.join(HERE, 'lemmas', f); txt = open(p).read()
        mine = [n for n in names if re.search(r'theorem %s\b' % n, txt)]
        if not mine: continue
        t = time.time()
        try:
            r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=400)
            ok = r.returncode == 0 and 'sorry' not in r.stdout and 'error' not in r.stdout; out = (r.stdout + r.stderr)[:300]
        except Exception as e: ok = False; out = str(e)[:200]
        res += [dict(name=n, ok=bool(ok), checker='lean', seconds=round(time.time() - t, 1), out='' if ok else out) for n in mine]
    res += [dict(name=n, ok=False, checker='lean', out='no such theorem') for n in names if n not in [x['name'] for x in res]]
    return res
NA = {}
