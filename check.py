#!/opt/veriftools/pyvenv/bin/python
"""Decides one property: python3-vt check.py <ID>.  See DESIGN.md."""
import os, sys, time, json, subprocess, pickle, tempfile, shutil, re, importlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from irv import build, task, core, registry

def native_build(tmp, harness):
    """objects of every repo source + the harness, with sanitizers"""
    cc = ['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all', '-fno-access-control', '-w', '-I/repo', '-I' + HERE + '/replay']
    head = open(os.path.join(HERE, 'replay', harness)).read(2000)
    m = re.search(r'^// CFLAGS: (.*)$', head, re.M); cc += m.group(1).split() if m else []
    m = re.search(r'^// LINK: (.*)$', head, re.M); ld = m.group(1).split() if m else []
    srcs = [s for s in build.sources() if os.path.basename(s) not in ('main.cc', 'gen_config.cc')]
    jobs = [(os.path.join(HERE, 'replay', harness), os.path.join(tmp, 'harness.o'))] + [(s, os.path.join(tmp, 'o%d.o' % i)) for i, s in enumerate(srcs)]
    def c(j):
        p = subprocess.run(cc + ['-c', j[0], '-o', j[1]], capture_output=True, text=True, timeout=400); return j, p.returncode, p.stderr
    with cf.ThreadPoolExecutor(6) as e: res = list(e.map(c, jobs))
    bad = [r for r in res if r[1] != 0]
    if bad: return None, '\n'.join('%s: %s' % (r[0][0], r[2][:600]) for r in bad)
    exe = os.path.join(tmp, 'harness')
    p = subprocess.run(cc + [j[1] for j in jobs] + ld + ['-lsodium', '-lpthread', '-o', exe], capture_output=True, text=True, timeout=400)
    if p.returncode != 0: return None, p.stderr[:1500]
    return exe, None

def native_run(exe, seed, secs, cwd):
    try:
        p = subprocess.run([exe, str(seed), str(secs)], capture_output=True, text=True, errors='replace', timeout=secs * 3 + 150, cwd=cwd)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), ''
    r = dict(rc=rc, seed=seed, out=out[-6000:], err=err[-3000:], fail=None, ev=0, dn=0, samples=[])
    m = re.search(r'^FAIL (.*)$', out, re.M)
    if m:
        c = re.search(r'^CASE (.*)$', out, re.M)
        r['fail'] = m.group(1) + ' | case: ' + (c.group(1) if c else '?')
    elif rc not in (0, 'timeout'): r['fail'] = 'harness ended with status %s: %s' % (rc, (err or out)[-300:])
    m = re.search(r'STATS evaluations=(\d+) distinct_nontrivial=(\d+)', out)
    if m: r['ev'], r['dn'] = int(m.group(1)), int(m.group(2))
    r['samples'] = re.findall(r'^SAMPLE (.*)$', out, re.M)
    return r

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d['property'] == pid and d['status'] == 'known': out.append(d)
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = registry.PROPS[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try: code = run(pid, reg, tier, seed, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(code)

def run(pid, reg, tier, seed, tmp, t0):
    def bg(fn):
        """runs fn in a child process; returns a function that waits for its result"""
        out = os.path.join(tmp, 'bg_%s.pkl' % fn.__name__)
        pid = os.fork()
        if pid == 0:
            try:
                r = fn()
                with open(out + '.t', 'wb') as f: pickle.dump(r, f)
                os.rename(out + '.t', out)
            except BaseException as e: pass
            finally: os._exit(0)
        def wait():
            os.waitpid(pid, 0)
            try:
                with open(out, 'rb') as f: return pickle.load(f)
            except Exception as e: return None
        return wait
    def native():
        nat = {}
        try:
            exe, err = native_build(tmp, reg['harness'])
            nat['exe'] = exe; nat['err'] = err
            if exe: nat['first'] = native_run(exe, seed, reg.get('secs', 8) if tier == 'quick' else 120, tmp)
        except Exception as e: nat['exe'] = nat.get('exe'); nat['err'] = 'native harness: %r' % e
        return nat
    def lemmas(): return registry.check_lemmas(reg.get('lemmas', ()), tier)
    wn = bg(native); wl = bg(lemmas)
    # ---- proof
    notes = []; ctx = None; drv = None
    try:
        if not reg.get('spec'): raise build.ExtractError('no contract covers this property yet')
        m, fn = reg['spec'].split(':')
        sm = importlib.import_module('specs.' + m)
        mod = build.extract(drivers=getattr(sm, 'DRIVERS', {}).get(fn, ()))
        for s, e in mod.failed_tus: notes.append('not extracted: %s: %s' % (s, e))
        ctx = task.Ctx(mod, tier, t0 + (480 if tier == 'quick' else 3600))
        if tier == 'thorough': ctx.scale = 4
        getattr(sm, fn)(ctx)
        ctx.join()
    except build.ExtractError as e: notes.append('extraction failed: %s' % e)
    except Exception as e:
        import traceback
        notes.append('proof driver: %s: %s' % (type(e).__name__, e)); drv = traceback.format_exc()
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    tproof = time.time() - t0
    nat = wn() or dict(exe=None, err='the native harness process failed')
    lres = wl()
    if lres is None: lres = [dict(name=n, ok=False, checker='lean', out='no result') for n in reg.get('lemmas', ())]
    results = ctx.results if ctx else []
    obls = [o for r in results for o in r.obls]
    failed = [o for o in obls if o['status'] != 'valid']
    undecided = [r for r in results if r.status != 'ok']
    minobl = reg.get('min_obligations', 1)
    if ctx and not results: notes.append('no task ran')
    for l in lres:
        if not l['ok']: notes.append('lemma not checked: %s' % l)
    # a failed obligation inside a task that hit an unsupported construct is still a failed obligation only if refuted on a path before it
    hard = []
    for r in results:
        for o in r.obls:
            if o['status'] != 'valid': hard.append(o)
    first = nat.get('first')
    fail = first['fail'] if first else None
    extra = None
    ev = first['ev'] if first else 0; dn = first['dn'] if first else 0
    bounded = bool(undecided) or not results
    search = []
    if fail is None and (hard or bounded) and nat.get('exe'):
        # search for a failing input with the real code
        secs = reg.get('search_secs', 60) if tier == 'quick' else 300
        with cf.ThreadPoolExecutor(8) as e:
            search = list(e.map(lambda i: native_run(nat['exe'], seed * 1000 + 11 + i, secs, tmp), range(7)))
        for r in search:
            ev += r['ev']; dn += r['dn']
            if r['fail'] and fail is None: fail = r['fail']; first = r
    kf = known_findings(pid)
    violation = None
    if fail is not None: violation = 'input'
    elif hard: violation = 'obligation'
    rp = os.path.join(HERE, 'evidence', pid + '.replay.txt')
    if violation:
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            if fail is not None:
                f.write('failing input on the real code: %s\nreplay: build %s against /repo (see check.py native_build) and run it with arguments: %s %s\n--- harness output\n%s\n%s\n' % (fail, reg['harness'], first['seed'], reg.get('secs', 8), first['out'], first['err']))
            f.write('--- failed obligations: %d\n' % len(hard))
            for o in hard:
                f.write('obligation %s\n  in %s at %s\n  verifier answer: %s (%s)\n  goal: %s\n  model: %s\n' % (o['name'], o['fn'], o['loc'], o['status'], o['backend'], o.get('goal'), o.get('model')))
    elif os.path.exists(rp): os.unlink(rp)
    allok = results and not hard and not undecided and all(l['ok'] for l in lres)
    for n in notes: print('note: ' + n[:600])
    for r in undecided: print('note: task %s outside the verifier (%s): %s -> bounded native stand-in' % (r.name, r.status, r.reason))
    be = {}
    for o in obls: be[o['backend']] = be.get(o['backend'], 0) + 1
    cov = dict(
        obligations=len(obls), discharged=len([o for o in obls if o['status'] == 'valid']),
        checker_cmd='python3-vt check.py %s' % pid,
        trusted_base=registry.TRUSTED + list(reg.get('trusted', [])),
        functions_under_contract=sorted({core.fname(f) for r in results for f in r.functions if 'DPPIR::' in core.fname(f)}),
        contracts_used_at_calls=sorted({core.fname(f) for r in results for f in r.contracts}),
        library_contracts_assumed=sorted({f for r in results for f in r.modelled}),
        tasks=[dict(name=r.name, status=r.status, reason=r.reason, obligations=len(r.obls), loops_cut={k[-60:]: v for k, v in r.loops.items()}, loops_unrolled=r.unrolled, seconds=round(r.time, 2)) for r in results],
        backends=be, solver_seconds={k: round(v[1], 2) for k, v in core.STATS.backend.items()}, quick_queries=core.STATS.queries, quick_seconds=round(core.STATS.qtime, 2),
        lemmas=lres, verdict='proved' if allok else 'violated' if violation else 'bounded' if bounded else 'undecided',
        evaluations=ev, distinct_nontrivial=dn, rule=reg.get('rule', 'native cross-check of the trusted base: random inputs biased to boundaries, run through the real code against an independent oracle; non-trivial: non-empty input'),
        samples=(first or {}).get('samples', [])[:3],
        slowest=sorted([dict(o=o['name'], loc=o['loc'], s=round(o['time'], 2)) for o in obls], key=lambda d: -d['s'])[:3])
    if bounded: cov['bounded'] = 'tasks outside the verifier were replaced by native execution of %d generated cases (bounded, not proved): %s' % (ev, [(r.name, r.reason) for r in undecided])
    evd = dict(property=pid, tier=tier, seed=seed, level='proof' if not bounded else 'exploration', coverage=cov,
               assumptions=registry.ASSUME + list(reg.get('assume', [])) + (ctx.assumptions if ctx else []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if nat.get('err'): evd['coverage']['native_harness'] = 'not built: ' + str(nat['err'])[:400]; print('note: native harness not built: ' + str(nat['err'])[:400])
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(evd, f, indent=1)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations, %d discharged, %d tasks (%d undecided), native cases %d, %.1fs' % (pid, len(obls), cov['discharged'], len(results), len(undecided), ev, time.time() - t0))
    if violation:
        for o in hard[:5]: print('failed obligation: %s in %s at %s (%s)' % (o['name'], o['fn'], o['loc'], o['status']))
        if fail is not None: print('failing input: ' + fail[:800])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if violation == 'input' else ' no-failing-input-found'))
        return 1
    return 0
if __name__ == "__main__": main()
