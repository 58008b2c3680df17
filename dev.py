import sys, time
sys.path.insert(0, '/verif')
from irv import ir, execu, task
import importlib, os
execu.DEBUG = int(os.environ.get('DBG', '1'))
def main():
    mod, fn = sys.argv[1].split(':')
    from irv import build; sm = importlib.import_module('specs.' + mod); m = build.extract(drivers=getattr(sm, 'DRIVERS', {}).get(fn, ()))
    for x in m.failed_tus: print(x)
    ctx = task.Ctx(m)
    t = time.time()
    getattr(importlib.import_module('specs.' + mod), fn)(ctx); ctx.join()
    for r in ctx.results:
        bad = [o for o in r.obls if o['status'] != 'valid']
        print(r.name, r.status, r.reason, 'obl', len(r.obls), 'bad', len(bad), '%.1fs' % r.time, 'loops', {k[-30:]: v for k, v in r.loops.items()}, r.unrolled)
        for b in sorted(r.obls, key=lambda o:-o['time'])[:3]:
            if b['time'] > 1.5: print('   slow %.1f' % b['time'], b['name'], b['loc'], b['backend'])
        for b in bad[:6]: print('   BAD', b['name'], b['fn'], b['loc'], b['status'], b.get('goal', '')[:300])
        if getattr(r, 'trace', None): print(r.trace)
    print('total %.1f' % (time.time() - t))
main()
