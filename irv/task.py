"""Proof tasks: build an arbitrary pre-state, run the extracted code, state the postcondition."""
import time, re, traceback, os, pickle, select
import z3
from . import core, models
from .core import *
from .execu import Executor, dbg

class Result:
    def __init__(self, name): self.name = name; self.obls = []; self.status = 'ok'; self.reason = None; self.functions = {}; self.modelled = {}; self.contracts = {}; self.loops = {}; self.time = 0; self.unrolled = 0

class Ctx:
    def __init__(self, mod, tier='quick', deadline=None):
        self.mod = mod; self.tier = tier; self.deadline = deadline; self.results = []; self.assumptions = []; self.pending = []
    def assume_note(self, t):
        if t not in self.assumptions: self.assumptions.append(t)

    def run(self, name, fn, overrides=(), templates=(), budget=120, variants=None, **opts):
        """fn(ex, st) runs the task; variants: alternative option dicts tried in turn when one is unsupported"""
        if self.serial:
            r = self._all(name, fn, overrides, templates, budget, variants, opts); self.results.append(r); return r
        while len([1 for x in self.pending if x]) >= self.workers: self._collect_one()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                core.STATS.__init__()
                r = self._all(name, fn, overrides, templates, budget, variants, opts)
                data = pickle.dumps((r.__dict__, core.STATS.__dict__, self.assumptions))
                with os.fdopen(wr, 'wb') as f: f.write(data)
            except BaseException as e: code = 3
            finally: os._exit(code)
        os.close(wr)
        r = Result(name); r.status = 'pending'; self.results.append(r)
        self.pending.append((pid, rd, r))
        return r
    serial = bool(os.environ.get('SERIAL')); workers = 6
    def _collect_one(self):
        """waits for some running task"""
        fds = [x[1] for x in self.pending]
        ready, _, _ = select.select(fds, [], [], max(30, self.deadline + 60 - time.time()) if self.deadline else 600)
        for x in list(self.pending):
            if x[1] in ready:
                self.pending.remove(x)
                with os.fdopen(x[1], 'rb') as f: data = f.read()
                os.waitpid(x[0], 0)
                try:
                    d, stt, ass = pickle.loads(data); x[2].__dict__.update(d)
                    for a in ass: self.assume_note(a)
                    core.STATS.queries += stt['queries']; core.STATS.qtime += stt['qtime']
                    for b, (n, t) in stt['backend'].items():
                        bb = core.STATS.backend.setdefault(b, [0, 0.0]); bb[0] += n; bb[1] += t
                except Exception as e: x[2].status = 'budget'; x[2].reason = 'the task process ended without a result (memory or crash)'
        if not ready and self.pending:
            for x in self.pending:
                try: os.kill(x[0], 9)
                except OSError: pass
    def join(self):
        while self.pending: self._collect_one()
    def _all(self, name, fn, overrides, templates, budget, variants, opts):
        last = None
        vs = [dict(v, hou_timeout=h) for h in (1.0, 5.0) for v in (variants or [{}])]
        for v in vs:
            o = dict(opts); o.update(v)
            r = self._run(name, fn, overrides, templates, budget, o)
            if r.status == 'ok' and all(x['status'] == 'valid' for x in r.obls): last = r; break
            if last is None or (last.status != 'ok' and r.status == 'ok'): last = r
        return last

    def _run(self, name, fn, overrides, templates, budget, opts):
        dl = time.time() + budget
        if self.deadline: dl = min(dl, self.deadline)
        ex = Executor(self.mod, models, [(re.compile(p), h) for p, h in overrides], templates, name, dl)
        ex.vac_dead = ex.vac_live = 0
        for k, v in opts.items(): setattr(ex, k, v)
        core.INC.reset()
        st = State()
        r = Result(name); t0 = time.time()
        try:
            n = fn(ex, st)
            if (n is not None and n == 0) or (ex.vac_dead and not ex.vac_live): r.status = 'vacuous'; r.reason = 'no execution reaches the end'
        except Unsupported as e: r.status = 'unsupported'; r.reason = str(e)[:500]
        except Budget as e: r.status = 'budget'; r.reason = str(e)
        except core_ir_error() as e: r.status = 'unsupported'; r.reason = 'IR: ' + str(e)[:300]
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception, RecursionError, AssertionError) as e:
            r.status = 'unsupported'; r.reason = 'internal: %s: %s' % (type(e).__name__, str(e)[:300]); r.trace = traceback.format_exc()[-2500:]
        r.obls = ex.obls; r.functions = ex.functions; r.modelled = ex.modelled; r.contracts = ex.contracts_used; r.loops = ex.loops_cut; r.unrolled = ex.loops_unrolled
        r.time = time.time() - t0
        return r

def core_ir_error():
    from . import ir
    return ir.IRError

# ------------------------------------------------------------------ input construction
def sym(st, name, bits=32, lo=0, hi=None):
    h = (1 << bits) - 1 if hi is None else hi
    v = fresh_int(name, lo, h); st.assume(z3.And(v >= lo, v <= h)); return v
def obj(ex, st, name, size, lazy=True, kind='heap'):
    r = ex.new_region(st, name, size, kind, {} if lazy else None)
    return Ptr(r.rid, 0)
def big_arrays(ex, t, base=0):
    t = ex.m.resolve(t)
    if t[0] == 'arr':
        if t[1] >= 1024 and ex.m.size(t[2]) == 1: return [(base, t[1])]
        return []
    if t[0] == 'struct':
        offs, _ = ex.m.struct_layout(t); out = []
        for o, x in zip(offs, t[2]): out += big_arrays(ex, x, base + o)
        return out
    return []
def cxx_obj(ex, st, name, tname, lazy=False):
    """object of the named class, storage only; large byte-array members become byte segments"""
    t = ex.m.cxx_types.get(tname)
    if t is None: raise Unsupported('class %s not found' % tname)
    r = ex.new_region(st, name, ex.m.size(t), 'heap', {} if lazy else None)
    for b, n in big_arrays(ex, t):
        g = ex.array_seg(name, [(0, 1)], 1); g.base = b; g.blen = n; r.segs.append(g); r.x['mixed'] = True
    return Ptr(r.rid, 0)
def array(ex, st, name, n, stride, lanes, ro=False):
    r = ex.new_region(st, name, mul(n, stride), 'input'); r.segs = [ex.array_seg(name, lanes, stride)]; r.ro = ro
    return Ptr(r.rid, 0)
def lane(st, p, key):
    r = st.mem[p.rid]; return r.segs[0].lanes[key].a
def vector(ex, st, name, n, stride, lanes, ro=False):
    """a std::vector of n elements; returns (pointer to the vector, pointer to its elements)"""
    d = array(ex, st, name, n, stride, lanes, ro)
    v = ex.new_region(st, name + '_vec', 24, 'input'); e = mul(n, stride)
    v.cells[0] = (8, d); v.cells[8] = (8, Ptr(d.rid, e)); v.cells[16] = (8, Ptr(d.rid, e))
    return Ptr(v.rid, 0), d
def only(ex, pattern):
    fs = ex.m.find(pattern)
    if len(fs) != 1: raise Unsupported('%d functions match %s' % (len(fs), pattern))
    return fs[0]
def call(ex, st, pattern, args, sret=None):
    """call the (unique) function; returns list of (state, value)"""
    f = only(ex, pattern)
    a = list(args)
    return reachable(ex, ex.call(st, f, a, ('<spec>',)))
def reachable(ex, outs):
    """vacuity guard: counts the returned states whose assumptions are not contradictory"""
    for s, _ in outs:
        z = z3.Solver(); z.set('timeout', 1500); z.add(s.facts)
        if z.check() == z3.unsat: ex.vac_dead += 1
        else: ex.vac_live += 1
    return outs
def vec_of(ex, st, p):
    b = ex.dealias(st, ex.load(st, p, ('ptr',))); e = ex.dealias(st, ex.load(st, p.at(8), ('ptr',)))
    if b.rid != e.rid: raise Unsupported('vector bounds')
    return b, sub(e.off, b.off)
def forall(vs, body, patterns=None):
    """universal fact; the patterns are dropped where they are not legal (goals about updated arrays)"""
    if patterns and all(legal_pattern(p) for p in patterns):
        try: return z3.ForAll(vs, body, patterns=patterns)
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
def legal_pattern(p):
    if not isinstance(p, z3.ExprRef): return True   # a MultiPattern
    st = [p]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE): return False
        st.extend(x.children())
    return True
def mp(*ts):
    if all(legal_pattern(t) for t in ts): return z3.MultiPattern(*ts)
    return ts[0]
