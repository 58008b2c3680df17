"""Values, memory regions, states and the proof-obligation back end of the IR verifier.

Machine integers are mathematical integers kept in a canonical range (wrap-around is made explicit
with mod unless it is proved not to happen), so the proof is about the machine semantics."""
import time, itertools, fractions
import z3

z3.set_param('model.completion', True)

class Unsupported(Exception):
    """The code uses something outside the verifier's reach (never an alarm)."""

class Budget(Exception):
    pass

# ---------------------------------------------------------------- fresh symbols with known ranges
_serial = itertools.count(1)
SYM_RANGE = {}     # name -> (lo, hi)
SYM_SERIAL = {}    # name -> serial
ARR_WIDTH = {}     # array name -> (lo, hi) of elements

def fresh_int(name, lo=None, hi=None):
    n = '%s!%d' % (name, next(_serial))
    SYM_SERIAL[n] = next(_serial)
    v = z3.Int(n)
    if lo is not None or hi is not None: SYM_RANGE[n] = (lo, hi)
    return v
def fresh_bool(name):
    n = '%s!%d' % (name, next(_serial)); SYM_SERIAL[n] = next(_serial)
    return z3.Bool(n)
def fresh_real(name):
    n = '%s!%d' % (name, next(_serial)); SYM_SERIAL[n] = next(_serial)
    return z3.Real(n)
def fresh_arr(name, lo=None, hi=None, sort=None, dims=1):
    n = '%s!%d' % (name, next(_serial)); SYM_SERIAL[n] = next(_serial)
    s = z3.IntSort() if sort is None else sort
    for _ in range(dims): s = z3.ArraySort(z3.IntSort(), s)
    ARR_WIDTH[n] = (lo, hi)
    return z3.Const(n, s)
def mark(): return next(_serial)

def is_c(e): return isinstance(e, int) and not isinstance(e, bool) or isinstance(e, fractions.Fraction)
def zi(e):
    """python/z3 -> z3 Int/Real/Bool"""
    if isinstance(e, bool): return z3.BoolVal(e)
    if isinstance(e, int): return z3.IntVal(e)
    if isinstance(e, fractions.Fraction): return z3.RealVal(e)
    return e

def simp(e):
    if not isinstance(e, z3.ExprRef): return e
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_rational_value(e) and e.sort() == z3.RealSort(): return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e
def cheap(e):
    """fold constants only when obviously constant"""
    if isinstance(e, z3.ExprRef):
        if z3.is_int_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e

# ---------------------------------------------------------------- linear forms
def lin(e, coef=1, acc=None):
    """linear form: [const, {id: [coef, expr]}]"""
    if acc is None: acc = [0, {}]
    if isinstance(e, int): acc[0] += coef * e; return acc
    if z3.is_int_value(e): acc[0] += coef * e.as_long(); return acc
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for c in e.children(): lin(c, coef, acc)
        return acc
    if k == z3.Z3_OP_SUB:
        ch = e.children(); lin(ch[0], coef, acc)
        for c in ch[1:]: lin(c, -coef, acc)
        return acc
    if k == z3.Z3_OP_UMINUS: return lin(e.children()[0], -coef, acc)
    if k == z3.Z3_OP_MUL:
        ch = e.children(); c = 1; rest = []
        for x in ch:
            if z3.is_int_value(x): c *= x.as_long()
            else: rest.append(x)
        if not rest: acc[0] += coef * c; return acc
        if len(rest) == 1:
            return lin(rest[0], coef * c, acc)
        # distribute over one sum factor if any
        for i, x in enumerate(rest):
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                others = rest[:i] + rest[i+1:]
                o = others[0]
                for y in others[1:]: o = o * y
                kk = x.decl().kind()
                if kk == z3.Z3_OP_UMINUS: return lin(x.children()[0] * o, -coef * c, acc)
                for j, y in enumerate(x.children()):
                    sg = -1 if (kk == z3.Z3_OP_SUB and j > 0) else 1
                    if z3.is_int_value(y): lin(o, coef * c * sg * y.as_long(), acc)
                    else: lin(y * o, coef * c * sg, acc)
                return acc
        rest = sorted(rest, key=lambda x: x.get_id())
        t = rest[0]
        for x in rest[1:]: t = t * x
        e = t; coef = coef * c
    i = e.get_id()
    if i in acc[1]:
        acc[1][i][0] += coef
        if acc[1][i][0] == 0: del acc[1][i]
    else: acc[1][i] = [coef, e]
    return acc
def unlin(l):
    ts = [ (x if c == 1 else c * x) for c, x in l[1].values() ]
    if not ts: return l[0]
    e = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return e + l[0] if l[0] else e
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    acc = lin(a); lin(b, 1, acc); return unlin(acc)
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    acc = lin(a); lin(b, -1, acc); return unlin(acc)
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int): return unlin(lin(a, b)) if b else 0
    return unlin(lin(a * b))

# ---------------------------------------------------------------- intervals
INF = None
def _root_arr(a):
    while True:
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE: a = a.children()[0]
        elif k == z3.Z3_OP_SELECT: a = a.children()[0]
        elif k == z3.Z3_OP_ITE: a = a.children()[1]
        else: return a
def bounds(e, d=0):
    if isinstance(e, bool): e = int(e)
    if isinstance(e, int): return (e, e)
    if z3.is_int_value(e): v = e.as_long(); return (v, v)
    if d > 40: return (None, None)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED and not ch:
        return SYM_RANGE.get(e.decl().name(), (None, None))
    if k == z3.Z3_OP_UNINTERPRETED:
        return SYM_RANGE.get(e.decl().name(), (None, None))
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in ch:
            l, h = bounds(c, d+1)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi
    if k == z3.Z3_OP_SUB:
        lo, hi = bounds(ch[0], d+1)
        for c in ch[1:]:
            l, h = bounds(c, d+1)
            lo = None if lo is None or h is None else lo - h
            hi = None if hi is None or l is None else hi - l
        return lo, hi
    if k == z3.Z3_OP_UMINUS:
        l, h = bounds(ch[0], d+1); return (None if h is None else -h, None if l is None else -l)
    if k == z3.Z3_OP_MUL:
        lo, hi = 1, 1
        for c in ch:
            l, h = bounds(c, d+1)
            if None in (lo, hi, l, h):
                if lo is not None and l is not None and lo >= 0 and l >= 0: lo, hi = lo * l, None; continue
                return (None, None)
            ps = [lo*l, lo*h, hi*l, hi*h]; lo, hi = min(ps), max(ps)
        return lo, hi
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
        m = ch[1].as_long()
        if m > 0:
            l, h = bounds(ch[0], d+1)
            if l is not None and h is not None and 0 <= l and h < m: return l, h
            return 0, m - 1
    if k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]):
        m = ch[1].as_long()
        if m > 0:
            l, h = bounds(ch[0], d+1)
            return (None if l is None else l // m, None if h is None else h // m)
    if k == z3.Z3_OP_ITE:
        l1, h1 = bounds(ch[1], d+1); l2, h2 = bounds(ch[2], d+1)
        return (None if None in (l1, l2) else min(l1, l2), None if None in (h1, h2) else max(h1, h2))
    if k == z3.Z3_OP_SELECT:
        r = _root_arr(ch[0])
        if r.decl().kind() == z3.Z3_OP_CONST_ARRAY: return (None, None)
        return ARR_WIDTH.get(r.decl().name(), (None, None))
    return (None, None)

def symbols(e, out=None, seen=None):
    if out is None: out = set(); seen = set()
    if not isinstance(e, z3.ExprRef): return out
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_var(x): continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: out.add(x.decl().name())
        st.extend(x.children())
    return out

# ---------------------------------------------------------------- values
class IV:
    __slots__ = ('bits', 'e', 'sg', 'b', 'parts')
    def __init__(self, bits, e, sg=False, b=None, parts=None):
        self.bits = bits; self.e = e; self.sg = sg; self.b = b; self.parts = parts
    def __repr__(self): return 'IV%d%s(%s)' % (self.bits, 's' if self.sg else 'u', self.e)
class Ptr:
    __slots__ = ('rid', 'off', 'row', 'null')
    def __init__(self, rid, off=0, row=None, null=False):
        self.rid = rid; self.off = off; self.row = row; self.null = null
    def at(self, off): return Ptr(self.rid, add(self.off, off), self.row, self.null)
    def __repr__(self): return 'Ptr(%s+%s%s)' % (self.rid, self.off, '' if self.row is None else '@' + str(self.row))
NULL = Ptr(None, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fn(%s)' % self.name
class PInt:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class FV:       # double treated as a mathematical real
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'FV(%s)' % self.e
class Blob:     # opaque fixed-size byte string, identified by an integer
    __slots__ = ('size', 'e')
    def __init__(self, size, e): self.size = size; self.e = e
    def __repr__(self): return 'Blob%d(%s)' % (self.size, self.e)
class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

# ---------------------------------------------------------------- memory
class Lane:
    """z3 array from element index to integer (one machine field per element)."""
    __slots__ = ('kind', 'size', 'a', 'tgt', 'mode', 'offs', 'nulls', 'unit')
    def __init__(self, kind, size, a=None, tgt=None, mode=None, offs=None, nulls=None, unit=1):
        self.unit = unit      # pointer lanes: offs counts units of this many bytes (0: always offset 0)
        self.kind = kind; self.size = size; self.a = a; self.tgt = tgt; self.mode = mode; self.offs = offs; self.nulls = nulls
    def copy(self): return Lane(self.kind, self.size, self.a, self.tgt, self.mode, self.offs, self.nulls, self.unit)

class Seg:
    """array part of a region: elements of `stride` bytes starting at byte `base`"""
    __slots__ = ('base', 'stride', 'blen', 'lanes')
    def __init__(self, base, stride, blen, lanes): self.base = base; self.stride = stride; self.blen = blen; self.lanes = lanes
    def copy(self): return Seg(self.base, self.stride, self.blen, {k: l for k, l in self.lanes.items()})

class Region:
    __slots__ = ('rid', 'name', 'size', 'cells', 'segs', 'alive', 'kind', 'lazy', 'ro', 'fam', 'rowlen', 'x')
    def __init__(self, rid, name, size, kind='heap', lazy=None):
        self.rid = rid; self.name = name; self.size = size; self.cells = {}; self.segs = []; self.alive = True
        self.kind = kind; self.lazy = lazy; self.ro = False; self.fam = False; self.rowlen = None; self.x = {}
    def copy(self):
        r = Region(self.rid, self.name, self.size, self.kind, self.lazy)
        r.cells = dict(self.cells); r.segs = [s.copy() for s in self.segs]; r.alive = self.alive; r.ro = self.ro
        r.fam = self.fam; r.rowlen = self.rowlen; r.x = dict(self.x)
        return r

class State:
    def __init__(self):
        self.mem = {}; self.facts = []; self.ghost = {}; self.alias = {}; self.nofork = False
        self.globs = {}
    def clone(self):
        s = State(); s.mem = dict(self.mem); s.facts = list(self.facts); s.ghost = dict(self.ghost); s.alias = dict(self.alias)
        s.globs = dict(self.globs)
        return s
    def assume(self, f):
        f = cheap(f)
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        self.facts.append(f)
    def wr(self, rid):
        """private copy of a region for writing (copy on write)"""
        r = self.mem[rid].copy(); self.mem[rid] = r; return r

# ---------------------------------------------------------------- back end
class Stats:
    def __init__(self):
        self.obl = []      # dicts
        self.queries = 0; self.qtime = 0.0; self.backend = {}
STATS = Stats()

def has_quant(f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False
_hq = {}
def hq(f):
    i = f.get_id()
    v = _hq.get(i)
    if v is None or v[0] is not f:
        v = (f, has_quant(f)); _hq[i] = v
    return v[1]

class Inc:
    """incremental quick solver over the quantifier-free facts of a state"""
    def __init__(self, timeout=400):
        self.timeout = timeout; self.reset()
    def reset(self):
        self.s = z3.Solver(); self.s.set('timeout', self.timeout); self.st = []; self.n = 0
        self.cache = {}
    def sync(self, facts):
        fs = [f for f in facts if not hq(f)]
        k = 0; m = min(len(fs), len(self.st))
        while k < m and self.st[k] is fs[k]: k += 1
        # pop in chunks: each fact has own scope
        if len(self.st) > k:
            self.s.pop(len(self.st) - k); del self.st[k:]
        for f in fs[k:]:
            self.s.push(); self.s.add(f); self.st.append(f)
    def check(self, facts, extra):
        self.n += 1
        if self.n % 4000 == 0: self.reset()
        self.sync(facts)
        t = time.time()
        self.s.push()
        try:
            self.s.add(extra)
            r = self.s.check()
        finally:
            self.s.pop()
        STATS.queries += 1; STATS.qtime += time.time() - t
        return r
INC = Inc()

def quick_valid(st, g):
    """is g implied by the (quantifier-free) facts?  False when not known."""
    g = cheap(g)
    if isinstance(g, bool): return g
    return INC.check(st.facts, z3.Not(g)) == z3.unsat
def feasible(st, c=None):
    c = cheap(c) if c is not None else True
    if c is False: return False
    return INC.check(st.facts, zi(c)) != z3.unsat

def _cvc5(facts, goal, timeout):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    s.add(facts); s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    import subprocess, tempfile, os
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); fn = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), fn], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(fn)
    return out

NL = z3.Function('nl_mul', z3.IntSort(), z3.IntSort(), z3.IntSort())
def abstract_nl(fs):
    """replaces products of variables by an uninterpreted function (sound for validity), adding sign facts;
    returns None when there is nothing to abstract"""
    cache = {}; terms = {}
    keep = []
    def rec(e):
        i = e.get_id()
        if i in cache: return cache[i]
        keep.append(e)
        if z3.is_quantifier(e):
            r = e if not _has_nl(e.body()) else None
            if r is None: raise _Drop()
        elif z3.is_var(e) or e.num_args() == 0: r = e
        else:
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and e.sort() == z3.IntSort():
                ch = e.children(); c = 1; rest = []
                for x in ch:
                    if z3.is_int_value(x): c *= x.as_long()
                    else: rest.append(x)
                if len(rest) >= 2:
                    l = lin(e)      # distributes over sums
                    acc = z3.IntVal(l[0])
                    parts = []
                    for co, t in l[1].values():
                        if t.decl().kind() == z3.Z3_OP_MUL and sum(1 for q in t.children() if not z3.is_int_value(q)) >= 2:
                            qs = sorted([rec(q) for q in t.children()], key=lambda q: q.sexpr())
                            m = qs[0]
                            for q in qs[1:]:
                                a, b = (m, q) if m.sexpr() <= q.sexpr() else (q, m)
                                m = NL(a, b); keep.append(m); terms[m.get_id()] = (m, a, b)
                        else: m = rec(t)
                        parts.append(m if co == 1 else co * m)
                    r = z3.Sum([acc] + parts) if parts else acc
                else: r = e.decl()(*[rec(x) for x in ch])
            else:
                ch = [rec(x) for x in e.children()]
                r = e.decl()(*ch) if any(a is not b for a, b in zip(ch, e.children())) else e
                if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD) and any(a is not b for a, b in zip(ch, e.children())):
                    r = z3.And(ch) if k == z3.Z3_OP_AND else z3.Or(ch) if k == z3.Z3_OP_OR else z3.Sum(ch)
        keep.append(r); cache[i] = r
        return r
    out = []
    for f in fs[:-1]:
        if not _has_nl(f): out.append(f); continue
        h = _ABS.get(f.get_id())
        if h is None or not h[0].eq(f):
            if len(_ABS) > 50000: _ABS.clear()
            t0 = dict(terms); terms.clear()
            try: r = rec(f)
            except _Drop: r = None
            # (sub-terms shared with other facts: their products are collected again by a walk of the result)
            h = (f, r, nl_terms(r) if r is not None else {}); _ABS[f.get_id()] = h
            terms.clear(); terms.update(t0)
        if h[1] is not None: out.append(h[1]); terms.update(h[2])
    try: g = rec(fs[-1]) if _has_nl(fs[-1]) else fs[-1]
    except _Drop: return None
    if _has_nl(fs[-1]): terms.update(nl_terms(g))
    if not terms: return None
    for m, a, b in terms.values():
        out.append(NL(a, b) == NL(b, a))
        out.append(z3.Implies(z3.And(a >= 0, b >= 0), m >= 0))
        out.append(z3.Implies(z3.And(a >= 1, b >= 0), m >= b))
        out.append(z3.Implies(z3.And(b >= 1, a >= 0), m >= a))
        out.append(z3.Implies(a == 0, m == 0)); out.append(z3.Implies(b == 0, m == 0))
        out.append(z3.Implies(a == 1, m == b)); out.append(z3.Implies(b == 1, m == a))
    return out + [g]
class _Drop(Exception): pass
_ABS = {}
def nl_terms(e):
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.decl().eq(NL): out[x.get_id()] = (x, x.arg(0), x.arg(1))
        st.extend(x.children())
    return out
_NL = {}
def _has_nl(e):
    i = e.get_id(); h = _NL.get(i)
    if h is None or not h[0].eq(e):
        if len(_NL) > 200000: _NL.clear()
        h = (e, _has_nl_(e)); _NL[i] = h
    return h[1]
def _has_nl_(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL and sum(1 for q in x.children() if not z3.is_int_value(q) and not z3.is_rational_value(q)) >= 2: return True
            st.extend(x.children())
    return False

LAST_MODEL = [None]
def relevant(facts, goal):
    """facts transitively sharing a symbol with the goal (cone of influence); sound: dropping facts only weakens"""
    return facts

def prove(facts, goal, timeout=10.0, backends=('z3', 'z3nombqi', 'cvc5'), want_model=True, mbqi_timeout=None):
    """returns ('valid'|'invalid'|'unknown', backend)"""
    goal = cheap(goal)
    if goal is True: return 'valid', 'fold'
    goal = zi(goal)
    g2 = z3.simplify(goal)
    if z3.is_true(g2): return 'valid', 'fold'
    fs = facts
    LAST_MODEL[0] = None
    res = 'unknown'
    if (any(hq(f) for f in fs) or hq(goal)) and 'z3nl' not in backends:
        # quantified facts: cvc5 answers at once, one way or the other, where z3 searches until its time is up
        t = time.time(); r = _cvc5(fs, goal, min(timeout, 2.0)); d = time.time() - t
        bb = STATS.backend.setdefault('cvc5', [0, 0.0]); bb[0] += 1; bb[1] += d
        if r == 'unsat': return 'valid', 'cvc5'
    ab = None
    if any(_has_nl(f) for f in fs) or _has_nl(goal):
        ab = abstract_nl(list(fs) + [z3.Not(goal)])
    if ab is not None:
        t = time.time()
        s = z3.Solver(); s.set('timeout', int(min(timeout, 8) * 1000)); s.add(ab)
        r = s.check()
        d = time.time() - t
        bb = STATS.backend.setdefault('z3-linear', [0, 0.0]); bb[0] += 1; bb[1] += d
        if r == z3.unsat: return 'valid', 'z3-linear'
    for b in backends:
        t = time.time()
        if b == 'z3':
            s = z3.Solver(); s.set('timeout', int((mbqi_timeout or timeout) * 1000)); s.add(fs); s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat: res = 'valid'
            elif r == z3.sat:
                res = 'invalid'; LAST_MODEL[0] = s.model()
        elif b == 'z3nombqi':
            s = z3.SolverFor('AUFLIA') if False else z3.Solver()
            s.set('timeout', int(timeout * 1000)); s.set('smt.mbqi', False); s.set('smt.arith.solver', 2)
            s.add(fs); s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat: res = 'valid'
        elif b == 'z3nl':
            s = z3.Tactic('qfnia').solver() if False else z3.SolverFor('QF_NIA')
            s.set('timeout', int(timeout * 1000)); s.add([f for f in fs if not hq(f)]); s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat: res = 'valid'
        elif b == 'cvc5':
            if _cvc5(fs, goal, timeout) == 'unsat': res = 'valid'
        d = time.time() - t
        bb = STATS.backend.setdefault(b, [0, 0.0]); bb[0] += 1; bb[1] += d
        if res != 'unknown': return res, b
    return res, 'none'

def fname(d):
    """qualified name of a demangled signature (parameters dropped)"""
    d = d.replace('(anonymous namespace)', '{anon}')
    depth = 0
    for i, c in enumerate(d):
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0:
            d = d[:i]; break
    return d.replace('{anon}', '(anonymous namespace)')
