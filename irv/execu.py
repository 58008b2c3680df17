"""Symbolic execution of the extracted IR with loop cutting, and generation of proof obligations."""
import re, time, fractions
import z3
from . import ir
from .core import *

DEBUG = 0
import os
DUMP = os.environ.get('DUMP')
def dbg(lvl, *a):
    if DEBUG >= lvl: print('   ' * 0, *a, flush=True)

class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'path', 'args')
    def __init__(self, fn, path): self.fn = fn; self.regs = {}; self.allocas = []; self.path = path
    def clone(self):
        f = Frame(self.fn, self.path); f.regs = dict(self.regs); f.allocas = list(self.allocas); return f

def strip_mod(e):
    """e without its wrap-arounds (only used to guess linear progress; the guess is then proved)"""
    if not isinstance(e, z3.ExprRef): return e
    k = e.decl().kind()
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)): return strip_mod(e.arg(0))
    if k == z3.Z3_OP_ADD: return z3.Sum([strip_mod(c) for c in e.children()])
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)): return e.arg(0) * strip_mod(e.arg(1))
    if k == z3.Z3_OP_SUB: return strip_mod(e.arg(0)) - z3.Sum([strip_mod(c) for c in e.children()[1:]])
    return e
class LoopCtx:
    """what an invariant template may look at"""
    def __init__(self, ex, key, fn, st0, mods, lindelta): self.ex = ex; self.key = key; self.fn = fn; self.st0 = st0; self.mods = mods; self.lin = lindelta

class Executor:
    def __init__(self, mod, models, overrides=(), templates=(), task='task', deadline=None):
        self.m = mod; self.models = models; self.overrides = list(overrides); self.templates = list(templates); self.task = task
        self.mode = 'final'
        self.obls = []           # every obligation (final mode)
        self.nobl = 0
        self.loop_mods = {}      # loop key -> mods (cache)
        self.loop_cands = {}     # loop key -> surviving names
        self.deadline = deadline
        self.functions = {}      # executed function -> count (under verification)
        self.modelled = {}       # library models used
        self.contracts_used = {}
        self.unroll_max = 80
        self.oblig_timeout = 20.0
        self.hou_timeout = 1.0
        self.fail_fast = False
        self.ridn = 0
        self.abort_ok = False    # deliberate process stop allowed
        self.allow_overflow_obl = True
        self.cur = None
        self.inline_depth = 0
        self.loops_cut = {}
        self.loops_unrolled = 0
        self.paths = 0
        self.assume_alloc = True
        self.obl_hook = None
        self.hints = {}
        self.layouts = {}        # C++ type name -> (stride, lanes) chosen by the task
        self.elem_init = {}      # C++ type name -> constructor effect on a fresh array
        self.new_elem = {}
        self.spec = {}           # terms of the specification that invariant templates may mention
        self.urem_hooks = []     # lemma instantiation at remainders
        self.bounded = None      # when set: loops are unrolled at most this many times (bounded stand-in)

    # ------------------------------------------------------------ misc
    unroll_exits = False
    gap_unit = None      # cell size for untyped memory that is cleared or copied as a whole
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Budget('time budget exhausted')

    def rid(self, name):
        self.ridn += 1
        return '%s#%d' % (name, self.ridn)

    def new_region(self, st, name, size, kind='heap', lazy=None):
        r = Region(self.rid(name), name, size, kind, lazy)
        st.mem[r.rid] = r
        return r

    # ------------------------------------------------------------ obligations
    def where(self, inst=None):
        inst = inst or self.cur
        l = self.m.loc(inst)
        fn = self.curfn.dem if getattr(self, 'curfn', None) else '?'
        fn = re.sub(r'\(.*', '', fn)
        return fn, l

    def oblige(self, st, goal, kind, inst=None, assume=True, hints=()):
        """goal must hold here; after the check it may be assumed"""
        goal = cheap(goal)
        if self.mode == 'final':
            self.nobl += 1
            fn, loc = self.where(inst)
            rec = dict(name='%s/%s' % (self.task, kind), fn=fn, loc=('%s:%d' % loc if loc and loc[0] else None), kind=kind)
            if goal is True:
                rec.update(status='valid', backend='fold', time=0.0)
            else:
                self.tick()
                t = time.time()
                if goal is False: goal = z3.BoolVal(False)
                res, be = prove(st.facts + list(hints), goal, timeout=self.oblig_timeout)
                rec.update(status=res, backend=be, time=time.time() - t)
                if res != 'valid':
                    rec['goal'] = str(goal)[:2000]
                    m = LAST_MODEL[0]
                    rec['model'] = str(m)[:4000] if m is not None else None
                    if z3.is_false(goal): pass
                    dbg(1, 'FAILED', rec['name'], rec['fn'], rec['loc'], res, str(goal)[:300])
            self.obls.append(rec)
            if rec['status'] != 'valid' and self.fail_fast: raise Budget('first failure')
        if assume and goal is not True: st.assume(zi(goal) if goal is not False else z3.BoolVal(False))

    def dead(self, st): return st.facts and any(z3.is_false(f) for f in st.facts[-2:])

    # ------------------------------------------------------------ integers
    def U(self, st, v):
        """unsigned mathematical value"""
        if isinstance(v, PInt): raise Unsupported('pointer used as integer')
        if isinstance(v, Blob) and v.size in (1, 2, 4, 8): return v.e
        if not isinstance(v, IV): raise Unsupported('integer expected, got %r' % (v,))
        if not v.sg: return v.e
        if isinstance(v.e, int): return v.e % (1 << v.bits)
        lo, hi = bounds(v.e)
        if lo is not None and lo >= 0: return v.e
        if quick_valid(st, v.e >= 0): return v.e
        return z3.If(v.e < 0, v.e + (1 << v.bits), v.e)
    def S(self, st, v):
        if isinstance(v, Blob) and v.size in (1, 2, 4, 8): v = IV(8*v.size, v.e)
        if not isinstance(v, IV): raise Unsupported('integer expected, got %r' % (v,))
        if v.sg: return v.e
        h = 1 << (v.bits - 1)
        if isinstance(v.e, int): return v.e - (1 << v.bits) if v.e >= h else v.e
        lo, hi = bounds(v.e)
        if hi is not None and hi < h: return v.e
        if quick_valid(st, v.e < h): return v.e
        return z3.If(v.e >= h, v.e - (1 << v.bits), v.e)
    def wrapu(self, st, e, bits):
        """reduce e modulo 2^bits, dropping the mod when provably in range"""
        M = 1 << bits
        if isinstance(e, int): return e % M
        lo, hi = bounds(e)
        okl = lo is not None and lo >= 0; okh = hi is not None and hi < M
        if okl and okh: return e
        if (okl or quick_valid(st, e >= 0)) and (okh or quick_valid(st, e < M)): return e
        return e % M
    def undef(self, st, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i':
            if ty[1] == 1: return fresh_bool('undef')
            v = fresh_int('undef', 0, (1 << ty[1]) - 1); st.assume(z3.And(v >= 0, v < (1 << ty[1]))); return IV(ty[1], v)
        if ty[0] in ('double', 'float'): return FV(fresh_real('undef'))
        if ty[0] == 'struct': return Agg([self.undef(st, t) for t in ty[2]])
        return UNDEF

    def binop(self, st, inst, a, b):
        op = inst.op; bits = inst.ty[1] if inst.ty[0] == 'i' else None
        fl = inst.x['flags']
        if bits == 1:
            A, B = self.tob(a), self.tob(b)
            if op == 'xor':
                if isinstance(A, bool) and isinstance(B, bool): return A != B
                if B is True: return z3.Not(zi(A))
                if B is False: return A
                if A is True: return z3.Not(zi(B))
                return z3.Xor(zi(A), zi(B))
            if op == 'and':
                if A is False or B is False: return False
                return cheap(simp(z3.And(zi(A), zi(B))))
            if op == 'or':
                if A is True or B is True: return True
                return cheap(simp(z3.Or(zi(A), zi(B))))
            raise Unsupported('i1 ' + op)
        if a is UNDEF: a = self.undef(st, inst.ty)
        if b is UNDEF: b = self.undef(st, inst.ty)
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.rid != b.p.rid: raise Unsupported('difference of unrelated pointers')
            return IV(bits, sub(a.p.off, b.p.off), True)
        if isinstance(a, PInt) or isinstance(b, PInt): raise Unsupported('pointer arithmetic on integers: ' + op)
        if op in ('add', 'sub', 'mul'):
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            if 'nsw' in fl:
                x, y = self.S(st, a), self.S(st, b)
                e = f(x, y)
                h = 1 << (bits - 1)
                if isinstance(e, int):
                    if not (-h <= e < h): self.oblige(st, False, 'no-signed-overflow', inst)
                else:
                    lo, hi = bounds(e)
                    if not (lo is not None and hi is not None and lo >= -h and hi < h):
                        self.oblige(st, z3.And(e >= -h, e < h), 'no-signed-overflow', inst)
                return IV(bits, e, True)
            if op == 'add' and isinstance(b.e, int):   # x + (2^n - k)  is  x - k
                k = self.S(st, b)
                return IV(bits, self.wrapu(st, add(self.U(st, a), k), bits))
            e = f(self.U(st, a), self.U(st, b))
            return IV(bits, self.wrapu(st, e, bits))
        if op in ('udiv', 'urem'):
            x, y = self.U(st, a), self.U(st, b)
            if isinstance(y, int) and y == 0: self.oblige(st, False, 'no-division-by-zero', inst); return self.undef(st, inst.ty)
            if isinstance(x, int) and isinstance(y, int): return IV(bits, x // y if op == 'udiv' else x % y)
            if not isinstance(y, int): self.oblige(st, y > 0, 'no-division-by-zero', inst)
            q, r = self.divmod(st, x, y)
            if op == 'urem':
                for hk in self.urem_hooks: hk(self, st, x, y, r)
            return IV(bits, q if op == 'udiv' else r)
        if op in ('sdiv', 'srem'):
            x, y = self.S(st, a), self.S(st, b)
            if isinstance(x, int) and isinstance(y, int) and y != 0:
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return IV(bits, q if op == 'sdiv' else x - q * y, True)
            if isinstance(y, int) and y > 0:
                l = lin(x)
                if 'exact' in fl and l[0] % y == 0 and all(c % y == 0 for c, _ in l[1].values()):
                    return IV(bits, unlin([l[0] // y, {k: [c // y, t] for k, (c, t) in l[1].items()}]), True)
                if quick_valid(st, x >= 0):
                    q, r = self.divmod(st, x, y)
                    return IV(bits, q if op == 'sdiv' else r, True)
                q = z3.If(x >= 0, x / y, -((-x) / y))
                return IV(bits, q if op == 'sdiv' else x - q * y, True)
            if not isinstance(y, int): self.oblige(st, y != 0, 'no-division-by-zero', inst)
            if quick_valid(st, zi(x) >= 0) and quick_valid(st, zi(y) > 0):
                q, r = self.divmod(st, x, y)
                return IV(bits, q if op == 'sdiv' else r, True)
            raise Unsupported('signed division by a variable')
        if op in ('shl', 'lshr', 'ashr'):
            k = b.e
            if not isinstance(k, int): raise Unsupported('variable shift')
            if op == 'shl':
                if 'nsw' in fl: return IV(bits, mul(self.S(st, a), 1 << k), True)
                return IV(bits, self.wrapu(st, mul(self.U(st, a), 1 << k), bits))
            if op == 'lshr':
                x = self.U(st, a)
                if isinstance(x, int): return IV(bits, x >> k)
                r = zi(x) / (1 << k); self.scale_fact(st, x, 1 << k, r)
                return IV(bits, r)
            x = self.S(st, a)
            return IV(bits, x >> k if isinstance(x, int) else zi(x) / (1 << k), True)
        x, y = self.U(st, a), self.U(st, b)
        if isinstance(x, int) and isinstance(y, int):
            return IV(bits, {'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        M = (1 << bits) - 1
        if isinstance(x, int): x, y = y, x
        if isinstance(y, int):
            if y == 0: return IV(bits, 0 if op == 'and' else x)
            if op == 'and':
                if (y & (y + 1)) == 0: return IV(bits, x % (y + 1))
                if (y & (y - 1)) == 0: return IV(bits, ((x / y) % 2) * y)
            if op == 'xor' and y == M: return IV(bits, M - x)
            if y == M: return IV(bits, x if op == 'and' else M)
        return IV(bits, self.bitfn(st, op, x, y, bits))

    def bitfn(self, st, op, x, y, bits):
        f = z3.Function('bv_%s' % op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(zi(x), zi(y))
        st.assume(z3.And(r >= 0, r < (1 << bits)))
        SYM_RANGE['bv_%s' % op] = (0, None)
        if op == 'xor':
            # algebra of xor (definitional facts, instantiated)
            st.assume(r == f(zi(y), zi(x)))
            for (p, q) in ((x, y), (y, x)):
                if isinstance(p, int) and p == 0: st.assume(r == zi(q))
            for (p, q) in ((zi(x), zi(y)), (zi(y), zi(x))):
                st.assume(f(p, r) == q)      # p ^ (p ^ q) = q
                st.assume(f(r, p) == q)
            if zi(x).eq(zi(y)): st.assume(r == 0)
        return r

    def divmod(self, st, x, y):
        if isinstance(y, int):
            if isinstance(x, int): return x // y, x % y
            l = lin(x)
            # exact parts
            if all(c % y == 0 for c, _ in l[1].values()):
                q = unlin([l[0] // y, {k: [c // y, t] for k, (c, t) in l[1].items()}])
                return q, l[0] % y
            lo, hi = bounds(x)
            if lo is not None and hi is not None and 0 <= lo and hi < y: return 0, x
            if quick_valid(st, z3.And(x >= 0, x < y)): return 0, x
            # pull out multiples of y
            mult = {k: v for k, v in l[1].items() if v[0] % y == 0}
            if mult:
                rest = {k: v for k, v in l[1].items() if v[0] % y != 0}
                re_ = unlin([l[0], rest])
                qm = unlin([0, {k: [c // y, t] for k, (c, t) in mult.items()}])
                q, r = self.divmod(st, re_, y)
                return add(qm, q), r
            return x / y, x % y
        # variable divisor: introduce quotient and remainder
        x = zi(x)
        key = ('divmod', x.get_id(), y.get_id())
        c = st.ghost.get(key)
        if c is not None and c[2] is x and c[3] is y: return c[0], c[1]
        # the same quotient already named (quotient and remainder are unique)
        same = [v for k, v in st.ghost.items() if isinstance(k, tuple) and k and k[0] == 'divmod' and v[3].eq(y)]
        for v in same[:4]:
            if quick_valid(st, z3.And(v[2] == x, y > 0)): return v[0], v[1]
        # syntactic exact product?
        q = fresh_int('quo', 0); r = fresh_int('rem', 0)
        # polynomial recognition: x = y*t + s with s < y known
        l = lin(x); ly = y
        qs = []; rest = {}
        for k, (cf, t) in l[1].items():
            fac = self._factor(t, y)
            if fac is not None: qs.append(mul(fac, cf))
            else: rest[k] = [cf, t]
        if qs:
            s = unlin([l[0], rest])
            if quick_valid(st, z3.And(zi(s) >= 0, zi(s) < y)):
                qq = 0
                for z in qs: qq = add(qq, z)
                return qq, s
        st.assume(z3.And(x == q * y + r, r >= 0, r < y, q >= 0, q <= x, z3.Implies(x >= 0, r <= x)))
        st.assume(z3.Implies(x < y, z3.And(q == 0, r == x)))
        st.assume(z3.Implies(x >= y, q >= 1))
        st.ghost[key] = (q, r, x, y)
        return q, r

    def scale_fact(self, st, x, M, r):
        """floor(u*v/M) < v when 0<=u<M, v>0 (arithmetic fact about products, for the solver)"""
        l = lin(x)
        if l[0] != 0 or len(l[1]) != 1: return
        c, t = next(iter(l[1].values()))
        if c != 1 or t.decl().kind() != z3.Z3_OP_MUL: return
        ch = t.children()
        if len(ch) != 2: return
        for u, v in ((ch[0], ch[1]), (ch[1], ch[0])):
            lo, hi = bounds(u)
            if lo is not None and hi is not None and lo >= 0 and hi < M:
                st.assume(z3.Implies(v > 0, z3.And(r >= 0, r < v))); st.assume(z3.Implies(v == 0, r == 0))
    def _factor(self, t, y):
        if t.eq(y): return 1
        if t.decl().kind() == z3.Z3_OP_MUL:
            ch = list(t.children())
            for i, c in enumerate(ch):
                if c.eq(y):
                    o = ch[:i] + ch[i+1:]
                    e = o[0]
                    for z in o[1:]: e = e * z
                    return e
        return None

    def tob(self, v):
        """i1 value -> python bool / z3 Bool"""
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return v
        if isinstance(v, int): return bool(v)
        if isinstance(v, IV):
            if v.b is not None: return v.b
            if isinstance(v.e, int): return v.e % 2 != 0
            return zi(v.e) % 2 != 0
        if v is UNDEF: return fresh_bool('undef')
        raise Unsupported('bool expected: %r' % (v,))

    def icmp(self, st, inst, a, b):
        p = inst.x['pred']; ty = self.m.resolve(inst.ty)
        if a is UNDEF: a = self.undef(st, ty)
        if b is UNDEF: b = self.undef(st, ty)
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, IV) and a.e == 0: a = NULL
            if isinstance(b, IV) and b.e == 0: b = NULL
            return self.pcmp(st, p, a, b)
        if ty == ('i', 1):
            A, B = self.tob(a), self.tob(b)
            if p == 'eq': return cheap(simp(zi(A) == zi(B)))
            if p == 'ne': return cheap(simp(zi(A) != zi(B)))
            raise Unsupported('i1 compare')
        if p in ('eq', 'ne'):
            if isinstance(a, IV) and isinstance(b, IV) and a.sg and b.sg: x, y = a.e, b.e
            elif isinstance(a, IV) and isinstance(b, IV) and isinstance(b.e, int) and a.sg: x, y = a.e, self.S(st, b)
            elif isinstance(a, IV) and isinstance(b, IV) and isinstance(a.e, int) and b.sg: x, y = self.S(st, a), b.e
            else: x, y = self.U(st, a), self.U(st, b)
            if isinstance(b, IV) and isinstance(y, int) and a.b is not None and y in (0, 1):
                r = a.b if y == 1 else cheap(simp(z3.Not(zi(a.b))))
                return r if p == 'eq' else cheap(simp(z3.Not(zi(r))))
        elif p[0] == 'u': x, y = self.U(st, a), self.U(st, b)
        else: x, y = self.S(st, a), self.S(st, b)
        return self.cmp(p.lstrip('us') if p not in ('eq', 'ne') else p, x, y)
    def cmp(self, p, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        d = sub(x, y)
        if isinstance(d, int): return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p]
        x, y = zi(x), zi(y)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
    def pcmp(self, st, p, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if p not in ('eq', 'ne'): raise Unsupported('fn compare')
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return e if p == 'eq' else not e
        a = self.dealias(st, a); b = self.dealias(st, b)
        if a.rid is None or b.rid is None:
            if p not in ('eq', 'ne'): raise Unsupported('null ordering')
            if a.rid is None and b.rid is None: r = True
            else: r = (b if a.rid is None else a).null
            if isinstance(r, bool): return r if p == 'eq' else not r
            return r if p == 'eq' else z3.Not(r)
        if a.rid != b.rid:
            if p in ('eq', 'ne'): return p == 'ne'
            raise Unsupported('ordering of unrelated pointers')
        if a.row is not None or b.row is not None:
            same = zi(a.row) == zi(b.row) if a.row is not None and b.row is not None else None
            if same is None: raise Unsupported('row compare')
            if not quick_valid(st, same):
                if p == 'eq': return z3.And(same, zi(a.off) == zi(b.off))
                if p == 'ne': return z3.Not(z3.And(same, zi(a.off) == zi(b.off)))
                raise Unsupported('row compare')
        q = {'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}.get(p, p)
        return self.cmp(q, a.off, b.off)

    # ------------------------------------------------------------ reals
    def R(self, v):
        if isinstance(v, FV): v = v.e
        if isinstance(v, fractions.Fraction): return v
        return v
    def fbin(self, st, inst, a, b):
        if a is UNDEF: a = self.undef(st, inst.ty)
        if b is UNDEF: b = self.undef(st, inst.ty)
        x, y = a.e, b.e
        op = inst.op
        if isinstance(x, fractions.Fraction) and isinstance(y, fractions.Fraction):
            if op == 'fdiv' and y == 0: raise Unsupported('division of doubles by zero')
            return FV({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]())
        x, y = zi(x), zi(y)
        if op == 'fdiv':
            self.oblige(st, y != 0, 'double-division-defined', inst)
        return FV({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]())
    def fcmp(self, p, a, b):
        q = p[1:]
        x, y = a.e, b.e
        if p in ('ord', 'uno'): return p == 'ord'
        if isinstance(x, fractions.Fraction) and isinstance(y, fractions.Fraction):
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]
        x, y = zi(x), zi(y)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]

    # ------------------------------------------------------------ pointers & memory
    def dealias(self, st, p):
        while p.rid in st.alias:
            rid, row = st.alias[p.rid]
            p = Ptr(rid, p.off, row, p.null)
        return p

    def region(self, st, p, size, inst=None, write=False, what='access'):
        """checks validity of [p, p+size) and returns (region, ptr)"""
        if not isinstance(p, Ptr): raise Unsupported('not a data pointer: %r' % (p,))
        p = self.dealias(st, p)
        if p.rid is None:
            self.oblige(st, False, 'no-null-dereference', inst); return None, p
        if p.null is not False:
            self.oblige(st, z3.Not(zi(p.null)), 'no-null-dereference', inst)
        r = st.mem.get(p.rid)
        if r is None or not r.alive:
            self.oblige(st, False, 'no-use-after-free', inst); return None, p
        sz = r.size
        if p.row is not None and r.rowlen is not None: sz = z3.Select(r.rowlen, zi(p.row))
        if sz is not None:
            end = add(p.off, size); lo = 0
            if r.x.get('mixed'):
                # an array member of an object: the access must stay inside that member
                off = p.off if isinstance(p.off, int) else simp(p.off)
                si = self.find_lane_seg(st, r, off)
                if si is None and not isinstance(off, int):
                    raise Unsupported('symbolic index into %s' % r.name)
                if si is not None: lo = r.segs[si].base; sz = lo + r.segs[si].blen
            ok = True
            if isinstance(p.off, int) and isinstance(end, int) and isinstance(sz, int):
                ok = lo <= p.off and end <= sz
                if size == 0: ok = True
            else:
                c1 = self.cmp('ge', p.off, lo); c2 = self.cmp('le', end, sz)
                ok = cheap(c1 if c2 is True else c2 if c1 is True else z3.And(zi(c1), zi(c2)))
                if size is not None and not isinstance(size, int): ok = z3.Or(zi(size) == 0, zi(ok))
            self.oblige(st, ok, 'in-bounds-' + ('write' if write else 'read'), inst)
        if write and r.ro: self.oblige(st, False, 'frame-' + r.name, inst)
        return r, p

    def find_lane_seg(self, st, r, off):
        """segment containing byte offset `off` -> (seg index) or None"""
        if isinstance(off, int):
            for i, s in enumerate(r.segs):
                if s.blen is None or not isinstance(s.blen, int):
                    if off >= s.base: return i
                elif s.base <= off < s.base + s.blen: return i
            return None
        if r.x.get('mixed'):
            c = lin(off)[0]
            cand = sorted(range(len(r.segs)), key=lambda i: not (r.segs[i].base <= c < r.segs[i].base + r.segs[i].blen))
            for i in cand:
                g = r.segs[i]
                if quick_valid(st, z3.And(zi(off) >= g.base, zi(off) <= g.base + g.blen)): return i
            for i in cand[:1]:
                if r.segs[i].base <= c < r.segs[i].base + r.segs[i].blen: return i
            return None
        if len(r.segs) == 1: return 0
        if not r.segs: return None
        c = lin(off)[0]
        for i, s in enumerate(r.segs):
            if isinstance(s.blen, int) and s.base <= c < s.base + s.blen: return i
            if not isinstance(s.blen, int) and c >= s.base: return i
        return None

    def lane_index(self, st, seg, off):
        l = lin(sub(off, seg.base)); S = seg.stride
        if S == 1: return unlin(l), 0
        if all(c % S == 0 for c, _ in l[1].values()):
            return unlin([l[0] // S, {k: [c // S, t] for k, (c, t) in l[1].items()}]), l[0] % S
        # try to find constant remainder with the solver
        e = unlin(l)
        for rmd in sorted({k[0] for k in seg.lanes}):
            if quick_valid(st, zi(e) % S == rmd):
                q = fresh_int('idx'); st.assume(q * S + rmd == e)
                return q, rmd
        raise Unsupported('offset %s not aligned to elements of %d bytes' % (e, S))

    def rd_lane(self, st, r, lane, idx, row):
        zidx = zi(idx)
        if lane.kind == 'ptr':
            a = lane.offs
            off = cheap(z3.simplify(z3.Select(a, zidx))) if a is not None and lane.unit else 0
            if isinstance(off, z3.ExprRef):
                self.instantiate(st, a, zidx)
                if quick_valid(st, off == 0): off = 0
            if lane.unit > 1: off = mul(off, lane.unit)
            nl = cheap(z3.simplify(z3.Select(lane.nulls, zidx)))
            if lane.tgt is None:
                return NULL
            return Ptr(lane.tgt, off, zidx if lane.mode == 'fam' else None, nl)
        a = lane.a
        if row is not None: a = z3.Select(a, zi(row))
        e = self.select(a, zidx)
        if isinstance(e, z3.ExprRef): self.instantiate(st, a, zidx)
        if isinstance(e, z3.ExprRef) and lane.size in (1, 2, 4, 8):
            st.assume(z3.And(e >= 0, e < (1 << (8 * lane.size))))
        if lane.size in (1, 2, 4, 8): return IV(8 * lane.size, e)
        return Blob(lane.size, e)

    def instantiate(self, st, a, idx):
        """instances at idx of the universally quantified facts about array a (helps the quantifier-free quick solver)"""
        roots = [a]
        x = a
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE: x = x.children()[0]; roots.append(x)
        seen = st.ghost.get(('inst',), frozenset())
        new = []
        for f in st.facts:
            if not z3.is_quantifier(f) or not f.is_forall() or f.num_vars() != 1 or f.num_patterns() == 0: continue
            p = f.pattern(0).children()[0]
            if p.decl().kind() != z3.Z3_OP_SELECT: continue
            pa, pi = p.children()
            if not z3.is_var(pi): continue
            if not any(pa.eq(r) for r in roots): continue
            key = (f.get_id(), idx.get_id())
            if key in seen: continue
            seen = seen | {key}; self._keep.append((f, idx))
            new.append(z3.substitute_vars(f.body(), idx))
        if new:
            st.ghost[('inst',)] = seen
            for n in new: st.assume(n)
    _keep = []

    def select(self, a, idx):
        """select with store-chain shortcut"""
        x = a
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
            b, i, v = x.children()
            d = sub(i, idx)
            if isinstance(d, int):
                if d == 0: return cheap(v)
                x = b; continue
            break
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONST_ARRAY: return cheap(x.children()[0])
        return z3.Select(x, idx)

    def in_units(self, st, off, u):
        if u == 1: return off
        l = lin(off)
        if u == 0:
            if l[0] == 0 and not l[1]: return 0
            if quick_valid(st, zi(off) == 0): return 0
            raise Unsupported('first element pointer moved')
        if l[0] % u == 0 and all(c % u == 0 for c, _ in l[1].values()): return unlin([l[0] // u, {k: [c // u, t] for k, (c, t) in l[1].items()}])
        raise Unsupported('pointer to the middle of an element')
    def wr_lane(self, st, rid, si, key, idx, row, val):
        r = st.wr(rid); seg = r.segs[si]; lane = seg.lanes[key].copy(); seg.lanes[key] = lane
        zidx = zi(idx)
        if lane.kind == 'ptr':
            if isinstance(val, IV) and val.e == 0: val = NULL
            if not isinstance(val, Ptr): raise Unsupported('non-pointer stored in pointer lane')
            val = self.dealias(st, val)
            if val.rid is None:
                lane.nulls = z3.Store(lane.nulls, zidx, True); return
            if lane.mode == 'fam':
                fam = st.mem[lane.tgt]
                if val.rid == lane.tgt:
                    if not (isinstance(val.row, z3.ExprRef) and val.row.eq(zidx)) and not quick_valid(st, zi(val.row) == zidx): raise Unsupported('row pointer moved')
                    lane.offs = z3.Store(lane.offs, zidx, zi(self.in_units(st, val.off, lane.unit))); lane.nulls = z3.Store(lane.nulls, zidx, False)
                else:
                    self.adopt(st, val.rid, lane.tgt, zidx)
                    lane.offs = z3.Store(lane.offs, zidx, zi(self.in_units(st, val.off, lane.unit))); lane.nulls = z3.Store(lane.nulls, zidx, False)
                return
            if lane.tgt is None: lane.tgt = val.rid
            if lane.tgt != val.rid: raise Unsupported('pointer lane with several targets')
            lane.offs = z3.Store(lane.offs, zidx, zi(self.in_units(st, val.off, lane.unit))); lane.nulls = z3.Store(lane.nulls, zidx, False)
            return
        a = lane.a
        e = self.lane_val(st, lane, val)
        if row is not None:
            rr = z3.Select(a, zi(row)); lane.a = z3.Store(a, zi(row), z3.Store(rr, zidx, zi(e)))
        else: lane.a = z3.Store(a, zidx, zi(e))

    def store_raw(self, st, p, size, byte):
        """size bytes of the given value at p, whatever the lane width"""
        v = IV(8 * size, 0) if size <= 8 else self.rep(st, byte, size)
        self.write(st, st.mem[p.rid], p, size, v)
    def lane_val(self, st, lane, val):
        if val is UNDEF:
            v = fresh_int('undef', 0, (1 << (8 * lane.size)) - 1 if lane.size <= 8 else None)
            if lane.size <= 8: st.assume(z3.And(v >= 0, v < (1 << (8 * lane.size))))
            return v
        if isinstance(val, Blob):
            if val.size != lane.size: raise Unsupported('blob size mismatch')
            return val.e
        if isinstance(val, (bool, z3.BoolRef)): return z3.If(zi(val), z3.IntVal(1), z3.IntVal(0))
        if isinstance(val, IV): return self.U(st, val)
        if isinstance(val, FV): raise Unsupported('double in integer lane')
        raise Unsupported('value %r in lane' % (val,))

    def adopt(self, st, rid, fam, row):
        """the heap block `rid` becomes row `row` of the family region"""
        src = st.mem[rid]; dst = st.wr(fam)
        if not src.alive or not src.segs: raise Unsupported('adopting a non-array block')
        s = src.segs[0]; d = dst.segs[0]
        if s.stride != d.stride or set(s.lanes) != set(d.lanes): raise Unsupported('adopting a block of another layout')
        for k in s.lanes:
            l = d.lanes[k].copy(); d.lanes[k] = l
            l.a = z3.Store(l.a, row, s.lanes[k].a)
        dst.rowlen = z3.Store(dst.rowlen, row, zi(src.size))
        st.alias[rid] = (fam, row)

    # ---- typed load/store
    def load(self, st, p, ty, inst=None):
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            offs, sz = self.m.struct_layout(ty)
            return Agg([self.load(st, p.at(o), t, inst) for o, t in zip(offs, ty[2])])
        if ty[0] == 'arr':
            es = self.m.size(ty[2])
            return Agg([self.load(st, p.at(i * es), ty[2], inst) for i in range(ty[1])])
        size = self.m.size(ty)
        r, p = self.region(st, p, size, inst)
        if r is None: return self.undef(st, ty)
        v = self.read(st, r, p, size, ty)
        return self.conv(st, v, ty)

    def conv(self, st, v, ty):
        """raw memory value -> value of IR type"""
        k = ty[0]
        if v is UNDEF: return self.undef(st, ty)
        if k == 'i':
            n = ty[1]
            if n == 1: return self.tob(v)
            if isinstance(v, (Ptr,)): return PInt(v)
            if isinstance(v, FV): raise Unsupported('double bits as integer')
            if isinstance(v, Blob):
                if v.size <= 8: return IV(n, v.e)
                raise Unsupported('blob as integer')
            if isinstance(v, (bool, z3.BoolRef)): return IV(n, z3.If(v, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, z3.BoolRef) else int(v), b=v)
            return v
        if k == 'ptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, IV):
                if isinstance(v.e, int) and v.e == 0: return NULL
                raise Unsupported('integer as pointer')
            return v
        if k in ('double', 'float'):
            if isinstance(v, FV): return v
            if isinstance(v, IV) and isinstance(v.e, int) and v.e == 0: return FV(fractions.Fraction(0))
            raise Unsupported('integer bits as double')
        raise Unsupported('load of type %r' % (ty,))

    def lazyval(self, st, r, off, size, ty):
        key = (off, size)
        if key in r.lazy: return r.lazy[key]
        k = ty[0] if ty else 'i'
        if k == 'i' and size <= 8:
            v = fresh_int('%s_%d' % (r.name, off), 0, (1 << (8 * size)) - 1)
            val = IV(8 * size, v)
            r.lazy[key] = val
            return val
        if k in ('double',):
            val = FV(fresh_real('%s_%d' % (r.name, off))); r.lazy[key] = val; return val
        if k == 'ptr' and r.x.get('lazyptr'):
            # a reference or pointer member of an arbitrary object: an arbitrary object of its own
            q = self.new_region(st, '%s_%d' % (r.name, off), 1 << 20, 'input', {}); q.x['lazyptr'] = True
            val = Ptr(q.rid, 0); r.lazy[key] = val; return val
        raise Unsupported('unspecified input field %s+%d (%s)' % (r.name, off, k))

    def read(self, st, r, p, size, ty=None):
        off = p.off
        if not isinstance(off, int):
            o2 = simp(off)
            if isinstance(o2, int): off = o2
        si = self.find_lane_seg(st, r, off)
        if si is not None:
            seg = r.segs[si]
            idx, rem = self.lane_index(st, seg, off)
            lane = seg.lanes.get((rem, size))
            if lane is not None: return self.rd_lane(st, r, lane, idx, p.row)
            return self.read_multi(st, r, seg, idx, rem, size, p.row)
        if not isinstance(off, int):
            off = self.concretize(st, r, off, size)
        c = r.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        return self.read_cells(st, r, off, size, ty)

    def concretize(self, st, r, off, size):
        """symbolic offset into a structure: the solver must determine it"""
        s = z3.Solver(); s.set('timeout', 2000); s.add([f for f in st.facts if not hq(f)])
        if s.check() == z3.sat:
            v = s.model().eval(off, model_completion=True)
            if z3.is_int_value(v) and quick_valid(st, off == v): return v.as_long()
        raise Unsupported('symbolic index into %s' % r.name)

    def read_cells(self, st, r, off, size, ty):
        # covering larger cell?
        for o, (s, v) in r.cells.items():
            if o <= off and off + size <= o + s and s > size:
                return self.extract(st, v, off - o, size, s)
        # combination of smaller cells
        parts = []; o = off
        while o < off + size:
            c = r.cells.get(o)
            if c is None: break
            parts.append((o - off, c[0], c[1])); o += c[0]
        if o == off + size and parts:
            return self.combine(st, parts, size)
        if r.lazy is not None and not parts:
            ov = [o for o, (s, v) in r.cells.items() if o < off + size and off < o + s]
            if not ov:
                v = self.lazyval(st, r, off, size, ty)
                if isinstance(v, IV) and isinstance(v.e, z3.ExprRef): st.assume(z3.And(v.e >= 0, v.e < (1 << v.bits)))
                r2 = st.wr(r.rid); r2.cells[off] = (size, v)
                return v
        if parts or any(o < off + size and off < o + s for o, (s, v) in r.cells.items()):
            # partially initialised: fill the gaps with arbitrary bytes
            if size <= 8:
                ps = []; o = off
                while o < off + size:
                    c = r.cells.get(o)
                    if c is not None and o + c[0] <= off + size: ps.append((o - off, c[0], c[1])); o += c[0]
                    else:
                        b = fresh_int('undefb', 0, 255); st.assume(z3.And(b >= 0, b < 256)); ps.append((o - off, 1, IV(8, b))); o += 1
                return self.combine(st, ps, size)
            raise Unsupported('partially initialised read of %s+%d' % (r.name, off))
        return UNDEF

    def extract(self, st, v, o, size, total):
        if v is UNDEF: return UNDEF
        if isinstance(v, IV):
            if v.parts:
                for po, ps, pv in v.parts:
                    if po == o and ps == size: return pv
                    if po <= o and o + size <= po + ps: return self.extract(st, pv, o - po, size, ps)
                sub_ = [(po - o, ps, pv) for po, ps, pv in v.parts if o <= po and po + ps <= o + size]
                if sub_ and sum(x[1] for x in sub_) == size: return self.combine(st, sub_, size)
            u = self.U(st, v)
            if isinstance(u, int): return IV(8 * size, (u >> (8 * o)) & ((1 << (8 * size)) - 1))
            e = u if o == 0 else u / (1 << (8 * o))
            return IV(8 * size, e % (1 << (8 * size)) if o + size < total else e)
        if isinstance(v, Blob):
            if isinstance(v.e, int) and v.e == 0: return IV(8 * size, 0) if size <= 8 else Blob(size, 0)
            if z3.is_app(v.e) and v.e.decl().name() == 'blobfill%d' % v.size: return self.rep(st, cheap(v.e.arg(0)), size)
            f = z3.Function('blob%d_%d_%d' % (v.size, o, size), z3.IntSort(), z3.IntSort())
            e = f(zi(v.e))
            if size <= 8: st.assume(z3.And(e >= 0, e < (1 << (8 * size)))); return IV(8 * size, e)
            return Blob(size, e)
        raise Unsupported('part of %r' % (v,))

    def combine(self, st, parts, size):
        if len(parts) == 1 and parts[0][1] == size: return parts[0][2]
        if all(isinstance(x[2], IV) for x in parts):
            if size <= 16:
                e = 0
                for o, s, v in parts: e = add(e, mul(self.U(st, v), 1 << (8 * o)))
                return IV(8 * size, e, parts=list(parts))
            if all(isinstance(x[2].e, int) and x[2].e == 0 for x in parts): return Blob(size, 0)
        if all(v is UNDEF for _, _, v in parts): return UNDEF
        raise Unsupported('combining %r' % (parts,))

    def read_multi(self, st, r, seg, idx, rem, size, row):
        # several lanes, or part of a lane, or several elements
        for (o, s), lane in seg.lanes.items():
            if o <= rem and rem + size <= o + s:
                return self.extract(st, self.rd_lane(st, r, lane, idx, row), rem - o, size, s)
        parts = []; o = 0; cur = rem; ii = idx
        while o < size:
            hit = None
            for (lo, ls), lane in seg.lanes.items():
                if lo == cur: hit = (lo, ls, lane)
            if hit is None: raise Unsupported('unaligned read in %s (offset %d, %d bytes)' % (r.name, rem, size))
            parts.append((o, hit[1], self.rd_lane(st, r, hit[2], ii, row)))
            o += hit[1]; cur += hit[1]
            if cur >= seg.stride: cur = 0; ii = add(ii, 1)
        if o != size: raise Unsupported('unaligned read in %s' % r.name)
        return self.combine(st, parts, size)

    def store(self, st, p, ty, val, inst=None):
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            offs, sz = self.m.struct_layout(ty)
            vs = val.v if isinstance(val, Agg) else [self.zero(t) if val is not UNDEF else UNDEF for t in ty[2]]
            for o, t, v in zip(offs, ty[2], vs): self.store(st, p.at(o), t, v, inst)
            return
        if ty[0] == 'arr':
            es = self.m.size(ty[2])
            for i, v in enumerate(val.v): self.store(st, p.at(i * es), ty[2], v, inst)
            return
        size = self.m.size(ty)
        r, p = self.region(st, p, size, inst, write=True)
        if r is None: return
        if ty == ('i', 1): val = self.b2iv(val, 8)
        self.write(st, r, p, size, val)

    def b2iv(self, v, bits):
        b = self.tob(v)
        if isinstance(b, bool): return IV(bits, int(b), b=b)
        return IV(bits, z3.If(b, z3.IntVal(1), z3.IntVal(0)), b=b)

    def write(self, st, r, p, size, val):
        off = p.off
        if not isinstance(off, int):
            o2 = simp(off)
            if isinstance(o2, int): off = o2
        si = self.find_lane_seg(st, r, off)
        if si is not None:
            seg = r.segs[si]
            idx, rem = self.lane_index(st, seg, off)
            if (rem, size) in seg.lanes:
                self.wr_lane(st, r.rid, si, (rem, size), idx, p.row, val); return
            self.write_multi(st, r, si, idx, rem, size, val, p.row); return
        if not isinstance(off, int): off = self.concretize(st, r, off, size)
        r = st.wr(r.rid)
        self.put_cell(st, r, off, size, val)

    def put_cell(self, st, r, off, size, val):
        c = r.cells.get(off)
        if c is not None and c[0] == size: r.cells[off] = (size, val); return
        for o in [o for o, (s, v) in r.cells.items() if o < off + size and off < o + s]:
            s, v = r.cells.pop(o)
            # keep the non-overlapped parts
            if o < off: r.cells[o] = (off - o, self.extract(st, v, 0, off - o, s) if not isinstance(v, (Ptr, FV, FnPtr)) else UNDEF)
            if o + s > off + size:
                r.cells[off + size] = (o + s - off - size, self.extract(st, v, off + size - o, o + s - off - size, s) if not isinstance(v, (Ptr, FV, FnPtr)) else UNDEF)
        r.cells[off] = (size, val)

    def write_multi(self, st, r, si, idx, rem, size, val, row):
        seg = r.segs[si]
        for (o, s), lane in seg.lanes.items():
            if o <= rem and rem + size <= o + s and s > size:
                raise Unsupported('partial write into a %d-byte field of %s' % (s, r.name))
        pieces = []; o = 0; cur = rem; ii = idx
        while o < size:
            hit = None
            for (lo, ls) in seg.lanes:
                if lo == cur: hit = (lo, ls)
            if hit is None: raise Unsupported('unaligned write in %s' % r.name)
            pieces.append((o, hit, ii)); o += hit[1]; cur += hit[1]
            if cur >= seg.stride: cur = 0; ii = add(ii, 1)
        if o != size: raise Unsupported('unaligned write in %s' % r.name)
        for o, key, ii in pieces:
            self.wr_lane(st, r.rid, si, key, ii, row, self.extract(st, val, o, key[1], size))

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i': return False if ty[1] == 1 else IV(ty[1], 0)
        if ty[0] == 'ptr': return NULL
        if ty[0] in ('double', 'float'): return FV(fractions.Fraction(0))
        if ty[0] == 'struct': return Agg([self.zero(t) for t in ty[2]])
        if ty[0] == 'arr': return Agg([self.zero(ty[2]) for _ in range(ty[1])])
        raise Unsupported('zero of %r' % (ty,))

    # ---- block operations
    def pieces(self, st, r, p, n):
        """natural field boundaries of [p, p+n) in region r: list of (rel offset, size) or None"""
        off = p.off if isinstance(p.off, int) else simp(p.off)
        si = self.find_lane_seg(st, r, off)
        if si is not None:
            seg = r.segs[si]
            idx, rem = self.lane_index(st, seg, off)
            out = []; o = 0; cur = rem
            ks = {lo: ls for (lo, ls) in seg.lanes}
            while o < n:
                if cur not in ks: return None
                out.append((o, ks[cur])); o += ks[cur]; cur += ks[cur]
                if cur >= seg.stride: cur = 0
            return out if o == n else None
        if not isinstance(off, int): return None
        out = []; o = 0
        keys = sorted(r.cells)
        while o < n:
            c = r.cells.get(off + o)
            if c is not None and o + c[0] <= n: out.append((o, c[0])); o += c[0]
            else:
                nxt = [k - off for k in keys if k > off + o]
                e = min([n] + nxt)
                # gap: unknown structure
                out.append((o, e - o, 'gap')); o = e
        return out

    def memcpy(self, st, d, s, n, inst=None, move=False):
        nv = self.U(st, n) if isinstance(n, IV) else n
        if isinstance(nv, z3.ExprRef): nv = simp(nv)
        if isinstance(nv, int) and nv == 0: return
        if isinstance(nv, z3.ExprRef) and isinstance(d, Ptr) and isinstance(s, Ptr):
            pass
        rs, s = self.region(st, s, nv, inst)
        rd, d = self.region(st, d, nv, inst, write=True)
        if rs is None or rd is None: return
        if isinstance(nv, int) and nv > 8:
            a, b = self.byteseg(st, rd, d), self.byteseg(st, rs, s)
            if a and b: return self.arr_copy(st, rd, d, rs, s, nv, inst)
        if isinstance(nv, int) and nv <= 4096:
            pd = self.pieces(st, rd, d, nv); ps = self.pieces(st, rs, s, nv)
            dgap = pd is None or any(len(x) == 3 for x in pd)
            d_is_seg = self.find_lane_seg(st, rd, d.off if isinstance(d.off, int) else simp(d.off)) is not None
            pl = None
            if d_is_seg and pd is not None: pl = pd
            elif ps is not None and not any(len(x) == 3 for x in ps): pl = ps
            elif ps is not None and rs.lazy is not None and pd is not None and not dgap: pl = pd
            elif ps is not None and rs.lazy is not None:
                pl = []
                for x in ps:
                    if len(x) == 2: pl.append(x); continue
                    o = x[0]
                    lay = rs.x.get('layout')
                    e = x[0] + x[1]
                    while o < e:
                        w = None
                        if lay:
                            for (lo, ls) in lay:
                                if isinstance(s.off, int) and lo == s.off + o and o + ls <= e: w = ls
                        if w is None and self.gap_unit and e - o >= self.gap_unit: w = self.gap_unit
                        if w is None:
                            w = 8 if (e - o) >= 8 else 4 if (e - o) >= 4 else 1
                        pl.append((o, w)); o += w
            elif ps is not None:
                pl = [x[:2] for x in ps]
            if pl is None: raise Unsupported('memcpy of unaligned data %s -> %s' % (rs.name, rd.name))
            if d_is_seg and ps is not None and rs.segs == [] and not any(len(x) == 3 for x in ps):
                pass
            vals = [(o, z, self.read(st, st.mem[rs.rid], s.at(o), z)) for o, z in pl]
            for o, z, v in vals:
                self.write(st, st.mem[rd.rid], d.at(o), z, v)
            return
        self.arr_copy(st, rd, d, rs, s, nv, inst)

    def byteseg(self, st, r, p):
        si = self.find_lane_seg(st, r, p.off if isinstance(p.off, int) else simp(p.off))
        return si is not None and r.segs[si].stride == 1 and set(r.segs[si].lanes) == {(0, 1)}
    def arr_copy(self, st, rd, d, rs, s, nv, inst):
        """copy of a symbolic number of bytes between array segments of the same layout"""
        sd = self.find_lane_seg(st, rd, d.off); ss = self.find_lane_seg(st, rs, s.off)
        if sd is None or ss is None: raise Unsupported('memcpy of symbolic size on structures')
        gd, gs = rd.segs[sd], rs.segs[ss]
        if gd.stride != gs.stride or set(gd.lanes) != set(gs.lanes): raise Unsupported('memcpy between different layouts')
        S = gd.stride
        i0, r0 = self.lane_index(st, gd, d.off); j0, r1 = self.lane_index(st, gs, s.off)
        if r0 or r1: raise Unsupported('memcpy not aligned to elements')
        cnt, rem = (nv, 0) if S == 1 else self.divmod(st, nv, S)
        if not (isinstance(rem, int) and rem == 0): raise Unsupported('memcpy of partial elements')
        for key in gd.lanes:
            ls = gs.lanes[key]
            if ls.kind != 'int': raise Unsupported('memcpy of pointers of symbolic count')
            src = ls.a if s.row is None else z3.Select(ls.a, zi(s.row))
            r = st.wr(rd.rid); lane = r.segs[sd].lanes[key].copy(); r.segs[sd].lanes[key] = lane
            old = lane.a if d.row is None else z3.Select(lane.a, zi(d.row))
            lo, hi = (0, (1 << (8 * key[1])) - 1) if key[1] <= 8 else (None, None)
            new = fresh_arr('cpy', lo, hi)
            k = z3.Int('k!cp')
            cond = z3.And(zi(i0) <= k, k < zi(add(i0, cnt)))
            body = z3.Select(new, k) == z3.If(cond, z3.Select(src, zi(add(sub(k, i0), j0))), z3.Select(old, k))
            st.assume(z3.ForAll([k], body, patterns=[z3.Select(new, k)]))
            lane.a = new if d.row is None else z3.Store(lane.a, zi(d.row), new)

    def memset(self, st, d, byte, n, inst=None):
        nv = self.U(st, n) if isinstance(n, IV) else n
        if isinstance(nv, z3.ExprRef): nv = simp(nv)
        if isinstance(nv, int) and nv == 0: return
        r, d = self.region(st, d, nv, inst, write=True)
        if r is None: return
        b = self.U(st, byte)
        si = self.find_lane_seg(st, r, d.off)
        if si is None:
            if not isinstance(nv, int) or not isinstance(d.off, int): raise Unsupported('memset of symbolic size on structure')
            pl = self.pieces(st, r, d, nv)
            out = []
            for x in pl:
                if len(x) == 2: out.append(x); continue
                o, e = x[0], x[0] + x[1]
                lay = r.x.get('layout')
                while o < e:
                    w = None
                    if lay:
                        for (lo, ls) in lay:
                            if lo == d.off + o and o + ls <= e: w = ls
                    if w is None and self.gap_unit and e - o >= self.gap_unit: w = self.gap_unit
                    if w is None: w = 8 if e - o >= 8 and o % 8 == 0 else 4 if e - o >= 4 and o % 4 == 0 else 1
                    out.append((o, w)); o += w
            if len(out) > 4096: raise Unsupported('large memset')
            for o, z in out:
                self.write(st, st.mem[r.rid], d.at(o), z, self.rep(st, b, z))
            return
        seg = r.segs[si]
        idx, rem = self.lane_index(st, seg, d.off)
        if isinstance(nv, int) and nv <= 4096:
            pl = self.pieces(st, r, d, nv)
            if pl is None: raise Unsupported('unaligned memset')
            if len(pl) <= 64:
                for o, z in pl: self.write(st, st.mem[r.rid], d.at(o), z, self.rep(st, b, z))
                return
        cnt, rm = (nv, 0) if seg.stride == 1 else self.divmod(st, nv, seg.stride)
        if rem or not (isinstance(rm, int) and rm == 0): raise Unsupported('memset not aligned to elements')
        r = st.wr(r.rid); seg = r.segs[si]
        whole = isinstance(idx, int) and idx == 0 and d.row is None and seg.base == 0 and len(r.segs) == 1 and (r.size is nv or quick_valid(st, zi(r.size) == zi(nv)))
        for key in list(seg.lanes):
            lane = seg.lanes[key].copy(); seg.lanes[key] = lane
            if lane.kind == 'ptr':
                if not (isinstance(b, int) and b == 0): raise Unsupported('memset pointers')
                if whole: lane.nulls = z3.K(z3.IntSort(), z3.BoolVal(True)); continue
                raise Unsupported('partial memset of pointers')
            v = self.rep(st, b, key[1])
            ve = zi(self.U(st, v) if isinstance(v, IV) else v.e)
            if whole: lane.a = z3.K(z3.IntSort(), ve); continue
            old = lane.a if d.row is None else z3.Select(lane.a, zi(d.row))
            lo, hi = (0, (1 << (8 * key[1])) - 1) if key[1] <= 8 else (None, None)
            new = fresh_arr('set', lo, hi); k = z3.Int('k!ms')
            st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(zi(idx) <= k, k < zi(add(idx, cnt))), ve, z3.Select(old, k)), patterns=[z3.Select(new, k)]))
            lane.a = new if d.row is None else z3.Store(lane.a, zi(d.row), new)

    def rep(self, st, b, size):
        if isinstance(b, int):
            if size <= 8: return IV(8 * size, sum(b << (8 * i) for i in range(size)))
            if b == 0: return Blob(size, 0)
            return Blob(size, z3.Function('blobfill%d' % size, z3.IntSort(), z3.IntSort())(z3.IntVal(b)))
        if size <= 8: return IV(8 * size, mul(b, sum(1 << (8 * i) for i in range(size))))
        f = z3.Function('blobfill%d' % size, z3.IntSort(), z3.IntSort())
        st.assume(f(z3.IntVal(0)) == 0)
        return Blob(size, f(zi(b)))

    # ---- allocation helpers
    def array_seg(self, name, lanes, stride, zero=False, fam=False, blen=None, base=0, sym=True):
        """lanes: list of (off,size) or (off,size,'ptr',tgt,mode)"""
        d = {}
        for l in lanes:
            o, s = l[0], l[1]
            if len(l) > 2 and l[2] == 'ptr':
                ln = Lane('ptr', s, tgt=l[3], mode=l[4])
                if zero:
                    ln.offs = z3.K(z3.IntSort(), z3.IntVal(0)); ln.nulls = z3.K(z3.IntSort(), z3.BoolVal(True))
                else:
                    ln.offs = fresh_arr(name + '_offs', 0); ln.nulls = fresh_arr(name + '_null', sort=z3.BoolSort())
                d[(o, s)] = ln; continue
            lo, hi = (0, (1 << (8 * s)) - 1) if s <= 8 else (None, None)
            if zero: a = z3.K(z3.IntSort(), z3.IntVal(0))
            else: a = fresh_arr('%s_%d' % (name, o), lo, hi, dims=2 if fam else 1)
            if zero and fam: a = z3.K(z3.IntSort(), z3.K(z3.IntSort(), z3.IntVal(0)))
            d[(o, s)] = Lane('int', s, a)
        return Seg(base, stride, blen, d)

    def alloc_array(self, st, name, nbytes, stride, lanes, zero=False, kind='heap'):
        r = self.new_region(st, name, nbytes, kind)
        r.segs = [self.array_seg(name, lanes, stride, zero)]
        return r

    # ------------------------------------------------------------ evaluation of operands
    def val(self, st, fr, v, ty):
        k = v[0]
        if k == 'loc':
            if v[1] not in fr.regs: raise Unsupported('undefined register ' + v[1])
            return fr.regs[v[1]]
        t = self.m.resolve(ty) if ty[0] == 'named' else ty
        if k == 'int':
            if t == ('i', 1): return bool(v[1])
            return IV(t[1], v[1] % (1 << t[1]))
        if k == 'fp': return FV(fractions.Fraction(v[1])) if v[1] == v[1] and abs(v[1]) != float('inf') else FV(fresh_real('nonfinite'))
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(t)
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cgep':
            base = self.val(st, fr, v[2][0][1], v[2][0][0])
            return self.gep(st, v[1], base, [(tt, self.val(st, fr, vv, tt)) for tt, vv in v[2][1:]])
        if k == 'ccast':
            x = self.val(st, fr, v[3], v[2])
            if v[1] == 'bitcast': return x
            raise Unsupported('constant cast')
        if k == 'agg': return Agg([self.val(st, fr, vv, tt) for tt, vv in v[1]])
        raise Unsupported('operand %r' % (v,))

    def glob(self, st, name):
        if name in self.m.funcs or name in self.m.decls: return FnPtr(name)
        if name in st.globs: return Ptr(st.globs[name], 0)
        txt = self.m.globals.get(name)
        if txt is None: raise Unsupported('global ' + name)
        g = re.match(r'(?P<pre>.*?)\b(?P<k>global|constant)\b (?P<rest>.*)', txt)
        if not g: raise Unsupported('global ' + name)
        ts = ir.TS(ir.tokenize(re.sub(r', (comdat|align|section).*$', '', g.group('rest'))))
        ty = ir.parse_type(ts)
        try: size = self.m.size(ty)
        except Exception: size = None
        r = self.new_region(st, '@' + name, size, 'global')
        st.globs[name] = r.rid
        if not ts.eof():
            try: init = ir.parse_value(ts, ty)
            except ir.IRError: init = None
            if init and init[0] == 'str' and size is not None:
                s = init[1]; s = s[2:-1] if s.startswith('c"') else s[1:-1]
                bs = []; i = 0
                while i < len(s):
                    if s[i] == '\\': bs.append(int(s[i+1:i+3], 16)); i += 3
                    else: bs.append(ord(s[i])); i += 1
                for i, b in enumerate(bs): r.cells[i] = (1, IV(8, b))
            elif init and init[0] in ('int', 'zero', 'fp', 'null') and self.m.resolve(ty)[0] in ('i', 'ptr', 'double'):
                fr = Frame(None, ())
                v = self.val(st, fr, init, ty)
                if g.group('k') == 'global' and ty[0] == 'i' and not self.globals_init:
                    r.lazy = {}
                else: r.cells[0] = (size, self.b2iv(v, 8) if isinstance(v, bool) else v)
            elif init and init[0] == 'zero' and isinstance(size, int) and size <= 4096:
                for i in range(0, size): r.cells[i] = (1, IV(8, 0))
        return Ptr(r.rid, 0)
    globals_init = True

    def gep(self, st, ty, base, idx):
        if base is UNDEF: raise Unsupported('gep on uninitialised pointer')
        if isinstance(base, PInt): base = base.p
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        t0, v0 = idx[0]
        off = mul(self.S(st, v0), self.m.size(ty)) if not (isinstance(v0, IV) and v0.e == 0) else 0
        t = ty
        for (ti, vi) in idx[1:]:
            t = self.m.resolve(t)
            if t[0] == 'struct':
                i = vi.e; offs, _ = self.m.struct_layout(t)
                off = add(off, offs[i]); t = t[2][i]
            elif t[0] == 'arr':
                off = add(off, mul(self.S(st, vi), self.m.size(t[2]))); t = t[2]
            else: raise Unsupported('gep into %r' % (t,))
        if isinstance(off, int) and off == 0: return base
        return Ptr(base.rid, add(base.off, off), base.row, base.null)

    # ------------------------------------------------------------ functions
    def call_named(self, st, pattern, args, path=()):
        fs = self.m.find(pattern)
        if len(fs) != 1: raise Unsupported('function %s: %d definitions found' % (pattern, len(fs)))
        return self.run_function(st, fs[0], args, path)

    def run_function(self, st, f, args, path):
        """returns list of (state, value)"""
        self.tick()
        if len(path) > 60: raise Unsupported('call depth')
        if any(p == f.name for p in path): raise Unsupported('recursion in %s without a contract' % f.dem)
        self.m.body(f)
        self.functions[f.dem] = self.functions.get(f.dem, 0) + 1
        fr = Frame(f, path + (f.name,))
        if len(args) != len(f.params): raise Unsupported('arity of ' + f.dem)
        # implicit numbering of unnamed params
        for i, ((t, nm, at), a) in enumerate(zip(f.params, args)):
            nm = nm or '%%%d' % i
            if 'byval' in at:
                sz = self.m.size(at['byval'])
                r = self.new_region(st, 'byval', sz, 'stack'); fr.allocas.append(r.rid)
                self.memcpy(st, Ptr(r.rid, 0), a, sz)
                a = Ptr(r.rid, 0)
            fr.regs[nm] = a
        svf = getattr(self, 'curfn', None)
        outs = []
        for o in self.run_blocks(st, fr, f.entry, None, None):
            if o[0] != 'ret': raise Unsupported('control flow')
            s2, fr2, v = o[1], o[2], o[3]
            for rid in fr2.allocas: s2.mem.pop(rid, None)
            outs.append((s2, v))
        self.curfn = svf
        return outs

    def run_blocks(self, st, fr, blk, prev, loopctx):
        """Executes from blk. loopctx=(header, body) or None.
        outcomes: ('ret', st, fr, val) | ('back', st, fr, from) | ('exit', st, fr, from, to)"""
        outs = []
        work = [(st, fr, blk, prev, True)]
        first = True
        f = fr.fn
        L = ir.loops(f)
        while work:
            st, fr, blk, prev, isfirst = work.pop()
            if loopctx and not isfirst:
                if blk == loopctx[0]: outs.append(('back', st, fr, prev)); continue
            if loopctx and blk not in loopctx[1]:
                outs.append(('exit', st, fr, prev, blk)); continue
            if blk in L and not (loopctx and blk == loopctx[0]):
                for o in self.handle_loop(st, fr, blk, prev, L[blk]):
                    if o[0] == 'ret': outs.append(o)
                    else: work.append((o[1], o[2], o[4], o[3], False))
                continue
            for o in self.run_block(st, fr, blk, prev):
                if o[0] == 'ret': outs.append(o)
                else: work.append((o[1], o[2], o[3], blk, False))
        return outs

    def run_block(self, st, fr, blk, prev):
        """outcomes: ('ret', st, fr, v) | ('jmp', st, fr, target)"""
        self.tick()
        insts = fr.fn.blocks[blk]
        # phis first (parallel)
        i = 0; ph = []
        while i < len(insts) and insts[i].op == 'phi':
            x = insts[i]
            for v, b in x.x['inc']:
                if b == prev: ph.append((x.res, self.val(st, fr, v, x.ty))); break
            else: raise Unsupported('phi edge')
            i += 1
        for r, v in ph: fr.regs[r] = v
        states = [(st, fr)]
        work = [(st, fr, i)]
        outs = []
        while work:
            st, fr, i = work.pop()
            while True:
                x = insts[i]
                self.cur = x; self.curfn = fr.fn
                op = x.op
                if op in ('call', 'invoke'):
                    res = self.do_call(st, fr, x)
                    self.curfn = fr.fn; self.cur = x
                    if not res: st = None; break
                    for (s2, v) in res[1:]:
                        f2 = fr.clone()
                        if x.res: f2.regs[x.res] = v
                        if op == 'invoke': outs.append(('jmp', s2, f2, x.x['normal']))
                        else: work.append((s2, f2, i + 1))
                    if len(res) > 1: fr = fr.clone()
                    st, v = res[0]
                    if x.res: fr.regs[x.res] = v
                    if op == 'invoke': outs.append(('jmp', st, fr, x.x['normal'])); st = None; break
                    i += 1; continue
                if op == 'br':
                    if x.x['cond'] is None: outs.append(('jmp', st, fr, x.args[0])); break
                    c = self.tob(self.val(st, fr, x.x['cond'], ('i', 1)))
                    c = cheap(c)
                    if isinstance(c, z3.ExprRef): c = cheap(z3.simplify(c))
                    if c is True: outs.append(('jmp', st, fr, x.args[0])); break
                    if c is False: outs.append(('jmp', st, fr, x.args[1])); break
                    nc = z3.Not(c)
                    ft = feasible(st, c); ff = feasible(st, nc) if ft else True
                    if ft and ff:
                        s2 = st.clone(); f2 = fr.clone()
                        st.assume(c); s2.assume(nc)
                        outs.append(('jmp', st, fr, x.args[0])); outs.append(('jmp', s2, f2, x.args[1]))
                    elif ft: st.assume(c); outs.append(('jmp', st, fr, x.args[0]))
                    else: st.assume(nc); outs.append(('jmp', st, fr, x.args[1]))
                    break
                if op == 'switch':
                    v = self.val(st, fr, x.x['v'], x.ty); e = self.U(st, v) if not isinstance(v, bool) else int(v)
                    if isinstance(e, int):
                        t = x.x['default']
                        for c, l in x.x['cases']:
                            if c % (1 << x.ty[1]) == e: t = l
                        outs.append(('jmp', st, fr, t)); break
                    rest = []
                    for c, l in x.x['cases']:
                        cc = c % (1 << x.ty[1])
                        rest.append(e != cc)
                        if feasible(st, e == cc):
                            s2 = st.clone(); s2.assume(e == cc); outs.append(('jmp', s2, fr.clone(), l))
                    if feasible(st, z3.And(rest)):
                        st.assume(z3.And(rest)); outs.append(('jmp', st, fr, x.x['default']))
                    break
                if op == 'ret':
                    v = self.val(st, fr, x.args[0], x.ty) if x.args else None
                    outs.append(('ret', st, fr, v)); break
                if op == 'unreachable':
                    # reached only through calls that do not return
                    if not self.dead(st): self.oblige(st, False, 'unreachable-code', x)
                    break
                self.step(st, fr, x)
                i += 1
        return outs

    def step(self, st, fr, x):
        op = x.op; R = fr.regs
        if op == 'load': R[x.res] = self.load(st, self.val(st, fr, x.args[0], ('ptr',)), x.ty, x)
        elif op == 'store': self.store(st, self.val(st, fr, x.args[1], ('ptr',)), x.ty, self.val(st, fr, x.args[0], x.ty), x)
        elif op == 'alloca':
            if x.x['n'] is not None: raise Unsupported('variable-size alloca')
            sz = self.m.size(x.ty)
            r = self.new_region(st, fr.fn.dem.split('(')[0].split('::')[-1][:30] + x.res, sz, 'stack')
            self.type_region(st, r, x.ty)
            fr.allocas.append(r.rid); R[x.res] = Ptr(r.rid, 0)
        elif op == 'getelementptr':
            base = self.val(st, fr, x.args[0][1], x.args[0][0])
            R[x.res] = self.gep(st, x.ty, base, [(t, self.val(st, fr, v, t)) for t, v in x.args[1:]])
        elif op in ir.BINOPS:
            R[x.res] = self.binop(st, x, self.val(st, fr, x.args[0], x.ty), self.val(st, fr, x.args[1], x.ty))
        elif op in ir.FBIN: R[x.res] = self.fbin(st, x, self.val(st, fr, x.args[0], x.ty), self.val(st, fr, x.args[1], x.ty))
        elif op == 'fneg':
            a = self.val(st, fr, x.args[0], x.ty); R[x.res] = FV(-a.e)
        elif op == 'icmp': R[x.res] = self.icmp(st, x, self.val(st, fr, x.args[0], x.ty), self.val(st, fr, x.args[1], x.ty))
        elif op == 'fcmp': R[x.res] = self.fcmp(x.x['pred'], self.val(st, fr, x.args[0], x.ty), self.val(st, fr, x.args[1], x.ty))
        elif op in ir.CASTS: R[x.res] = self.cast(st, x, self.val(st, fr, x.args[0], x.x['from']))
        elif op == 'select':
            c = self.tob(self.val(st, fr, x.args[0], ('i', 1))); a = self.val(st, fr, x.args[1], x.ty); b = self.val(st, fr, x.args[2], x.ty)
            c = cheap(simp(c)) if isinstance(c, z3.ExprRef) else c
            if c is True or (not isinstance(c, bool) and quick_valid(st, c)): R[x.res] = a
            elif c is False or quick_valid(st, z3.Not(c)): R[x.res] = b
            elif isinstance(a, IV) and isinstance(b, IV):
                if a.sg and b.sg: R[x.res] = IV(a.bits, z3.If(c, zi(a.e), zi(b.e)), True)
                else: R[x.res] = IV(a.bits, z3.If(c, zi(self.U(st, a)), zi(self.U(st, b))))
            elif isinstance(a, FV): R[x.res] = FV(z3.If(c, zi(a.e), zi(b.e)))
            elif isinstance(a, (bool, z3.BoolRef)): R[x.res] = z3.If(c, zi(a), zi(b))
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.row is None and b.row is None:
                R[x.res] = Ptr(a.rid, z3.If(c, zi(a.off), zi(b.off)))
            else: raise Unsupported('select of pointers')
        elif op == 'extractvalue':
            v = self.val(st, fr, x.args[0], x.x['t'])
            if v is UNDEF: v = self.undef(st, x.x['t'])
            for i in x.x['idx']: v = v.v[i]
            R[x.res] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, x.args[0], x.ty); e = self.val(st, fr, x.args[1], x.x['et'])
            if v is UNDEF: v = Agg([UNDEF] * len(self.m.resolve(x.ty)[2]))
            if len(x.x['idx']) != 1: raise Unsupported('nested insertvalue')
            n = list(v.v); n[x.x['idx'][0]] = e; R[x.res] = Agg(n)
        elif op == 'freeze': R[x.res] = self.val(st, fr, x.args[0], x.ty)
        else: raise Unsupported('instruction ' + op)

    def type_region(self, st, r, ty):
        """choose a layout for a stack object"""
        t = self.m.resolve(ty)
        if t[0] == 'struct' and len(t[2]) == 1: t2 = self.m.resolve(t[2][0])
        else: t2 = t
        if t2[0] == 'arr' and self.m.resolve(t2[2]) == ('i', 8) and t2[1] > 128:
            r.segs = [self.array_seg(r.name, [(0, 1)], 1, blen=t2[1])]

    def cast(self, st, x, v):
        op = x.op; t = x.ty; f = x.x['from']
        if v is UNDEF: v = self.undef(st, f)
        if op == 'zext':
            if f == ('i', 1): return self.b2iv(v, t[1])
            if isinstance(v, PInt): return v
            return IV(t[1], self.U(st, v), b=v.b)
        if op == 'sext':
            if f == ('i', 1):
                b = self.tob(v)
                if isinstance(b, bool): return IV(t[1], -1 if b else 0, True)
                return IV(t[1], z3.If(b, z3.IntVal(-1), z3.IntVal(0)), True)
            return IV(t[1], self.S(st, v), True)
        if op == 'trunc':
            if t == ('i', 1): return self.tob(v)
            if v.parts:
                r = self.extract(st, v, 0, t[1] // 8, f[1] // 8); return r
            # keep signed form when it fits
            if v.sg and not isinstance(v.e, int):
                h = 1 << (t[1] - 1)
                lo, hi = bounds(v.e)
                if lo is not None and hi is not None and lo >= -h and hi < h: return IV(t[1], v.e, True)
                if quick_valid(st, z3.And(v.e >= -h, v.e < h)): return IV(t[1], v.e, True)
                return IV(t[1], self.wrapu(st, v.e, t[1]))
            return IV(t[1], self.wrapu(st, self.U(st, v), t[1]), b=v.b)
        if op == 'bitcast': return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr): return PInt(v) if v.rid is not None else IV(t[1], 0)
            raise Unsupported('ptrtoint')
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, IV) and v.e == 0: return NULL
            raise Unsupported('inttoptr')
        if op in ('sitofp', 'uitofp'):
            e = self.S(st, v) if op == 'sitofp' else self.U(st, v)
            return FV(fractions.Fraction(e) if isinstance(e, int) else z3.ToReal(e))
        if op in ('fptoui', 'fptosi'):
            e = v.e; n = t[1]
            if isinstance(e, fractions.Fraction):
                i = int(e); return IV(n, i, op == 'fptosi')
            # truncation toward zero
            i = z3.ToInt(e) if op == 'fptoui' and quick_valid(st, e >= 0) else z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
            if op == 'fptoui': self.oblige(st, z3.And(e > -1, e < (1 << n)), 'double-to-integer-in-range', x)
            else: self.oblige(st, z3.And(e > -(1 << (n-1)) - 1, e < (1 << (n-1))), 'double-to-integer-in-range', x)
            return IV(n, i, op == 'fptosi')
        if op in ('fpext', 'fptrunc'): return v
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, x):
        c = x.x['callee']
        if c[0] == 'glob': name = c[1]
        else:
            v = self.val(st, fr, c, ('ptr',))
            if not isinstance(v, FnPtr): raise Unsupported('indirect call through %r' % (v,))
            name = v.name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'): return [(st, None)]
        f = self.m.funcs.get(name) or self.m.decls.get(name)
        if f is None: raise Unsupported('call of ' + name)
        args = [self.val(st, fr, a[1], a[0]) if a[1] is not None else None for a in x.args]
        for a, (t, v, at) in zip(range(len(args)), x.args):
            if 'byval' in at and name not in self.m.funcs: pass
        return self.call(st, f, args, fr.path, x)

    def call(self, st, f, args, path, x=None):
        dem = f.dem
        for rx, h in self.overrides:
            if rx.fullmatch(dem):
                r = h(self, st, f, args, path, x)
                if r is not None:
                    self.contracts_used[dem] = self.contracts_used.get(dem, 0) + 1
                    return r
        h = self.models.lookup(dem, f)
        if h is not None:
            r = h(self, st, f, args, path, x)
            if r is not None:
                self.modelled[re.sub(r'\(.*', '', dem)[:120]] = self.modelled.get(re.sub(r'\(.*', '', dem)[:120], 0) + 1
                return r
        if f.name in self.m.funcs:
            return self.run_function(st, f, args, path)
        raise Unsupported('external function ' + dem)

    # ------------------------------------------------------------ loops
    def handle_loop(self, st, fr, h, prev, body):
        self.tick()
        key = '/'.join(p[-40:] for p in fr.path[-6:]) + ':' + h
        if self.bounded is not None: return self.loop_bounded(st, fr, h, prev, body)
        r = self.try_unroll(st, fr, h, prev, body, key)
        if r is not None: return r
        return self.cut_loop(st, fr, h, prev, body, key)

    def loop_bounded(self, st, fr, h, prev, body):
        outs = []; cur = [(st, fr, prev)]
        for it in range(self.bounded + 1):
            nxt = []
            for (s, f, p) in cur:
                for o in self.run_blocks(s, f, h, p, (h, body)):
                    if o[0] == 'back': nxt.append((o[1], o[2], o[3]))
                    else: outs.append(o)
            cur = nxt
            if not cur: break
        return outs

    def try_unroll(self, st, fr, h, prev, body, key):
        if self.no_unroll or self.loop_mods.get(key, {}).get('cut'): return None
        save = self.mode; self.mode = 'probe'
        cur = (st.clone(), fr.clone(), prev); n = 0
        ok = False
        ridn = self.ridn
        try:
            # decide with probes whether each iteration is determined
            while n <= self.unroll_max:
                outs = self.run_blocks(cur[0], cur[1], h, cur[2], (h, body))
                backs = [o for o in outs if o[0] == 'back']; others = [o for o in outs if o[0] != 'back']
                if not backs: ok = True; break
                if len(backs) == 1 and (not others or self.unroll_exits): cur = (backs[0][1], backs[0][2], backs[0][3]); n += 1; continue
                break
        except Unsupported as e:
            if n > 0 and False: raise
            ok = False
        finally:
            self.mode = save
        if not ok:
            self.loop_mods.setdefault(key, {})['cut'] = True
            return None
        # do it for real
        self.loops_unrolled += 1
        cur = (st, fr, prev); left = []
        while True:
            outs = self.run_blocks(cur[0], cur[1], h, cur[2], (h, body))
            backs = [o for o in outs if o[0] == 'back']
            left += [o for o in outs if o[0] != 'back']
            if not backs: return left
            if len(backs) > 1: raise Unsupported('unrolled loop forks')
            cur = (backs[0][1], backs[0][2], backs[0][3])

    # ---- locations
    def diff(self, a, b):
        """locations of state a whose value differs in b"""
        out = set()
        for rid, ra in a.mem.items():
            rb = b.mem.get(rid)
            if rb is None: out.add(('dead', rid)); continue
            if ra is rb: continue
            if ra.cells is not rb.cells:
                for o in set(ra.cells) | set(rb.cells):
                    ca, cb = ra.cells.get(o), rb.cells.get(o)
                    if ca is None and cb is not None:
                        if ra.lazy is not None and (o, cb[0]) in ra.lazy and ra.lazy[(o, cb[0])] is cb[1]: continue   # materialised input
                        out.add(('c', rid, o, cb[0])); continue
                    if cb is None or ca[0] != cb[0]: out.add(('cx', rid, o)); continue
                    if ca[1] is not cb[1] and not self.sameval(ca[1], cb[1]): out.add(('c', rid, o, ca[0]))
            for i, sa in enumerate(ra.segs):
                sb = rb.segs[i]
                for k, la in sa.lanes.items():
                    lb = sb.lanes[k]
                    if la is lb: continue
                    if la.kind == 'int' and la.a is not lb.a and not la.a.eq(lb.a): out.add(('l', rid, i, k))
                    if la.kind == 'ptr' and (la.tgt != lb.tgt or not la.offs.eq(lb.offs) or not la.nulls.eq(lb.nulls)): out.add(('l', rid, i, k))
            if ra.size is not rb.size and not self.same_e(ra.size, rb.size): out.add(('z', rid))
            if ra.rowlen is not rb.rowlen and not ra.rowlen.eq(rb.rowlen): out.add(('rl', rid))
            if ra.alive != rb.alive: out.add(('alive', rid))
        for g in set(a.ghost) | set(b.ghost):
            if isinstance(g, tuple) and g[0] != 'umap': continue       # caches, monotone
            va, vb = a.ghost.get(g), b.ghost.get(g)
            if va is vb or self.same_e(va, vb): continue
            out.add(('g', g))
        return out
    def same_e(self, x, y):
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x.eq(y)
        if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef): return False
        return x == y
    def sameval(self, x, y):
        if isinstance(x, IV) and isinstance(y, IV): return x.sg == y.sg and self.same_e(x.e, y.e)
        if isinstance(x, Ptr) and isinstance(y, Ptr): return x.rid == y.rid and self.same_e(x.off, y.off) and self.same_e(x.row, y.row) and self.same_e(x.null, y.null)
        if isinstance(x, Blob) and isinstance(y, Blob): return self.same_e(x.e, y.e)
        if isinstance(x, FV) and isinstance(y, FV): return self.same_e(x.e, y.e)
        return x is y

    def getloc(self, st, loc):
        k = loc[0]
        if k == 'c':
            r = st.mem.get(loc[1])
            if r is None: return None
            c = r.cells.get(loc[2])
            return c[1] if c is not None and c[0] == loc[3] else None
        if k == 'l': return st.mem[loc[1]].segs[loc[2]].lanes[loc[3]]
        if k == 'z': return st.mem[loc[1]].size
        if k == 'rl': return st.mem[loc[1]].rowlen
        if k == 'g': return st.ghost.get(loc[1])
    def locname(self, st, loc):
        if loc[0] == 'g': return 'g.' + str(loc[1])
        r = st.mem.get(loc[1])
        return '%s%s' % (re.sub(r'#.*', '', loc[1]), '.'.join([''] + [str(x) for x in loc[2:]])) if loc[0] == 'c' else loc[0] + ':' + str(loc[1:])

    def shape_of(self, st0, st, ptrlocs):
        """region assignment of the loop-carried pointer cells"""
        out = []
        for l in ptrlocs:
            v = self.getloc(st, l)
            if isinstance(v, Ptr):
                v = self.dealias(st, v)
                if v.rid is None: out.append('null')
                elif v.rid in st0.mem: out.append((v.rid, None if v.row is None else v.row.sexpr() if isinstance(v.row, z3.ExprRef) else v.row))
                else: out.append('undef')
            else: out.append('undef')
        return tuple(out)

    def havoc(self, st0, mods, shape, ptrlocs, rows, T=None, linmap=None, sgn=None):
        """arbitrary values for the modified locations; linear ones become v0 + d*T"""
        st = st0.clone()
        H = {}
        linmap = linmap or {}
        sgn = sgn or {}
        sh = dict(zip(ptrlocs, shape))
        for loc in sorted(mods, key=str):
            k = loc[0]
            if k == 'c':
                r = st.wr(loc[1]); v0 = self.getloc(st0, loc)
                if v0 is None or v0 is UNDEF:
                    r.cells[loc[2]] = (loc[3], UNDEF); continue
                if loc in sh:
                    s = sh[loc]
                    if s == 'null': nv = NULL
                    elif s == 'undef': nv = UNDEF
                    else:
                        if loc in linmap and isinstance(v0, Ptr) and v0.rid == s[0]: off = add(v0.off, mul(linmap[loc], T))
                        else:
                            base, S = self.ptr_grid(st0, loc, v0, s[0])
                            kk = fresh_int('po', None); H[loc] = kk
                            off = add(base, mul(kk, S))
                        row = rows.get(s)
                        nv = Ptr(s[0], off, row)
                    r.cells[loc[2]] = (loc[3], nv); continue
                if isinstance(v0, IV):
                    if loc in linmap:
                        e = add(v0.e, mul(linmap[loc], T)); s = v0.sg
                        if sgn.get(loc): s = True; e = add(self.S(st0, v0), mul(linmap[loc], T))
                        elif not s: pass
                        nv = IV(v0.bits, e, s)
                        lo, hi = (-(1 << (v0.bits-1)), (1 << (v0.bits-1)) - 1) if s else (0, (1 << v0.bits) - 1)
                        st.assume(z3.And(zi(e) >= lo, zi(e) <= hi))
                    else:
                        s = sgn.get(loc, v0.sg)
                        lo, hi = (-(1 << (v0.bits-1)), (1 << (v0.bits-1)) - 1) if s else (0, (1 << v0.bits) - 1)
                        e = fresh_int('h_' + self.locname(st0, loc), lo, hi)
                        st.assume(z3.And(e >= lo, e <= hi)); H[loc] = e
                        nv = IV(v0.bits, e, s)
                elif isinstance(v0, FV): e = fresh_real('h'); nv = FV(e); H[loc] = e
                elif isinstance(v0, Blob): e = fresh_int('h'); nv = Blob(v0.size, e); H[loc] = e
                elif isinstance(v0, (bool, z3.BoolRef)): e = fresh_bool('h'); nv = e; H[loc] = e
                else: nv = UNDEF
                r.cells[loc[2]] = (loc[3], nv)
            elif k == 'cx':
                r = st.wr(loc[1]); r.cells.pop(loc[2], None)
            elif k == 'l':
                r = st.wr(loc[1]); seg = r.segs[loc[2]]; la = seg.lanes[loc[3]].copy(); seg.lanes[loc[3]] = la
                if la.kind == 'int':
                    n = _aname(la.a)
                    s = la.size
                    lo, hi = (0, (1 << (8 * s)) - 1) if s <= 8 else (None, None)
                    la.a = fresh_arr('h_' + re.sub(r'[#!].*', '', loc[1]), lo, hi, dims=_dims(la.a)); H[loc] = la.a
                else:
                    la.offs = fresh_arr('h_offs', 0); la.nulls = fresh_arr('h_nulls', sort=z3.BoolSort()); H[loc] = la.offs
                    if la.tgt is None and loc in self.lane_tgt: la.tgt = self.lane_tgt[loc]
            elif k == 'z':
                r = st.wr(loc[1])
                if loc in linmap: r.size = add(st0.mem[loc[1]].size, mul(linmap[loc], T)); st.assume(zi(r.size) >= 0)
                else: r.size = fresh_int('h_size', 0); st.assume(r.size >= 0); H[loc] = r.size
            elif k == 'rl':
                r = st.wr(loc[1]); r.rowlen = fresh_arr('h_rowlen', 0); H[loc] = r.rowlen
            elif k == 'alive':
                raise Unsupported('block freed inside a loop that did not allocate it')
            elif k == 'dead': raise Unsupported('scope of a block ends inside a loop')
            elif k == 'g':
                v0 = st0.ghost.get(loc[1])
                if v0 is None: st.ghost[loc[1]] = None; continue
                if loc in linmap: st.ghost[loc[1]] = add(v0, mul(linmap[loc], T))
                elif isinstance(v0, int) or (isinstance(v0, z3.ExprRef) and z3.is_int(v0)):
                    e = fresh_int('hg_' + str(loc[1])); st.ghost[loc[1]] = e; H[loc] = e
                elif isinstance(v0, (bool, z3.BoolRef)): e = fresh_bool('hg'); st.ghost[loc[1]] = e; H[loc] = e
                elif isinstance(v0, z3.ExprRef):
                    n = 'hg_%s!%d' % (loc[1], next(_serial_()))
                    e = z3.Const(n, v0.sort()); SYM_SERIAL[n] = mark()
                    if z3.is_array(v0): ARR_WIDTH[n] = ARR_WIDTH.get(_aname(v0), (None, None))
                    st.ghost[loc[1]] = e; H[loc] = e
                else: raise Unsupported('ghost %s' % loc[1])
        return st, H
    lane_tgt = {}

    def ptr_grid(self, st0, loc, v0, rid):
        """pointers into an array move in steps of the element size (checked at the back edge)"""
        r = st0.mem[rid]
        S = r.segs[0].stride if r.segs else 1
        base = v0.off if isinstance(v0, Ptr) and v0.rid == rid else 0
        return base, S
    def grid_index(self, st0, st, loc, v):
        v0 = self.getloc(st0, loc)
        base, S = self.ptr_grid(st0, loc, v0, v.rid)
        if S == 1: return sub(v.off, base)
        l = lin(sub(v.off, base))
        if l[0] % S == 0 and all(c % S == 0 for c, _ in l[1].values()):
            return unlin([l[0] // S, {k: [c // S, t] for k, (c, t) in l[1].items()}])
        return None

    def cut_loop(self, st0, fr0, h, prev, body, key):
        dbg(2, 'LOOP', self.mode, key)
        if any(x.op == 'phi' for x in fr0.fn.blocks[h]): raise Unsupported('phi at loop header')
        info = self.loop_mods.setdefault(key, {})
        save = self.mode
        mark0 = mark()
        # ---- 1. discovery of modified locations and pointer shapes
        mods = set(l for l in info.get('mods', ()) if l[0] in ('c', 'g') and self.loc_ok(st0, l))
        self.mode = 'probe'
        try:
            for rnd in range(12):
                ptrlocs = sorted([l for l in mods if l[0] == 'c' and isinstance(self.getloc(st0, l), Ptr)], key=str)
                shapes = [self.shape_of(st0, st0, ptrlocs)]
                rows = {}
                for l in ptrlocs:
                    v = self.dealias(st0, self.getloc(st0, l))
                    if v.row is not None: rows[(v.rid, v.row.sexpr() if isinstance(v.row, z3.ExprRef) else v.row)] = v.row
                newm = set(); probes = []
                i = 0
                while i < len(shapes):
                    stH, H = self.havoc(st0, mods, shapes[i], ptrlocs, rows)
                    outs = self.run_blocks(stH.clone(), fr0.clone(), h, prev, (h, body))
                    for o in outs:
                        if o[0] != 'back': continue
                        d = self.diff(stH, o[1])
                        newm |= d
                        for l in d:
                            if l[0] == 'l':
                                la = o[1].mem[l[1]].segs[l[2]].lanes[l[3]]
                                if la.kind == 'ptr' and la.tgt is not None: self.lane_tgt[l] = la.tgt
                        probes.append((shapes[i], stH, o[1]))
                        sh = self.shape_of(st0, o[1], ptrlocs)
                        if sh not in shapes:
                            if len(shapes) >= 8: raise Unsupported('too many pointer shapes in loop')
                            shapes.append(sh)
                    i += 1
                # lazily materialised inputs that the loop writes: materialise before the loop
                again = False
                for l in list(newm):
                    if l[0] == 'c' and l not in mods:
                        r = st0.mem[l[1]]
                        if r.lazy is not None and l[2] not in r.cells:
                            try:
                                self.read_cells(st0, r, l[2], l[3], ('i', 8 * l[3])); again = True
                            except Unsupported: pass
                if newm <= mods and not again: break
                mods |= newm
            else: raise Unsupported('loop analysis does not converge')
        finally:
            self.mode = save
        info['mods'] = set(mods)
        # ---- 2. linear induction
        linmap = {}; sgn = {}
        self.loop_mark = mark0
        if probes:
            for loc in mods:
                v0 = self.getloc(st0, loc)
                if loc in info.get('nolin', ()): continue
                ds = []
                for sh, stH, stB in probes:
                    a, b = self.getloc(stH, loc), self.getloc(stB, loc)
                    d = self.delta(a, b)
                    ds.append(d)
                if any(isinstance(self.getloc(stB, loc), IV) and self.getloc(stB, loc).sg for _, _, stB in probes): sgn[loc] = True
                if not isinstance(v0, (IV, Ptr, int, z3.ArithRef)) or isinstance(v0, bool): continue
                if loc[0] == 'c' and isinstance(v0, Ptr) and len(shapes) > 1: continue
                if any(d is None for d in ds): continue
                d0 = ds[0]
                if all(self.same_e(d0, d) for d in ds) and self.loop_const(d0, st0, mods): linmap[loc] = d0
        T = fresh_int('T', 0)
        sgn2 = {l: True for l in sgn}
        # ---- 3. invariants
        while True:
            res = self.houdini(st0, fr0, h, prev, body, key, mods, shapes, ptrlocs, rows, T, linmap, sgn2, info)
            if res[0] == 'lin':
                info.setdefault('nolin', set()).update(res[1])
                for l in res[1]: linmap.pop(l, None)
                continue
            break
        _, outs, nsurv = res
        self.loops_cut[key] = nsurv
        return outs

    def loc_ok(self, st0, l):
        if l[0] == 'g': return True
        return l[1] in st0.mem

    def loop_const(self, d, st0, mods):
        if isinstance(d, int): return True
        if not (isinstance(d, z3.ExprRef) and z3.is_int(d)): return False
        ss = symbols(d)
        return bool(ss) and all(SYM_SERIAL.get(s, 1 << 60) < self.loop_mark for s in ss)

    def delta(self, a, b):
        if isinstance(a, IV) and isinstance(b, IV):
            x = a.e; y = b.e
            x = strip_mod(x); y = strip_mod(y)
            if isinstance(x, (int, z3.ExprRef)) and isinstance(y, (int, z3.ExprRef)):
                d = sub(y, x); d = simp(d)
                return d
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.rid is not None:
            return simp(sub(b.off, a.off))
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)) and not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(a, z3.ExprRef) and not z3.is_int(a): return None
            return simp(sub(b, a))
        return None

    def houdini(self, st0, fr0, h, prev, body, key, mods, shapes, ptrlocs, rows, T, linmap, sgn, info):
        save = self.mode
        lc = LoopCtx(self, key, fr0.fn.dem, st0, mods, linmap)
        lc.shapes = shapes
        # header states
        def mk():
            out = []
            for sh in shapes:
                stH, H = self.havoc(st0, mods, sh, ptrlocs, rows, T, linmap, sgn)
                stH.facts.insert(0, T >= 0) if False else stH.assume(T >= 0)
                out.append((sh, stH, H))
            return out
        heads = mk()
        # candidates
        cands = self.auto_cands(lc, st0, heads, fr0, h, prev, body, T, linmap)
        for g in self.templates:
            try:
                for nm, fn in g(lc): cands.append((nm, fn))
            except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
                dbg(3, 'template skipped', g, e)
        known = info.get('alive')
        dead = info.get('dead', set())
        cands = [c for c in cands if c[0] not in dead]
        # entry check
        live = []
        for nm, fn in cands:
            f = self.ev(fn, st0, 0)
            if f is None: dbg(4, 'n/a', nm); continue
            if f is True: live.append((nm, fn)); continue
            r, _ = self.hprove(nm, st0.facts, f)
            if r == 'valid': live.append((nm, fn))
            else: dbg(3, 'entry fails:', nm, r)
        rounds = 0
        while True:
            self.tick()
            failed = set(); linfail = set()
            self.mode = 'hou' if save != 'probe' else 'probe'
            keep = []
            try:
                for sh, stH, H in heads:
                    s1 = stH.clone()
                    for nm, fn in live:
                        f = self.ev(fn, s1, T)
                        if f is not None and f is not True: s1.assume(f)
                    outs = self.run_blocks(s1, fr0.clone(), h, prev, (h, body))
                    for o in outs:
                        if o[0] != 'back': keep.append(o); continue
                        sB = o[1]
                        if self.shape_of(st0, sB, ptrlocs) not in shapes: raise Unsupported('unexpected pointer shape')
                        extra = self.diff(stH, sB) - mods
                        extra = {l for l in extra if not (l[0] == 'c' and self.getloc(st0, l) is None)}
                        if extra: raise Unsupported('loop modifies more than discovered: %s' % list(extra)[:3])
                        for loc in ptrlocs:
                            v = self.getloc(sB, loc)
                            if isinstance(v, Ptr):
                                v = self.dealias(sB, v)
                                if v.rid is not None and v.rid in st0.mem and loc not in linmap and self.grid_index(st0, sB, loc, v) is None:
                                    raise Unsupported('pointer not moved by whole elements')
                        # linear substitutions must be reproduced
                        for loc, d in linmap.items():
                            if loc[0] == 'c' and loc in dict(zip(ptrlocs, sh)):
                                v0 = self.getloc(st0, loc)
                                if not (isinstance(v0, Ptr) and dict(zip(ptrlocs, sh))[loc][0] == v0.rid): continue
                            g = self.lingoal(st0, sB, loc, d, T, sgn)
                            if g is True: continue
                            if g is False or prove(sB.facts, g, timeout=self.hou_timeout)[0] != 'valid':
                                dbg(2, 'not linear:', self.locname(st0, loc)); linfail.add(loc)
                        if linfail: break
                        fs = []
                        for nm, fn in live:
                            if nm in failed: continue
                            f = self.ev(fn, sB, add(T, 1))
                            if f is None: failed.add(nm); continue
                            if f is True: continue
                            if f is False: failed.add(nm); continue
                            fs.append((nm, f))
                        if not fs: continue
                        if len(fs) > 1 and rounds:
                            r, _ = prove(sB.facts, z3.And([f for _, f in fs]), timeout=min(2.0, self.hou_timeout), backends=('z3nombqi',))
                            if r == 'valid': continue
                        for nm, f in fs:
                            r, be = self.hprove(nm, sB.facts, f)
                            if r != 'valid':
                                dbg(2, 'not inductive:', nm, r, 'in', key[-60:])
                                if DUMP and DUMP in nm:
                                    print('GOAL', f); print('FACTS'); [print('  ', q) for q in sB.facts]
                                failed.add(nm)
                                self.last_drop = (nm, r)
                    if linfail: break
            finally:
                self.mode = save
            if linfail: return ('lin', linfail)
            if not failed: break
            rounds += 1
            live = [c for c in live if c[0] not in failed]
            info.setdefault('dead', set()).update(failed)
        dbg(2, 'INV', key[-60:], [nm for nm, _ in live], 'lin', [(self.locname(st0, l), d) for l, d in linmap.items()])
        info['alive'] = [nm for nm, _ in live]
        if save != 'final': return ('ok', keep, len(live))
        # final pass with obligations recorded
        keep = []
        for sh, stH, H in heads:
            s1 = stH.clone()
            for nm, fn in live:
                f = self.ev(fn, s1, T)
                if f is not None and f is not True: s1.assume(f)
            for o in self.run_blocks(s1, fr0.clone(), h, prev, (h, body)):
                if o[0] != 'back': keep.append(o)
        self.nobl += len(live) * 2
        for nm, _ in live:
            self.obls.append(dict(name='%s/loop-invariant:%s' % (self.task, nm), fn=fr0.fn.dem.split('(')[0], loc=None, kind='loop-invariant', status='valid', backend='z3', time=0.0))
        return ('ok', keep, len(live))

    fast_auto = False; no_unroll = False
    def hprove(self, nm, facts, f):
        if self.fast_auto and not hq(zi(f)):
            # quantifier-free part first: dropping facts only makes this weaker
            r, b = prove([q for q in facts if not hq(q)], f, timeout=min(0.4, self.hou_timeout), backends=('z3',))
            if r != 'unknown' or nm.startswith('auto:'): return r, b
            if self.hou_timeout <= 1.0: return prove(facts, f, timeout=0.5, backends=('z3nombqi', 'z3'), mbqi_timeout=0.3)
        return prove(facts, f, timeout=self.hou_timeout, backends=('z3nombqi', 'z3'), mbqi_timeout=self.hou_timeout / 2)

    def lingoal(self, st0, sB, loc, d, T, sgn):
        v0 = self.getloc(st0, loc); b = self.getloc(sB, loc)
        if isinstance(v0, IV):
            if not isinstance(b, IV): return False
            e0 = self.S(st0, v0) if sgn.get(loc) else v0.e
            want = add(e0, mul(d, add(T, 1)))
            have = b.e if (b.sg == (v0.sg or bool(sgn.get(loc)))) else (self.S(sB, b) if (v0.sg or sgn.get(loc)) else self.U(sB, b))
            return self.cmp('eq', have, want)
        if isinstance(v0, Ptr):
            return isinstance(b, Ptr) and self.cmp('eq', b.off, add(v0.off, mul(d, add(T, 1))))
        return self.cmp('eq', b, add(v0, mul(d, add(T, 1))))

    def ev(self, fn, st, T):
        try: f = fn(st, T)
        except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, Unsupported) as e:
            dbg(4, 'cand error', e); return None
        if f is None: return None
        if isinstance(f, (list, tuple)): f = z3.And([zi(x) for x in f])
        return cheap(f)

    def auto_cands(self, lc, st0, heads, fr0, h, prev, body, T, linmap):
        out = []
        # atoms of the continuation condition
        save = self.mode; self.mode = 'probe'
        atoms = []
        try:
            for sh, stH, H in heads[:1]:
                n0 = len(stH.facts)
                outs = self.run_blocks(stH.clone(), fr0.clone(), h, prev, (h, body))
                for o in outs:
                    if o[0] == 'exit':
                        for f in o[1].facts[n0:][:6]: atoms.append(f)
        finally:
            self.mode = save
        sh, stH, H = heads[0]
        inv = {}
        hsyms = {str(e): loc for loc, e in H.items() if isinstance(e, z3.ExprRef)}
        seen = set()
        def submap(st, t):
            prs = [(T, zi(t))]
            for loc, e in H.items():
                v = self.getloc(st, loc)
                if isinstance(v, IV): v = v.e
                elif isinstance(v, Ptr): v = self.grid_index(st0, st, loc, v) if v.rid in st0.mem else None
                elif isinstance(v, (Blob, FV)): v = v.e
                elif isinstance(v, Lane): v = v.a if v.kind == 'int' else None
                if v is None or v is UNDEF: continue
                v = zi(v)
                if v.sort() == e.sort(): prs.append((e, v))
            return prs
        base = set()
        for f in atoms:
            for a in atoms_of(f):
                k = a.decl().kind()
                if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                    x, y = a.children()
                    if x.sort() != z3.IntSort(): continue
                    ss = symbols(a)
                    if not all(SYM_SERIAL.get(s, 0) <= SYM_SERIAL[T.decl().name()] or s in hsyms for s in ss): continue
                    if T.decl().name() not in ss and not (ss & set(hsyms)): continue
                    for nm, fm in (('le', x <= y), ('ge', x >= y)):
                        sk = 'auto:%s:%s' % (nm, canon(fm))
                        if sk in seen: continue
                        seen.add(sk)
                        out.append((sk, (lambda fm: lambda st, t: z3.substitute(fm, *submap(st, t)))(fm)))
        # differences/sums of carried integers that are not linear in T
        ints = []
        for loc in sorted(lc.mods, key=str):
            if loc in linmap: continue
            v = self.getloc(st0, loc)
            if isinstance(v, IV) and loc[0] == 'c': ints.append((loc, v.e))
            elif isinstance(v, Ptr) and len(heads) == 1 and v.rid is not None: ints.append((loc, v.off))
            elif loc[0] in ('g', 'z') and isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool): ints.append((loc, v))
        def num(st, loc):
            v = self.getloc(st, loc)
            if isinstance(v, IV): return v.e
            if isinstance(v, Ptr): return v.off
            return v
        def numU(st, loc):
            v = self.getloc(st, loc)
            if v is None or v is UNDEF: raise Unsupported('undef')
            return num(st, loc)
        for i, (l1, v1) in enumerate(ints):
            n1 = self.locname(st0, l1)
            out.append(('auto:mono+:' + n1, (lambda l1, v1: lambda st, t: zi(numU(st, l1)) >= zi(v1))(l1, v1)))
            out.append(('auto:mono-:' + n1, (lambda l1, v1: lambda st, t: zi(numU(st, l1)) <= zi(v1))(l1, v1)))
            out.append(('auto:leT:' + n1, (lambda l1, v1: lambda st, t: zi(numU(st, l1)) - zi(v1) <= zi(t))(l1, v1)))
            for (l2, v2) in ints[i+1:]:
                n2 = self.locname(st0, l2)
                out.append(('auto:diff:%s:%s' % (n1, n2), (lambda l1, v1, l2, v2: lambda st, t: zi(numU(st, l1)) - zi(numU(st, l2)) == zi(v1) - zi(v2))(l1, v1, l2, v2)))
                out.append(('auto:sum:%s:%s' % (n1, n2), (lambda l1, v1, l2, v2: lambda st, t: zi(numU(st, l1)) + zi(numU(st, l2)) == zi(v1) + zi(v2))(l1, v1, l2, v2)))
        return out

def _serial_():
    import irv.core as c
    return c._serial
def _aname(a):
    r = _root_arr_(a)
    return r.decl().name()
def _root_arr_(a):
    from .core import _root_arr
    return _root_arr(a)
def _dims(a):
    s = a.sort(); n = 0
    while isinstance(s, z3.ArraySortRef): n += 1; s = s.range()
    return n

def atoms_of(f):
    out = []; st = [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): continue
        k = x.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES): st.extend(x.children())
        elif x.sort() == z3.BoolSort(): out.append(x)
    return out

def canon(f):
    """name of a formula that is stable across re-executions (fresh-symbol serials removed)"""
    return re.sub(r'!\d+', '', re.sub(r'\s+', ' ', str(f)))[:200]
