"""C01 / C02: incremental secret sharing."""
import z3
from irv.core import *
from irv.task import *
from irv import models

P = 2147483647
I = z3.IntSort()
GCD = z3.Function('GCD', I, I, I)          # defined by GCD(0,b)=b, GCD(a,b)=GCD(b mod a, a)
SH = r'DPPIR::sharing::'

def gcd_contract(ex, st, f, a, path, x):
    """GcdExtended(a, b, *x, *y): requires a<b; ensures a*x + b*y = GCD(a,b), a=0 => (x,y)=(0,1), a>0 => |x|<=b, |y|<=a"""
    A, B = ex.U(st, a[0]), ex.U(st, a[1])
    ex.oblige(st, zi(A) < zi(B), 'GcdExtended:requires a<b', x)
    u, v = fresh_int('gx'), fresh_int('gy')
    gcd_post(st, A, B, u, v)
    ex.store(st, a[2], ('i', 64), IV(64, u, True)); ex.store(st, a[3], ('i', 64), IV(64, v, True))
    return [(st, None)]
def gcd_post_f(A, B, u, v):
    A, B = zi(A), zi(B)
    return [A * u + B * v == GCD(A, B), z3.Implies(A == 0, z3.And(u == 0, v == 1)), z3.Implies(A > 0, z3.And(u <= B, u >= -B, v <= A, v >= -A)),
            u >= -(1 << 33), u <= (1 << 33), v >= -(1 << 33), v <= (1 << 33)]
def gcd_post(st, A, B, u, v):
    for f in gcd_post_f(A, B, u, v): st.assume(f)

def t_gcd(ex, st):
    a = sym(st, 'a'); b = sym(st, 'b'); st.assume(a < b)
    px, py = obj(ex, st, 'x', 8), obj(ex, st, 'y', 8)
    f = only(ex, SH + r'\(anonymous namespace\)::GcdExtended\(unsigned int, unsigned int, long\*, long\*\)')
    n = 0
    # first activation runs the body; inner calls go through the contract
    outs = ex.run_function(st, f, [IV(32, a), IV(32, b), px, py], ())
    for s, _ in outs:
        n += 1
        u = ex.load(s, px, ('i', 64)); v = ex.load(s, py, ('i', 64))
        u, v = ex.S(s, u), ex.S(s, v)
        # definition of GCD at (a,b), and the quotient/remainder split the code uses
        s.assume(z3.Implies(a == 0, GCD(a, b) == b))
        if feasible(s, a > 0):
            q, r = ex.divmod(s, b, a); q, r = zi(q), zi(r)
            s.assume(z3.Implies(a > 0, z3.And(b == q * a + r, GCD(a, b) == GCD(r, a))))
            for w in (zi(u), zi(v)): s.assume(z3.Implies(a > 0, b * w == (q * a + r) * w))      # congruence, spelled out
        for g, nm in zip(gcd_post_f(a, b, zi(u), zi(v)), ('bezout', 'base', 'coefficient-bounds', 'r1', 'r2', 'r3', 'r4')):
            ex.oblige(s, g, 'GcdExtended:ensures ' + nm)
    return n

def inv_contract(ex, st, f, a, path, x):
    """ModInverse(a, m): requires 1<=a<m=prime; ensures 0<=r<m, (r*a) mod m = 1"""
    A, M = ex.U(st, a[0]), ex.U(st, a[1])
    ex.oblige(st, z3.And(zi(A) >= 1, zi(A) < zi(M), zi(M) == P), 'ModInverse:requires 1<=a<m=prime', x)
    r = fresh_int('inv', 0, P - 1)
    st.assume(z3.And(r >= 0, r < P, (r * zi(A)) % P == 1))
    st.ghost[('inv', r.get_id())] = (r, zi(A))
    return [(st, IV(32, r))]
def t_inv(ex, st):
    a = sym(st, 'a', 32, 1, P - 1)
    f = only(ex, SH + r'\(anonymous namespace\)::ModInverse\(unsigned int, unsigned int\)')
    st.assume(GCD(a, P) == 1)      # lemma prime_gcd (Lean): the prime has no common factor with 1..P-1
    n = 0
    for s, v in ex.run_function(st, f, [IV(32, a), IV(32, P)], ()):
        n += 1; r = zi(ex.U(s, v))
        ex.oblige(s, z3.And(r >= 0, r < P), 'ModInverse:ensures reduced')
        ex.oblige(s, (r * a) % P == 1, 'ModInverse:ensures inverse')
    return n

def factor_out(e, v):
    """e = v * k  ->  k  (None if some monomial has no factor v)"""
    l = lin(e)
    if l[0] != 0: return None
    out = 0
    for c, t in l[1].values():
        if t.eq(v): out = add(out, c); continue
        if t.decl().kind() != z3.Z3_OP_MUL: return None
        ch = list(t.children()); hit = False
        for i, q in enumerate(ch):
            if q.eq(v):
                o = ch[:i] + ch[i+1:]; k = o[0]
                for z in o[1:]: k = k * z
                out = add(out, mul(k, c)); hit = True; break
        if not hit: return None
    return out
def inv_hook(ex, st, x, y, r):
    """lemma mul_inverse (Lean): 0<=k, (inv*s) mod P = 1  =>  ((k*inv mod P) * s) mod P = k mod P"""
    if not (isinstance(y, int) and y == P) or isinstance(x, int): return
    for g, val in list(st.ghost.items()):
        if isinstance(g, tuple) and g[0] == 'inv':
            k = factor_out(x, val[0])
            if k is not None:
                st.assume(z3.Implies(zi(k) >= 0, (zi(r) * val[1]) % P == zi(k) % P))

FOLD = z3.Function('FOLD', I, I, I)        # FOLD(k, v): reconstruct v with the shares k..n-1
def t_tally(ex, st):
    n = sym(st, 'n', 32); key = sym(st, 'key', 32, 0, P - 1)
    vp, dp = vector(ex, st, 'shares', n, 8, [(0, 4), (4, 4)], ro=True)
    X, Y = lane(st, dp, (0, 4)), lane(st, dp, (4, 4))
    k = z3.Int('k!q')
    st.assume(forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(X[k] >= 0, X[k] < P)), patterns=[X[k]]))
    st.assume(forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(Y[k] >= 1, Y[k] < P)), patterns=[Y[k]]))
    v = z3.Int('v!q')
    st.assume(forall([v], FOLD(n, v) == v, patterns=[FOLD(n, v)]))
    ex.spec.update(n=n, key=key, X=X, Y=Y)
    c = 0
    for s, r in call(ex, st, SH + r'GenerateIncrementalTally\(unsigned int, std::vector<.*> const&\)', [IV(32, key), vp]):
        c += 1; t = zi(ex.U(s, r))
        ex.oblige(s, z3.And(t >= 0, t < P), 'GenerateIncrementalTally:ensures tally below prime')
        ex.oblige(s, FOLD(0, t) == key, 'GenerateIncrementalTally:ensures reconstruction of the tally is the key')
    return c
def tmpl_tally(lc):
    ex = lc.ex; S = ex.spec
    if 'key' not in S: return
    for loc in sorted(lc.mods, key=str):
        if loc[0] != 'c' or loc[3] not in (4, 8): continue
        v0 = ex.getloc(lc.st0, loc)
        if not isinstance(v0, IV): continue
        nm = ex.locname(lc.st0, loc)
        def g(st, T, loc=loc):
            t = zi(ex.getloc(st, loc).e); i = S['n'] - zi(T)
            # definition of FOLD at position i
            st.assume(z3.Implies(z3.And(i >= 0, i < S['n']), FOLD(i, t) == FOLD(i + 1, (t * S['Y'][z3.simplify(i)] + S['X'][z3.simplify(i)]) % P)))
            return FOLD(i, t) == S['key']
        yield 'fold:' + nm, g
        yield 'below-prime:' + nm, (lambda st, T, loc=loc: z3.And(zi(ex.getloc(st, loc).e) >= 0, zi(ex.getloc(st, loc).e) < P))
    yield 'count<=n', lambda st, T: zi(T) <= S['n']

def t_rec(ex, st):
    v = sym(st, 'v', 32, 0, P - 1)
    o = ex.new_region(st, 'share', 8, 'input', {}); o.ro = True
    xx, yy = sym(st, 'x', 32, 0, P - 1), sym(st, 'y', 32, 1, P - 1)
    o.cells[0] = (4, IV(32, xx)); o.cells[4] = (4, IV(32, yy))
    c = 0
    for s, r in call(ex, st, SH + r'IncrementalReconstruct\(unsigned int, DPPIR::incremental_share_t const&\)', [IV(32, v), Ptr(o.rid, 0)]):
        c += 1
        ex.oblige(s, zi(ex.U(s, r)) == (v * yy + xx) % P, 'IncrementalReconstruct:ensures (tally*y+x) mod prime')
    return c

def has(ctx, pat): return len(ctx.mod.find(pat)) == 1
def c01(ctx):
    ov = []
    G = SH + r'\(anonymous namespace\)::GcdExtended\(unsigned int, unsigned int, long\*, long\*\)'
    M = SH + r'\(anonymous namespace\)::ModInverse\(unsigned int, unsigned int\)'
    g = [(G, gcd_contract)] if has(ctx, G) else []
    if g: ctx.run('GcdExtended', t_gcd, overrides=g)
    m = [(M, inv_contract)] if has(ctx, M) else []
    if m: ctx.run('ModInverse', t_inv, overrides=g)
    ctx.run('GenerateIncrementalTally', t_tally, overrides=m or g, templates=[tmpl_tally], urem_hooks=[inv_hook])
    ctx.run('IncrementalReconstruct', t_rec)

# ---------------------------------------------------------------- C02
def t_pre(ex, st):
    n = sym(st, 'n', 32)
    st.ghost['draws'] = 0
    ex.spec.update(n=n)
    out = obj(ex, st, 'result', 24, lazy=False)
    c = 0; k = z3.Int('k!q')
    D, B = models.DRAW, models.DRAWB
    for s, r in call(ex, st, SH + r'PreIncrementalSecretShares\(unsigned long\)', [out, IV(64, n)]):
        c += 1
        b, sz = vec_of(ex, s, out)
        X, Y = lane(s, b, (0, 4)), lane(s, b, (4, 4))
        ex.oblige(s, zi(sz) == n * 8, 'PreIncrementalSecretShares:ensures n shares')
        ex.oblige(s, forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(X[k] >= 0, X[k] < P, Y[k] >= 1, Y[k] < P))), 'PreIncrementalSecretShares:ensures shares in range')
        def form(i, j): return forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(X[k] == D(2*k+i), B(2*k+i) == P, Y[k] == D(2*k+j) + 1, B(2*k+j) == P - 1)))
        ok = False
        for f in (form(0, 1), form(1, 0)):
            if prove(s.facts, f, timeout=10)[0] == 'valid': ok = f
        ex.oblige(s, ok if ok is not False else z3.Or(form(0, 1), form(1, 0)), 'PreIncrementalSecretShares:ensures every part is an own uniform draw over exactly its range')
    return c
def tmpl_pre(lc):
    ex = lc.ex; S = ex.spec
    yield 'count<=n', lambda st, T: zi(T) <= S['n']
    D, B = models.DRAW, models.DRAWB; k = z3.Int('k!q')
    rids = sorted({loc[1] for loc in lc.mods if loc[0] == 'l'})
    for rid in rids:
        r = lc.st0.mem[rid]
        if set(r.segs[0].lanes) != {(0, 4), (4, 4)}: continue
        for i, j in ((0, 1), (1, 0)):
            def g(st, T, rid=rid, i=i, j=j):
                L = st.mem[rid].segs[0].lanes; X, Y = L[(0, 4)].a, L[(4, 4)].a
                return forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), z3.And(X[k] == D(2*k+i), B(2*k+i) == P, Y[k] == D(2*k+j) + 1, B(2*k+j) == P - 1, X[k] >= 0, X[k] < P, Y[k] >= 1, Y[k] < P)), patterns=[X[k], Y[k]])
            yield 'draws:%d%d' % (i, j), g
def c02(ctx):
    ctx.run('PreIncrementalSecretShares', t_pre, templates=[tmpl_pre])
