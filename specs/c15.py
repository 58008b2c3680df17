"""C15: the in-place batch of ciphers."""
from specs.common import *
DRIVERS = {'c15': ['c15.cc']}
B = r'DPPIR::CipherBatch::'
def heap(st, old):
    """the block(s) allocated by the batch"""
    return [rid for rid, r in st.mem.items() if r.alive and rid not in old and r.kind == 'heap' and len(r.segs) == 1 and set(r.segs[0].lanes) == {(0, 1)}]
def A(st, rid): return st.mem[rid].segs[0].lanes[(0, 1)].a
def mono(st, S, T, ts):
    """true facts about products of non-negative numbers (instances)"""
    for t in ts:
        st.assume(z3.Implies(zi(t) >= 0, z3.And(zi(t) * S >= 0, zi(t) * S <= zi(t) * T)))
def tmpl(lc):
    ex = lc.ex; Z = ex.spec; S, L, ns, nl, old = Z['S'], Z['L'], Z['ns'], Z['nl'], Z['old']
    x = z3.Int('x!q'); ph = Z['phase']
    def facts(st, T):
        T = zi(T)
        for t in (T, T + 1):
            st.assume(z3.Implies(t >= 0, z3.And(t * S >= 0, t * L >= t * S)))
            st.assume(z3.Implies(z3.And(t >= 0, t <= ns), t * S <= ns * S)); st.assume(z3.Implies(z3.And(t >= 0, t <= nl), z3.And(t * L <= nl * L, t * S <= nl * S)))
    def cnt(st, T): facts(st, T); return zi(T) <= ns
    def cntl(st, T): facts(st, T); return zi(T) <= nl
    yield 'count<=ns', cnt
    yield 'count<=nl', cntl
    for l in lc.mods:
        if l[0] != 'l' or l[1] in old: continue
        def get(st, l=l): return st.mem[l[1]].segs[l[2]].lanes[l[3]].a
        def eq(st, a, lo, hi, src, d=0): return forall([x], z3.Implies(z3.And(lo <= x, x < hi), a[x] == src[x - d]), patterns=[a[x]])
        SH, LG, RM = Z['SH'], Z['LG'], Z['RM']
        yield 'shorts so far', lambda st, T, get=get: eq(st, get(st), 0, zi(T) * S, SH)
        yield 'all shorts', lambda st, T, get=get: eq(st, get(st), 0, ns * S, SH)
        yield 'longs so far', lambda st, T, get=get: eq(st, get(st), ns * S, ns * S + zi(T) * L, LG, ns * S)
        yield 'remainders so far', lambda st, T, get=get: eq(st, get(st), ns * S, ns * S + zi(T) * S, RM, ns * S)
        yield 'longs not yet taken', lambda st, T, get=get: eq(st, get(st), ns * S + zi(T) * L, ns * S + nl * L, LG, ns * S)
def popped(ex, st, f, a, path, x):
    Z = ex.spec; p = ex.dealias(st, a[0]); i = zi(ex.U(st, a[1])); S, L, nl = Z['S'], Z['L'], Z['nl']
    for t in (i, i + 1): st.assume(z3.Implies(z3.And(t >= 0, t <= nl), t * L <= nl * L))
    st.assume((i + 1) * L == i * L + L)
    b = fresh_int('byte', 0); st.assume(z3.And(b >= 0, b < L))
    ex.oblige(st, i < nl, 'PopLong:ensures no more long ciphers than were stored', x)
    r = st.mem[p.rid]
    ex.oblige(st, z3.And(zi(p.off) >= 0, zi(p.off) + L <= zi(r.size)), 'PopLong:ensures a cipher inside the allocation', x)
    ex.oblige(st, A(st, p.rid)[zi(p.off) + b] == Z['LG'][i * L + b], 'PopLong:ensures the next long cipher, unmodified', x)
    Z['pops'] = Z.get('pops', 0) + 1
    return [(st, None)]
def full(ex, st, f, a, path, x):
    Z = ex.spec; L, nl = Z['L'], Z['nl']; j = zi(ex.U(st, a[1])); v = zi(ex.tob(a[0]))
    st.assume(z3.Implies(j < nl, (j + 1) * L <= nl * L)); st.assume((j + 1) * L == j * L + L)
    ex.oblige(st, v == (j == nl), 'FullLong:ensures true exactly when all announced ciphers are in', x)
    Z['full'] = Z.get('full', 0) + 1
    return [(st, None)]
def final(ex, st, f, a, path, x):
    Z = ex.spec; b, e = ex.dealias(st, a[0]), ex.dealias(st, a[1]); S, L, ns, nl = Z['S'], Z['L'], Z['ns'], Z['nl']
    if b.rid != e.rid: raise Unsupported('iterators into different blocks')
    ex.oblige(st, zi(e.off) - zi(b.off) == ns * S + nl * S, 'begin/end:ensures all ciphers are listed', x)
    o = fresh_int('byte', 0)
    s1 = st.clone(); s1.assume(z3.And(o >= 0, o < ns * S))
    ex.oblige(s1, A(s1, b.rid)[zi(b.off) + o] == Z['SH'][o], 'final batch:ensures own ciphers first', x)
    s2 = st.clone(); s2.assume(z3.And(o >= 0, o < nl * S))
    ex.oblige(s2, A(s2, b.rid)[zi(b.off) + ns * S + o] == Z['RM'][o], 'final batch:ensures then the remainders in order', x)
    Z['fin'] = Z.get('fin', 0) + 1
    return [(st, None)]
OV = [(r'spec_check_full', full), (r'spec_check_popped', popped), (r'spec_check_final', final)]
def setup(ex, st):
    S = sym(st, 'S', 64, 1); L = sym(st, 'L', 64); st.assume(S <= L)
    ns = sym(st, 'ns', 32); nl = sym(st, 'nl', 32)
    st.assume(ns * S + nl * L < (1 << 62)); st.assume(ns * S >= 0); st.assume(nl * L >= 0); st.assume(nl * S >= 0); st.assume(nl * S <= nl * L)
    st.assume(L < (1 << 62))
    s = array(ex, st, 'shorts', ns * S, 1, [(0, 1)], ro=True); l = array(ex, st, 'longs', nl * L, 1, [(0, 1)], ro=True); r = array(ex, st, 'remainders', nl * S, 1, [(0, 1)], ro=True)
    ex.spec.update(S=S, L=L, ns=ns, nl=nl, SH=lane(st, s, (0, 1)), LG=lane(st, l, (0, 1)), RM=lane(st, r, (0, 1)), phase=0)
    b = obj(ex, st, 'batch', 64, lazy=False)
    ex.spec['old'] = set(st.mem)
    return b, s, l, r, ns, nl, S, L
def t_all(ex, st):
    b, s, l, r, ns, nl, S, L = setup(ex, st); Z = ex.spec
    for st, _ in call(ex, st, B + r'CipherBatch\(unsigned long, unsigned long\)', [b, IV(64, S), IV(64, L)]):
        for st, _ in call(ex, st, 'c15_fill', [b, s, l, IV(32, ns), IV(32, nl), IV(64, S), IV(64, L)]):
            for st, _ in call(ex, st, 'c15_process', [b, r, IV(32, nl), IV(64, S)]):
                call(ex, st, 'c15_final', [b])
    return Z.get('fin', 0) and Z.get('pops', 0) and Z.get('full', 0)
def t_set(ex, st):
    """random access: SetShort/GetShort"""
    b, s, l, r, ns, nl, S, L = setup(ex, st); Z = ex.spec; c = 0
    i = sym(st, 'i', 32); j = sym(st, 'j', 32); st.assume(z3.And(i < ns, j < ns))
    for t in (i, j):
        st.assume(t * S >= 0); st.assume((t + 1) * S <= ns * S); st.assume((t + 1) * S == t * S + S)
    st.assume(z3.Implies(i < j, (i + 1) * S <= j * S)); st.assume(z3.Implies(j < i, (j + 1) * S <= i * S))
    for st, _ in call(ex, st, B + r'CipherBatch\(unsigned long, unsigned long\)', [b, IV(64, S), IV(64, L)]):
        for st, _ in call(ex, st, B + r'Initialize\(unsigned int, unsigned int\)', [b, IV(32, ns), IV(32, nl)]):
            for st, p in call(ex, st, B + r'GetShort\(unsigned int\)', [b, IV(32, j)]):
                p = ex.dealias(st, p); a0 = A(st, p.rid); d = fresh_int('byte', 0); st.assume(z3.And(d >= 0, d < S))
                ex.oblige(st, z3.And(zi(p.off) >= 0, zi(p.off) + S <= zi(st.mem[p.rid].size)), 'GetShort:ensures a cipher inside the allocation')
                src = Ptr(s.rid, mul(i, S))
                for st, _ in call(ex, st, B + r'SetShort\(unsigned int, char const\*\)', [b, IV(32, i), src]):
                    for st, q in call(ex, st, B + r'GetShort\(unsigned int\)', [b, IV(32, i)]):
                        q = ex.dealias(st, q); c += 1
                        ex.oblige(st, A(st, q.rid)[zi(q.off) + d] == Z['SH'][i * S + d], 'GetShort after SetShort:ensures the stored cipher')
                        st.assume(i != j)
                        ex.oblige(st, A(st, p.rid)[zi(p.off) + d] == a0[zi(p.off) + d], 'SetShort:ensures other ciphers keep their bytes')
    return c
def c15(ctx):
    ctx.assume_note('the batch fits the address space (its size in bytes is below 2^62)')
    ctx.run('CipherBatch', t_all, overrides=OV, templates=[tmpl], budget=240)
    ctx.run('CipherBatch random access', t_set, overrides=OV)
