"""C03: additive response masks."""
from specs.common import *
from irv import models
SH = r'DPPIR::sharing::'
def FOLDW(o): return z3.Function('XFOLD_%d' % o, I, I)         # xor of the field at offset o of the draws 0..t-1
XOR = z3.Function('bv_xor', I, I, I)
def unfold(ex, st, T, o, u):
    f = FOLDW(o); T = zi(T)
    st.assume(f(z3.IntVal(0)) == 0)
    x = ex.bitfn(st, 'xor', f(T), models.RBUF(T, o, u), 8 * u)
    st.assume(f(T + 1) == x); st.assume(z3.And(f(T) >= 0, f(T) < (1 << (8 * u))))
    st.assume(XOR(f(T), z3.IntVal(0)) == f(T)); st.assume(XOR(z3.IntVal(0), f(T)) == f(T))
def tmpl(lc):
    ex = lc.ex; u = ex.spec['unit']; k = z3.Int('k!q'); n = ex.spec['n']
    yield 'count<n', lambda st, T: zi(T) <= n - 1
    if 'rbufs' in lc.st0.ghost: yield 'one draw per share', lambda st, T: zi(st.ghost['rbufs']) == zi(T)
    regs = {}
    for l in lc.mods:
        if l[0] == 'c' and l[3] == u: regs.setdefault(l[1], []).append(l[2])
    for rid, offs in regs.items():
        if len(offs) < 2: continue
        for o in sorted(offs):
            def acc(st, T, rid=rid, o=o):
                unfold(ex, st, T, o, u)
                return zi(ex.U(st, st.mem[rid].cells[o][1])) == FOLDW(o)(zi(T))
            yield 'fold %s+%d' % (rid, o), acc
    for l in lc.mods:
        if l[0] == 'l' and l[3][1] == u:
            def sh(st, T, l=l):
                a = st.mem[l[1]].segs[l[2]].lanes[l[3]].a
                return forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), a[k] == models.RBUF(k, l[3][0], u)), patterns=[a[k]])
            yield 'draws %s' % (l[3],), sh
def t_gen(u):
    def run(ex, st):
        n = sym(st, 'n', 64, 1); ex.spec.update(n=n, unit=u)
        st.ghost['rbufs'] = 0
        o = obj(ex, st, 'out', 24, lazy=False); c = 0
        for s, _ in call(ex, st, SH + r'GenerateAdditiveSecretShares\(unsigned long\)', [o, IV(64, n)]):
            c += 1
            b, ln = vec_of(ex, s, o)
            ex.oblige(s, zi(ln) == n * 52, 'GenerateAdditiveSecretShares:ensures n shares of full size')
            s0 = s.clone(); i = sym(s0, 'i', 64); s0.assume(i < n - 1)
            s1 = s.clone(); j = z3.Int('j_step'); s1.assume(z3.And(0 <= j, j < n - 1))
            lanes = s.mem[b.rid].segs[0].lanes
            for off in range(0, 52, u):
                a = lanes[(off, u)].a
                ex.oblige(s0, a[i] == models.RBUF(i, off, u), 'GenerateAdditiveSecretShares:ensures share %s comes from a draw of its own' % '[i]')
                # xor of all shares: G(0)=0, G(j+1)=G(j)^share[j]; induction: G(j)=FOLD(j) for j<n
                f = FOLDW(off); G = z3.Function('XG_%d' % off, I, I)
                unfold(ex, s1, j, off, u)
                s1.assume(G(j) == f(j)); s1.assume(G(j + 1) == XOR(G(j), a[j])); s1.assume(a[j] == models.RBUF(j, off, u)) if False else None
                ex.oblige(s1, z3.Implies(a[j] == models.RBUF(j, off, u), G(j + 1) == f(j + 1)), 'xor of the first j shares (induction step)')
                s2 = s.clone(); x = ex.bitfn(s2, 'xor', f(n - 1), f(n - 1), 8 * u); s2.assume(G(n - 1) == f(n - 1))
                s2.assume(f(z3.IntVal(0)) == 0)
                ex.oblige(s2, z3.And(a[n - 1] == f(n - 1), XOR(G(n - 1), a[n - 1]) == 0), 'GenerateAdditiveSecretShares:ensures the xor of all shares is zero')
        return c
    return run
def t_rec(u, alias):
    def run(ex, st):
        ex.spec['unit'] = u
        def mk(nm, ro):
            p = obj(ex, st, nm, 52); st.mem[p.rid].x['layout'] = [(o, u) for o in range(0, 52, u)]
            vals = [rd(ex, st, p.at(o), 8 * u) for o in range(0, 52, u)]
            st.mem[p.rid].ro = ro
            return p, vals
        t, tv = mk('tally', not alias); s_, sv = mk('share', True)
        d, dv = (t, tv) if alias else mk('target', False)
        c = 0
        for s, _ in call(ex, st, SH + r'AdditiveReconstruct\(DPPIR::Response const&, .*, DPPIR::Response\*\)', [t, s_, d]):
            c += 1
            for k, o in enumerate(range(0, 52, u)):
                x = ex.bitfn(s, 'xor', tv[k], sv[k], 8 * u)
                ex.oblige(s, rd(ex, s, d.at(o), 8 * u) == x, 'AdditiveReconstruct:ensures target = source xor share')
        return c
    return run
def c03(ctx):
    ctx.assume_note('4-byte words are xored as wholes; xor of words is the xor of their bytes')
    def vs(mk):
        return mk
    W, B = dict(layouts=RESP_WORDS, gap_unit=4), dict(layouts=RESP_BYTES_ALL, gap_unit=1)
    def either(name, f, **kw):
        # the task is parametrised by the granularity of the code's accesses
        def run(ex, st): return f(ex.gap_unit)(ex, st)
        ctx.run(name, run, variants=[W, B], **kw)
    either('GenerateAdditiveSecretShares', t_gen, templates=[tmpl])
    either('AdditiveReconstruct', lambda u: t_rec(u, False)); either('AdditiveReconstruct in place', lambda u: t_rec(u, True))
