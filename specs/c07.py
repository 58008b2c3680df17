"""C07 noise ranges, C08 noise magnitudes."""
import z3
from irv.core import *
from irv.task import *
from irv import models
NS = r'DPPIR::noise::'

def pair32(ex, st, v):
    """std::pair<uint32_t,uint32_t> returned in a register"""
    a = ex.extract(st, v, 0, 4, 8); b = ex.extract(st, v, 4, 4, 8)
    return zi(ex.U(st, a)), zi(ex.U(st, b))
def t_range(ex, st):
    srv = sym(st, 'servers', 8, 1, 255); i = sym(st, 'id', 8); db = sym(st, 'db', 32, 1)
    st.assume(i < srv); st.assume(db >= srv)
    q, r = ex.divmod(st, db, srv); q = zi(q)
    # products are monotone (instances)
    for a in (i, i + 1):
        st.assume(z3.Implies(z3.And(a <= srv - 1, q >= 0), a * q <= (srv - 1) * q)); st.assume(z3.Implies(q >= 0, a * q >= 0))
    st.assume((srv - 1) * q == srv * q - q); st.assume((i + 1) * q == i * q + q)
    F = NS + r'FindRange\(unsigned char, unsigned char, unsigned int\)'
    c = 0
    for s, v in call(ex, st, F, [IV(8, i), IV(8, srv), IV(32, db)]):
        lo, hi = pair32(ex, s, v); c += 1
        ex.oblige(s, lo < hi, 'FindRange:ensures non-empty')
        ex.oblige(s, hi <= db, 'FindRange:ensures inside the database')
        ex.oblige(s, z3.Implies(i == 0, lo == 0), 'FindRange:ensures first range starts at key 0')
        ex.oblige(s, z3.Implies(i == srv - 1, hi == db), 'FindRange:ensures last range ends at the last key')
        s.assume(i + 1 < srv)
        if not feasible(s): continue
        for s2, v2 in call(ex, s, F, [IV(8, i + 1), IV(8, srv), IV(32, db)]):
            lo2, hi2 = pair32(ex, s2, v2); c += 1
            ex.oblige(s2, lo2 == hi, 'FindRange:ensures next range starts where this one ends')
    return c
def c07(ctx):
    ctx.run('FindRange', t_range)

LOG = models.LOG
def ND(ex, st, eps, delta):
    o = obj(ex, st, 'dist', 24, lazy=False)
    return o, call(ex, st, NS + r'NoiseDistribution::NoiseDistribution\(double, double\)', [o, FV(eps), FV(delta)])
def samplers(ex):
    out = []
    for n in ('Sample', 'SampleReal'):
        fs = ex.m.find(NS + r'NoiseDistribution::%s\(\) const' % n)
        if fs: out.append((n, fs[0]))
    return out
def t_noise(ex, st):
    eps, delta = fresh_real('eps'), fresh_real('delta')
    st.assume(z3.And(eps > 0, delta > 0, delta <= 1))
    cut = -(2 / eps) * LOG(delta)
    inv_eps = 2 / eps
    st.assume(inv_eps > 0); st.assume(LOG(delta) <= 0); st.assume(LOG(z3.RealVal(1)) == 0)
    st.assume(cut >= 0); st.assume(2 * cut < (1 << 32))      # "whose noise fits the sample type"
    c = 0
    o, outs = ND(ex, st, eps, delta)
    fs = samplers(ex)
    for s, _ in outs:
        for n, f in fs:
            s1 = s.clone(); s1.ghost['rseed'] = z3.Int('any_seed'); s1.ghost['rpos'] = 0
            for u, v in reachable(ex, ex.call(s1, f, [o], ('<spec>',))):
                c += 1; v = zi(ex.U(u, v))
                if n == 'Sample':
                    ex.oblige(u, z3.And(z3.ToReal(v) <= cut, z3.ToReal(v) > cut - 1), 'Sample:ensures the cutoff (2/epsilon)ln(1/delta) rounded down')
                else:
                    ex.oblige(u, z3.And(v >= 0, z3.ToReal(v) <= 2 * cut), 'SampleReal:ensures between zero and twice the cutoff')
                    R = models.RANDSEQ; sd = z3.Int('any_seed'); M = (1 << 31) - 1
                    r0, r1 = z3.ToReal(R(sd, z3.IntVal(0))) / M, z3.ToReal(R(sd, z3.IntVal(1))) / M
                    d = z3.If(r1 - z3.Q(1, 2) >= 0, r1 - z3.Q(1, 2), -(r1 - z3.Q(1, 2)))
                    L = LOG(1 - 2 * d)
                    sg = z3.If(r0 < z3.Q(1, 2), z3.RealVal(-1), z3.RealVal(1))
                    lap = -sg * inv_eps * L
                    m = z3.If(lap <= cut, lap, cut); w = z3.If(cut + m >= 0, cut + m, 0)
                    ex.oblige(u, z3.And(z3.ToReal(v) <= w, z3.ToReal(v) > w - 1), 'SampleReal:ensures clamped Laplace of scale 2/epsilon shifted by the cutoff')
    return c
def t_zero(ex, st):
    eps, delta = fresh_real('eps'), fresh_real('delta')
    st.assume(z3.Or(eps == 0, delta == 0))
    c = 0
    o, outs = ND(ex, st, eps, delta)
    for s, _ in outs:
        for n, f in samplers(ex):
            for u, v in reachable(ex, ex.call(s.clone(), f, [o], ('<spec>',))):
                c += 1
                ex.oblige(u, zi(ex.U(u, v)) == 0, '%s:ensures no noise when epsilon or delta is zero' % n)
    return c
def c08(ctx):
    ctx.assume_note('doubles are treated as real numbers and log as the mathematical logarithm (rounding, infinities and NaN are outside the proof; the native cross-check runs the real doubles)')
    ctx.run('NoiseDistribution', t_noise)
    ctx.run('NoiseDistribution-debug', t_zero)
