"""C21: per-sibling maps."""
import re
from specs.common import *
M = r'DPPIR::ServersMap<%s>::'
def types(mod):
    out = []
    for f in mod.find(r'DPPIR::ServersMap<.*>::operator\[\]\(unsigned char\)( const)?'):
        t = re.match(r'DPPIR::ServersMap<(.*)>::operator', f.dem).group(1)
        if t not in out: out.append(t)
    return sorted(out)
def tmpl_fill(lc):
    S = lc.ex.spec
    if 'fill' not in S: return
    k = z3.Int('k!q'); i, n, v = S['id'], S['count'], S['fill']
    yield 'count<=n', lambda st, T: zi(T) <= n
    yield 'id+count<=n', lambda st, T: i + zi(T) <= n - 1
    yield 'count<=id', lambda st, T: zi(T) <= i
    for loc in lc.mods:
        if loc[0] != 'l': continue
        def get(st, loc=loc): return st.mem[loc[1]].segs[loc[2]].lanes[loc[3]].a
        for nm, lo, hi in (('prefix', 0, lambda T: T), ('id+prefix', 0, lambda T: i + T), ('from id', i, lambda T: i + T)):
            yield 'filled ' + nm, lambda st, T, get=get, lo=lo, hi=hi: forall([k], z3.Implies(z3.And(lo <= k, k < hi(zi(T))), get(st)[k] == v), patterns=[get(st)[k]])
def setup(ex, st):
    n = sym(st, 'count', 8, 1); i = sym(st, 'id', 8); st.assume(i < n); ex.spec.update(id=i, count=n)
    return obj(ex, st, 'map', 32, lazy=False), i, n
def t_map(t, const, size):
    T = re.escape(t); op = M % T + r'operator\[\]\(unsigned char\)' + (' const' if const else '')
    def run(ex, st):
        o, i, n = setup(ex, st); c = 0
        for s, _ in call(ex, st, M % T + r'ServersMap\(unsigned char, unsigned char\)', [o, IV(8, i), IV(8, n)]):
            a = sym(s, 'a', 8); b = sym(s, 'b', 8); s.assume(z3.And(a < n, a != i, b < n, b != i))
            for u, p in call(ex, s, op, [o, IV(8, a)]):
                p = ex.dealias(u, p); sz = zi(u.mem[p.rid].size)
                ex.oblige(u, z3.And(zi(p.off) >= 0, zi(p.off) + size <= sz), 'operator[]:ensures a slot inside the storage')
                for w, q in call(ex, u, op, [o, IV(8, b)]):
                    c += 1; q = ex.dealias(w, q)
                    if p.rid != q.rid: raise Unsupported('slots in different blocks')
                    ex.oblige(w, z3.Implies(a == b, zi(p.off) == zi(q.off)), 'operator[]:ensures a server keeps its slot')
                    ex.oblige(w, z3.Implies(a != b, z3.Or(zi(p.off) + size <= zi(q.off), zi(q.off) + size <= zi(p.off))), 'operator[]:ensures slots of two servers do not overlap')
                    if size in (1, 4) and not const:
                        w2 = w.clone(); w2.assume(a != b)
                        old = rd(ex, w2, q, 8 * size); v = sym(w2, 'v', 8 * size)
                        ex.store(w2, p, ('i', 8 * size), IV(8 * size, v))
                        ex.oblige(w2, rd(ex, w2, q, 8 * size) == old, 'writing one slot keeps the others')
                        ex.oblige(w2, rd(ex, w2, p, 8 * size) == v, 'a slot keeps what was written')
        return c
    return run
def t_own(t, const):
    T = re.escape(t); op = M % T + r'operator\[\]\(unsigned char\)' + (' const' if const else '')
    def run(ex, st):
        ex.abort_ok = True
        o, i, n = setup(ex, st); c = 0
        for s, _ in call(ex, st, M % T + r'ServersMap\(unsigned char, unsigned char\)', [o, IV(8, i), IV(8, n)]):
            c += 1
            for u, p in ex.call(s, only(ex, op), [o, IV(8, i)], ('<spec>',)): ex.oblige(u, False, 'operator[]:ensures asking for the own id stops the process')
        return c
    return run
def t_fill(t, size):
    T = re.escape(t)
    def run(ex, st):
        o, i, n = setup(ex, st); c = 0
        v = sym(st, 'fill', 8 * size, 0, 1 if t == 'bool' else None); ex.spec['fill'] = v
        val_ = IV(8 * size, v) if t != 'bool' else v == 1
        for s, _ in call(ex, st, M % T + r'ServersMap\(unsigned char, unsigned char, %s\)' % T, [o, IV(8, i), IV(8, n), val_]):
            a = sym(s, 'a', 8); s.assume(z3.And(a < n, a != i))
            for u, p in call(ex, s, M % T + r'operator\[\]\(unsigned char\)', [o, IV(8, a)]):
                c += 1; ex.oblige(u, rd(ex, u, p, 8 * size) == v, 'ServersMap(fill):ensures every slot holds the fill value')
        return c
    return run
def c21(ctx):
    from irv import models
    for t in types(ctx.mod):
        T = re.escape(t)
        class E: pass
        e = E(); e.m = ctx.mod; e.layouts = {}
        try: size = models.layout(e, t)[0]
        except Unsupported: ctx.assume_note('instantiation for %s outside the verifier' % t); continue
        for const in (False, True):
            if has(ctx, M % T + r'operator\[\]\(unsigned char\)' + (' const' if const else '')):
                nm = '%s%s' % (t, ' const' if const else '')
                ctx.run('ServersMap<%s>' % nm, t_map(t, const, size)); ctx.run('ServersMap<%s> own id' % nm, t_own(t, const))
        if has(ctx, M % T + r'ServersMap\(unsigned char, unsigned char, %s\)' % T): ctx.run('ServersMap<%s> fill' % t, t_fill(t, size), templates=[tmpl_fill])
