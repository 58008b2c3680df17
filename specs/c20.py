"""C20: database rows and comparison of responses."""
from specs.common import *
D = r'DPPIR::Database::'
FILL48 = z3.Function('blobfill48', I, I)
def tmpl_db(lc):
    n = lc.ex.spec['n']; k = z3.Int('k!q')
    yield 'count<=n', lambda st, T: zi(T) <= n
    for loc in sorted({l[1:] for l in lc.mods if l[0] == 'l'}, key=str):
        rid, seg, key = loc
        def get(st, rid=rid, seg=seg, key=key): return st.mem[rid].segs[seg].lanes[key].a
        if key == (0, 4): yield 'values', lambda st, T, get=get: forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), get(st)[k] == (2 * k) % (1 << 32)), patterns=[get(st)[k]])
        elif key[1] == 48: yield 'sig', lambda st, T, get=get: forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), get(st)[k] == FILL48(k % 128)), patterns=[get(st)[k]])
        elif key[1] == 1: yield 'sig%d' % key[0], lambda st, T, get=get: forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), get(st)[k] == k % 128), patterns=[get(st)[k]])
def t_db(ex, st):
    n = sym(st, 'rows', 32); ex.spec['n'] = n
    o = obj(ex, st, 'db', 16, lazy=False); c = 0
    for s, _ in call(ex, st, D + r'Database\(unsigned int\)', [o, IV(32, n)]):
        key = sym(s, 'key', 32); s1 = s.clone(); s1.assume(key < n)
        for u, p in call(ex, s1, D + r'Lookup\(unsigned int\) const', [o, IV(32, key)]):
            c += 1
            ex.oblige(u, rd(ex, u, p, 32) == (2 * key) % (1 << 32), 'Lookup:ensures the row holds twice the key')
            sig = [rd(ex, u, p.at(4 + j), 8) for j in range(48)]
            ex.oblige(u, z3.And([x == key % 128 for x in sig]), 'Lookup:ensures the signature is filled with the key modulo 128')
        s2 = s.clone(); s2.assume(n >= 1)
        for u, v in call(ex, s2, D + r'RandomRow\(\) const', [o]):
            c += 1; ex.oblige(u, val(ex, u, v) < n, 'RandomRow:ensures an existing key')
        for u, v in call(ex, s.clone(), D + r'Size\(\) const', [o]):
            ex.oblige(u, val(ex, u, v) == n, 'Size:ensures the number of rows')
    return c
def t_eq(op, neg):
    def run(ex, st):
        ps = []
        for nm in 'lr':
            p = obj(ex, st, nm, 52); st.mem[p.rid].ro = True; st.mem[p.rid].x['layout'] = [(0, 4)] + bytes_layout(4, 48); ps.append(p)
        # materialise the fields
        eqs = []
        for o, b in [(0, 32)] + [(4 + j, 8) for j in range(48)]:
            eqs.append(rd(ex, st, ps[0].at(o), b) == rd(ex, st, ps[1].at(o), b))
        c = 0
        for s, v in call(ex, st, r'DPPIR::operator%s\(DPPIR::Response const&, DPPIR::Response const&\)' % op, ps):
            c += 1; b = zi(ex.tob(v))
            ex.oblige(s, b == (z3.Not(z3.And(eqs)) if neg else z3.And(eqs)), 'operator%s:ensures true exactly when %s bytes are equal' % (op, 'not all' if neg else 'all'))
        return c
    return run
def c20(ctx):
    ctx.run('Database', t_db, templates=[tmpl_db], layouts=dict(RESP_BYTES))
    ctx.run('operator==', t_eq('==', False), unroll_exits=True); ctx.run('operator!=', t_eq('!=', True), unroll_exits=True)
