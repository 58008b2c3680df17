"""C13: offline secrets stored at parties and backend."""
from specs.common import *
DRIVERS = {'c13': ['c13.cc']}
SECRET = [(0, 8), (8, 8), (16, 4), (20, 4), (24, 52)]
IDX = z3.Function('IDX', I, I)            # inverse of the (injective) map j -> tag of the j-th secret
def maps(st): return [g for g in st.ghost if isinstance(g, tuple) and g[0] == 'umap' and g[2] == 'P']
def field_lanes(st, g):
    """[(node lane key, secret lane key)] of equal size (candidates; those that are not invariant are dropped)"""
    R = st.ghost[g[:2] + ('R',)]
    return [(k, w) for k in sorted(st.mem[R].segs[0].lanes) if k[0] >= 16 for w in SECRET if k[1] == w[1]]
def tmpl(lc):
    ex = lc.ex; Z = ex.spec; n = Z['n']; L = Z['L']; j = z3.Int('j!q'); t = z3.Int('t!q')
    tag = L[(0, 8)]
    yield 'count<=n', lambda st, T: zi(T) <= n
    for g in maps(lc.st0):
        if g not in lc.st0.ghost: continue
        R = lc.st0.ghost[g[:2] + ('R',)]
        def pres(st, T, g=g): return forall([j], z3.Implies(z3.And(0 <= j, j < zi(T)), st.ghost[g][tag[j]]), patterns=[tag[j]])
        def only(st, T, g=g): return forall([t], z3.Implies(st.ghost[g][t], z3.And(0 <= IDX(t), IDX(t) < zi(T), tag[IDX(t)] == t)), patterns=[st.ghost[g][t]])
        yield 'all stored tags present', pres
        yield 'only stored tags present', only
        for nk, sk in field_lanes(lc.st0, g):
            def fld(st, T, nk=nk, sk=sk, R=R):
                a = st.mem[R].segs[0].lanes[nk].a
                return forall([j], z3.Implies(z3.And(0 <= j, j < zi(T)), a[tag[j]] == L[sk][j]), patterns=[tag[j]])
            yield 'field %s=%s' % (nk, sk), fld
def lz(ex, st, p, size):
    return zi(ex.U(st, ex.load(st, p, ('i', size * 8)))) if size <= 8 else None
def found(ex, st, f, a, path, x):
    Z = ex.spec; L = Z['L']; j = zi(ex.U(st, a[3]))
    Z['found'] = Z.get('found', 0) + 1
    def chk(p, o, sk, name):
        p = ex.dealias(st, p)
        v = ex.read(st, st.mem[p.rid], p.at(o) if o else p, sk[1])
        ex.oblige(st, zi(v.e if hasattr(v, 'e') else ex.U(st, v)) == L[sk][j], name, x)
    if not Z['backend']: chk(a[0], 0, (8, 8), 'GetNextTag:ensures the stored next tag')
    chk(a[1], 0, (16, 4), 'GetIncremental:ensures the stored share (x)'); chk(a[1], 4, (20, 4), 'GetIncremental:ensures the stored share (y)')
    chk(a[2], 0, (24, 52), 'GetPreshare:ensures the stored preshare')
    return [(st, None)]
def ident(ex, st, f, a, path, x):
    Z = ex.spec; Z['ident'] = Z.get('ident', 0) + 1
    if not Z['backend']: ex.oblige(st, rd(ex, st, ex.dealias(st, a[0]), 64) == 0, 'GetNextTag:ensures 0 in simulated mode', x)
    p = ex.dealias(st, a[1])
    ex.oblige(st, rd(ex, st, p, 32) == 0, 'GetIncremental:ensures identity in simulated mode (x)', x)
    ex.oblige(st, rd(ex, st, p.at(4), 32) == 1, 'GetIncremental:ensures identity in simulated mode (y)', x)
    p = ex.dealias(st, a[2]); v = ex.read(st, st.mem[p.rid], p, 52)
    ex.oblige(st, zi(v.e if hasattr(v, 'e') else ex.U(st, v)) == 0, 'GetPreshare:ensures zero in simulated mode', x)
    return [(st, None)]
def dup(ex, st, f, a, path, x):
    ex.spec['dup'] = 1
    ex.oblige(st, z3.BoolVal(False), 'Store:ensures a tag already stored is not accepted again', x)
    return [(st, None)]
def maystop(ex, st, f, a, path, x):
    z = z3.Solver(); z.set('timeout', 1500); z.add(st.facts)
    if z.check() != z3.unsat: ex.spec['reached'] = 1
    st.ghost['may_stop'] = True
    return [(st, None)]
OV = [('spec_may_stop', maystop), ('spec_found', found), ('spec_identity', ident), ('spec_duplicate_accepted', dup)]
def secrets(ex, st, backend):
    n = sym(st, 'n', 32, 1)
    s = array(ex, st, 'secrets', n, 76, SECRET, ro=True)
    L = {k: lane(st, s, k) for k in SECRET}
    j = z3.Int('j!q')
    st.assume(forall([j], z3.Implies(z3.And(0 <= j, j < n), IDX(L[(0, 8)][j]) == j), patterns=[L[(0, 8)][j]]))
    ex.spec.update(n=n, L=L, backend=backend)
    return s, n
def t_find(backend):
    def run(ex, st):
        s, n = secrets(ex, st, backend); j = sym(st, 'j', 32); st.assume(j < n)
        call(ex, st, 'c13_backend' if backend else 'c13_party', [s, IV(32, n), IV(32, j)])
        return ex.spec.get('found', 0)
    return run
def t_dup(backend):
    def run(ex, st):
        s, n = secrets(ex, st, backend); j = sym(st, 'j', 32); st.assume(j < n); L = ex.spec['L']
        d = array(ex, st, 'dup', 1, 76, SECRET, ro=True)
        st.assume(lane(st, d, (0, 8))[0] == L[(0, 8)][j])
        r = ex.call(st, only(ex, 'c13_backend_dup' if backend else 'c13_party_dup'), [s, IV(32, n), d], ('<spec>',))
        for st, _ in r: ex.oblige(st, z3.BoolVal(False), 'Store:ensures a tag already stored is not accepted again')
        return ex.spec.get('reached', 0)
    return run
def t_sim(backend):
    def run(ex, st):
        ex.spec.update(backend=backend)
        t = array(ex, st, 'tag', 1, 8, [(0, 8)], ro=True); u = array(ex, st, 'tag2', 1, 8, [(0, 8)], ro=True)
        call(ex, st, 'c13_backend_sim' if backend else 'c13_party_sim', [t] if backend else [t, u])
        return ex.spec.get('ident', 0)
    return run
def c13(ctx):
    ctx.assume_note('std::unordered_map meets its contract (finite map, nodes do not move); lookups are for tags that were stored')
    for b, nm in ((False, 'PartyState'), (True, 'BackendState')):
        ctx.run(nm + ' store/lookup', t_find(b), overrides=OV, templates=[tmpl])
        ctx.run(nm + ' duplicate', t_dup(b), overrides=OV, templates=[tmpl])
        ctx.run(nm + ' simulated', t_sim(b), overrides=OV, templates=[tmpl])
