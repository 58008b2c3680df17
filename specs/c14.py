"""C14: secrets of the client (and of a party's noise)."""
from specs.common import *
DRIVERS = {'c14': ['c14.cc']}
AA = z3.ArraySort(I, z3.ArraySort(I, I))
VX = {(0, 4): z3.Const('SHARE_X', AA), (4, 4): z3.Const('SHARE_Y', AA)}      # shares of the k-th secret
VN = z3.Function('SHARES', I, I)                                            # how many of them
def tmpl(lc):
    ex = lc.ex; Z = ex.spec; k = z3.Int('k!q')
    if 'n' in Z: yield 'count<=n', lambda st, T: zi(T) <= Z['n']
    if 'p' in Z: yield 'count<=parties', lambda st, T: zi(T) <= Z['p']
    def upto(st, T, body, pat): return forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), body), patterns=[pat])
    for l in lc.mods:
        if l[0] == 'rl':
            def rl(st, T, l=l):
                a = st.mem[l[1]].rowlen; return upto(st, T, a[k] == 8 * VN(k), a[k])
            yield 'number of shares %s' % l[1], rl
        if l[0] != 'l': continue
        L0 = lc.st0.mem[l[1]].segs[l[2]].lanes[l[3]]
        def get(st, l=l): return st.mem[l[1]].segs[l[2]].lanes[l[3]]
        if L0.kind == 'ptr':
            def po(st, T, get=get, o=l[3][0] % 24):
                a = get(st); return upto(st, T, z3.And(a.offs[k] == (0 if o == 0 else VN(k)), z3.Not(a.nulls[k])), a.offs[k])
            yield 'vector bounds %s' % (l[1:],), po
        elif lc.st0.mem[l[1]].fam:
            for lk, src in VX.items():
                if lk[1] != l[3][1]: continue
                def sh(st, T, get=get, src=src):
                    a = get(st).a; return upto(st, T, a[k] == src[k], a[k])
                yield 'shares %s=%s' % (l[1:], lk), sh
            if 'p' in Z:
                for c in (0, 1):
                    def idn(st, T, get=get, c=c):
                        a = get(st).a[z3.IntVal(0)]; return upto(st, T, a[k] == c, a[k])
                    yield 'identity %s %d' % (l[3], c), idn
        elif 'TG' in Z:
            for nm, src in (('tags', Z['TG']), ('preshares', Z['PR'])):
                def eq(st, T, get=get, src=src):
                    a = get(st).a; return upto(st, T, a[k] == src[k], a[k])
                if src is not None: yield '%s in %s' % (nm, l[1:]), eq
    if 'p' in Z:
        for l in lc.mods:
            if l[0] == 'rl':
                yield 'pushed', lambda st, T, l=l: st.mem[l[1]].rowlen[z3.IntVal(0)] == 8 * zi(T)
            if l[0] == 'l' and lc.st0.mem[l[1]].segs[l[2]].lanes[l[3]].kind == 'ptr':
                def pe(st, T, l=l):
                    a = st.mem[l[1]].segs[l[2]].lanes[l[3]]; z = z3.IntVal(0)
                    return z3.And(a.offs[z] == (0 if l[3][0] % 24 == 0 else zi(T)), z3.Not(a.nulls[z]))
                yield 'pushed %d' % l[3][0], pe
def make(ex, st, f, a, path, x):
    k = zi(ex.U(st, a[1])); p = ex.dealias(st, a[0])
    b, ln = vec_of(ex, st, p)
    n = VN(k); st.assume(z3.And(n >= 0, n <= 255))
    r = st.wr(b.rid); r.size = 8 * n; r.segs = [r.segs[0].copy()]
    if set(r.segs[0].lanes) != set(VX): raise Unsupported('layout of a share')
    for key in VX:
        c = r.segs[0].lanes[key].copy(); c.a = VX[key][k]; r.segs[0].lanes[key] = c
    for o in (8, 16): ex.store(st, p.at(o), ('ptr',), Ptr(b.rid, 8 * n))
    return [(st, None)]
def blob(ex, st, p, size):
    p = ex.dealias(st, p); v = ex.read(st, st.mem[p.rid], p, size); return zi(v.e if hasattr(v, 'e') else ex.U(st, v))
def loaded(ex, st, f, a, path, x):
    Z = ex.spec; k = zi(ex.U(st, a[2])); Z['loaded'] = Z.get('loaded', 0) + 1
    ex.oblige(st, rd(ex, st, ex.dealias(st, a[0]), 64) == Z['TG'][k], 'GetTag:ensures the tag of the secret stored at this position', x)
    p = ex.dealias(st, a[1]); b, ln = vec_of(ex, st, p)
    ex.oblige(st, zi(ln) == 8 * VN(k), 'GetIncrementalShares:ensures all shares of that secret', x)
    q = fresh_int('q', 0); st = st.clone() if False else st
    s = st.clone(); s.assume(z3.And(q >= 0, q < VN(k)))
    for key in VX:
        v = ex.read(s, s.mem[b.rid], Ptr(b.rid, add(b.off, add(mul(q, 8), key[0])), b.row), 4)
        ex.oblige(s, zi(ex.U(s, v)) == VX[key][k][q], 'GetIncrementalShares:ensures the shares of that secret, in order', x)
    return [(st, None)]
def response(ex, st, f, a, path, x):
    Z = ex.spec; k = zi(ex.U(st, a[1])); Z['resp'] = Z.get('resp', 0) + 1
    ex.oblige(st, blob(ex, st, a[0], 52) == Z['PR'][k], 'GetPreshare:ensures the preshare of the secret stored at this position', x)
    return [(st, None)]
def ident(ex, st, f, a, path, x):
    Z = ex.spec; Z['ident'] = Z.get('ident', 0) + 1
    if not is_null(a[0]):
        ex.oblige(st, rd(ex, st, ex.dealias(st, a[0]), 64) == 0, 'GetTag:ensures 0 in simulated mode', x)
        p = ex.dealias(st, a[1]); b, ln = vec_of(ex, st, p)
        ex.oblige(st, zi(ln) == 8 * Z['p'], 'GetIncrementalShares:ensures one share per party in simulated mode', x)
        s = st.clone(); q = fresh_int('q', 0); s.assume(z3.And(q >= 0, q < Z['p']))
        for o, want in ((0, 0), (4, 1)):
            v = ex.read(s, s.mem[b.rid], Ptr(b.rid, add(b.off, add(mul(q, 8), o)), b.row), 4)
            ex.oblige(s, zi(ex.U(s, v)) == want, 'GetIncrementalShares:ensures identity shares in simulated mode', x)
    if not is_null(a[2]): ex.oblige(st, blob(ex, st, a[2], 52) == 0, 'GetPreshare:ensures zero in simulated mode', x)
    return [(st, None)]
def is_null(p): return p.rid is None
OV = [('spec_make', make), ('spec_loaded', loaded), ('spec_response', response), ('spec_identity', ident)]
def t_use(fn, pre=True):
    def run(ex, st):
        n = sym(st, 'n', 32); parties = sym(st, 'parties', 8)
        t = array(ex, st, 'tags', n, 8, [(0, 8)], ro=True); p = array(ex, st, 'preshares', n, 52, [(0, 52)], ro=True)
        ex.spec.update(n=n, TG=lane(st, t, (0, 8)), PR=lane(st, p, (0, 52)) if pre else None)
        call(ex, st, fn, [IV(8, parties), IV(32, n), t] + ([p] if pre else []))
        return ex.spec.get('loaded', 0) and (not pre or ex.spec.get('resp', 0))
    return run
def t_sim(fn):
    def run(ex, st):
        n = sym(st, 'n', 32); m = sym(st, 'loads', 32); p = sym(st, 'parties', 8); ex.spec.update(p=p)
        call(ex, st, fn, [IV(8, p), IV(32, n), IV(32, m)])
        return ex.spec.get('ident', 0)
    return run
def c14(ctx):
    ctx.assume_note('no more secrets are stored, and no more loads made, than the count given to Initialize')
    ctx.run('ClientState: store all, query all, finish, respond to all', t_use('c14_batch'), overrides=OV, templates=[tmpl])
    ctx.run('ClientState: store and use one at a time', t_use('c14_interleaved'), overrides=OV, templates=[tmpl])
    ctx.run('ClientState: noise secrets', t_use('c14_noise', False), overrides=OV, templates=[tmpl])
    ctx.run('ClientState: simulated', t_sim('c14_sim'), overrides=OV, templates=[tmpl])
    ctx.run('ClientState: simulated noise', t_sim('c14_sim_noise'), overrides=OV, templates=[tmpl])
