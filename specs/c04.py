"""C04: onion encryption.  Sealed boxes (libsodium) are assumed correct: sealing a message of m bytes writes m+48 bytes, and opening
exactly those bytes with the matching key pair gives the message back.  CT[i] stands for the bytes produced by the seal of layer i."""
from specs.common import *
O = r'DPPIR::onion::'
B = 48; SEC = 76; L = SEC + B
CT = z3.Const('CT', z3.ArraySort(I, z3.ArraySort(I, I)))
def bts(st, rid):
    r = st.mem[rid]
    if r.alive and len(r.segs) == 1 and set(r.segs[0].lanes) == {(0, 1)}: return r.segs[0].lanes[(0, 1)].a
def tmpl(lc):
    ex = lc.ex; Z = ex.spec; N = Z['N']; x = z3.Int('x!q')
    yield 'count<=layers', lambda st, T: zi(T) <= N
    if 'seals' in lc.st0.ghost: yield 'one seal per layer', lambda st, T: zi(st.ghost['seals']) == zi(T)
    def holds(st, T, rid, base, lo):
        a = bts(st, rid); b = zi(base) + lo; T = zi(T)
        return forall([x], z3.Implies(z3.And(b <= x, x < b + L * T), a[x] == CT[N - T][x - b]), patterns=[a[x]])
    cells = [l for l in lc.mods if l[0] == 'c' and l[3] == 8 and isinstance(ex.getloc(lc.st0, l), Ptr)]
    for l in cells:
        yield 'points to the start %s' % (l,), lambda st, T, l=l: zi(ex.dealias(st, ex.getloc(st, l)).off) == 0
        for nm, lo in (('end', lambda T: L * (N - zi(T))), ('start', lambda T: z3.IntVal(0))):
            def f(st, T, l=l, lo=lo):
                p = ex.dealias(st, ex.getloc(st, l)); return holds(st, T, p.rid, p.off, lo(T))
            yield 'cipher so far at the %s of %s' % (nm, l), f
    for rid in list(lc.st0.mem):
        if rid in Z['old'] or bts(lc.st0, rid) is None: continue
        for nm, lo in (('end', lambda T: L * (N - zi(T))), ('start', lambda T: z3.IntVal(0))):
            yield 'cipher so far at the %s of block %s' % (nm, rid), lambda st, T, rid=rid, lo=lo: holds(st, T, rid, 0, lo(T))
def seal(ex, st, f, a, path, x):
    """crypto_box_seal(c, m, mlen, pk): layers are sealed from the innermost one outwards"""
    Z = ex.spec; N, fp = Z['N'], Z['first']
    c, m, pk = (ex.dealias(st, p) for p in (a[0], a[1], a[3])); mlen = zi(ex.U(st, a[2]))
    t = zi(st.ghost['seals']); i = N - 1 - t
    Z['sealed'] = Z.get('sealed', 0) + 1
    ex.oblige(st, t < N, 'OnionEncrypt:ensures no more than one layer per party', x)
    ex.oblige(st, mlen == SEC + L * t, 'OnionEncrypt:ensures every layer covers the secret and the whole inner cipher', x)
    for p, n, nm in ((m, mlen, 'reads inside the message'), (c, mlen + B, 'writes inside the cipher')):
        r = st.mem[p.rid]
        ex.oblige(st, z3.And(zi(p.off) >= 0, zi(p.off) + n <= zi(r.size)), 'crypto_box_seal:requires %s' % nm, x)
    if c.rid == m.rid: raise Unsupported('sealing in place')
    kp = ex.read(st, st.mem[pk.rid], pk, 32); ex.oblige(st, zi(kp.e) == Z['keys'][fp + i], 'OnionEncrypt:ensures the layer is sealed for its own party', x)
    A = bts(st, m.rid); q = fresh_int('q', 0)
    s = st.clone(); s.assume(z3.And(q >= 0, q < SEC)); s.assume(i * SEC >= 0)
    ex.oblige(s, A[zi(m.off) + q] == Z['SB'][i * SEC + q], 'OnionEncrypt:ensures the layer starts with the secret of its party', x)
    s = st.clone(); s.assume(z3.And(q >= SEC, q < mlen))
    ex.oblige(s, A[zi(m.off) + q] == CT[i + 1][q - SEC], 'OnionEncrypt:ensures the layer carries the cipher of the remaining parties', x)
    r = st.wr(c.rid); ln = r.segs[0].lanes[(0, 1)].copy(); r.segs[0].lanes[(0, 1)] = ln; old = ln.a
    new = fresh_arr('sealed', 0, 255); k = z3.Int('k!s')
    st.assume(z3.ForAll([k], new[k] == z3.If(z3.And(zi(c.off) <= k, k < zi(c.off) + mlen + B), CT[i][k - zi(c.off)], old[k]), patterns=[new[k]]))
    ln.a = new; st.ghost['seals'] = add(st.ghost['seals'], 1)
    return [(st, IV(32, 0))]
def t_enc(ex, st):
    fp = sym(st, 'first_party', 8); pc = sym(st, 'party_count', 8); nk = sym(st, 'keys', 32)
    st.assume(fp < pc); st.assume(pc <= nk); N = pc - fp
    s = array(ex, st, 'secrets', N * SEC, 1, [(0, 1)], ro=True)
    v, d = vector(ex, st, 'pkeys', nk, 32, [(0, 32)], ro=True)
    ex.spec.update(N=N, first=fp, SB=lane(st, s, (0, 1)), keys=lane(st, d, (0, 32)), old=set(st.mem)); st.ghost['seals'] = 0
    out = obj(ex, st, 'out', 8, lazy=False); c = 0; ex.spec['old'] = set(st.mem)
    for st, _ in call(ex, st, O + r'OnionEncrypt\(.*\)', [out, s, IV(8, fp), IV(8, pc), v]):
        c += 1
        p = ex.dealias(st, ex.load(st, out, ('ptr',))); q = fresh_int('q', 0)
        for s2, z in call(ex, st.clone(), O + r'CipherSize\(unsigned char\)', [IV(8, N)]):
            ex.oblige(s2, zi(ex.U(s2, z)) == L * N, 'CipherSize:ensures one secret and one seal per layer')
            ex.oblige(s2, zi(sub(st.mem[p.rid].size, p.off)) >= zi(ex.U(s2, z)), 'OnionEncrypt:ensures a cipher of the announced size')
        ex.oblige(st, zi(st.ghost['seals']) == N, 'OnionEncrypt:ensures one layer per party')
        s2 = st.clone(); s2.assume(z3.And(q >= 0, q < L * N))
        ex.oblige(s2, bts(s2, p.rid)[zi(p.off) + q] == CT[0][q], 'OnionEncrypt:ensures the outermost layer is returned')
    return c and ex.spec.get('sealed', 0)
def t_size(ex, st):
    k = sym(st, 'party_count', 8); c = 0
    for st, z in call(ex, st, O + r'CipherSize\(unsigned char\)', [IV(8, k)]):
        c += 1; ex.oblige(st, zi(ex.U(st, z)) == L * k, 'CipherSize:ensures one secret and one seal per layer')
    return c
PLAIN = z3.Const('PLAIN', z3.ArraySort(I, I))
def opened(ex, st, f, a, path, x):
    """crypto_box_seal_open(m, c, clen, pk, sk)"""
    Z = ex.spec; m, c, pk, sk = (ex.dealias(st, p) for p in (a[0], a[1], a[3], a[4])); clen = zi(ex.U(st, a[2])); n = L * Z['n']
    Z['opened'] = Z.get('opened', 0) + 1
    ex.oblige(st, clen == n, 'OnionDecrypt:ensures the whole layer is opened', x)
    rm = st.mem[m.rid]
    ex.oblige(st, z3.And(zi(m.off) >= 0, zi(m.off) + clen - B <= zi(rm.size)), 'crypto_box_seal_open:requires writes inside the message', x)
    rc = st.mem[c.rid]
    ex.oblige(st, z3.And(zi(c.off) >= 0, zi(c.off) + clen <= zi(rc.size)), 'crypto_box_seal_open:requires reads inside the cipher', x)
    q = fresh_int('q', 0); s = st.clone(); s.assume(z3.And(q >= 0, q < n))
    ex.oblige(s, bts(s, c.rid)[zi(c.off) + q] == Z['CB'][q], 'OnionDecrypt:ensures the given cipher is opened', x)
    for p, k, nm in ((pk, 'pk', 'public'), (sk, 'sk', 'secret')):
        v = ex.read(st, st.mem[p.rid], p, 32); ex.oblige(st, zi(v.e) == Z[k][0], 'OnionDecrypt:ensures the given %s key is used' % nm, x)
    r = st.wr(m.rid); ln = r.segs[0].lanes[(0, 1)].copy(); r.segs[0].lanes[(0, 1)] = ln; old = ln.a
    new = fresh_arr('opened', 0, 255); k = z3.Int('k!s')
    st.assume(z3.ForAll([k], new[k] == z3.If(z3.And(zi(m.off) <= k, k < zi(m.off) + clen - B), PLAIN[k - zi(m.off)], old[k]), patterns=[new[k]]))
    ln.a = new
    return [(st, IV(32, 0))]
def t_dec(ex, st):
    n = sym(st, 'party_count', 8, 1)
    cph = array(ex, st, 'cipher', n * L, 1, [(0, 1)], ro=True); pk = array(ex, st, 'pkey', 1, 32, [(0, 32)], ro=True); sk = array(ex, st, 'skey', 1, 32, [(0, 32)], ro=True)
    ex.spec.update(n=n, N=n, CB=lane(st, cph, (0, 1)), pk=lane(st, pk, (0, 32)), sk=lane(st, sk, (0, 32)), old=set(st.mem))
    out = obj(ex, st, 'layer', 8, lazy=False); c = 0
    for st, _ in call(ex, st, O + r'OnionDecrypt\(.*\)', [out, cph, IV(8, n), pk, sk]):
        for st, m in call(ex, st, O + r'OnionLayer::Msg\(\)', [out]):
            m = ex.dealias(st, m); q = fresh_int('q', 0); c += 1
            s = st.clone(); s.assume(z3.And(q >= 0, q < SEC))
            ex.oblige(s, z3.And(zi(m.off) >= 0, zi(m.off) + SEC <= zi(s.mem[m.rid].size)), 'Msg:ensures a secret inside the layer')
            ex.oblige(s, bts(s, m.rid)[zi(m.off) + q] == PLAIN[q], "Msg:ensures the party's own secret")
            for st2, p in call(ex, st, O + r'OnionLayer::NextLayer\(\)', [out]):
                p = ex.dealias(st2, p); s = st2.clone(); s.assume(z3.And(q >= 0, q < L * (n - 1))); s.assume(n > 1)
                ex.oblige(s, z3.And(zi(p.off) >= 0, zi(p.off) + L * (n - 1) <= zi(s.mem[p.rid].size)), 'NextLayer:ensures a cipher of the announced size for the remaining parties')
                ex.oblige(s, bts(s, p.rid)[zi(p.off) + q] == PLAIN[SEC + q], 'NextLayer:ensures the cipher of the remaining parties')
    return c and ex.spec.get('opened', 0)
def c04(ctx):
    ctx.assume_note('libsodium sealed boxes: crypto_box_seal succeeds and writes message length + 48 bytes; crypto_box_seal_open with the matching key pair inverts it')
    OV = [('crypto_box_seal', seal), ('crypto_box_seal_open', opened)]
    ctx.run('CipherSize', t_size)
    ctx.run('OnionEncrypt', t_enc, overrides=OV, templates=[tmpl])
    ctx.run('OnionDecrypt', t_dec, overrides=OV, templates=[tmpl])
