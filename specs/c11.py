"""C11, C12: reassembly of messages from the network, buffered sending."""
from specs.common import *
from specs import net
DRIVERS = {'c11': ['c11.cc'], 'c12': ['c11.cc']}
NS = 'DPPIR::sockets::'
def cells8(lc, rid):
    return [l for l in lc.mods if l[0] == 'c' and l[1] == rid and l[3] in (4, 8)]
def seglanes(lc):
    return [l for l in lc.mods if l[0] == 'l' and l[3] == (0, 1)]
def cv(ex, st, l): return zi(ex.U(st, st.mem[l[1]].cells[l[2]][1]))
def la(st, l): return st.mem[l[1]].segs[l[2]].lanes[l[3]].a
# ------------------------------------------------------------------ C11
def r_tmpl(lc):
    ex = lc.ex; Z = ex.spec; U = zi(Z['U']); S = Z['stream']; x = z3.Int('x!q')
    loc = [l for l in lc.mods if l[0] == 'c' and l[1] != Z['sock'].rid and l[3] == 4]
    obj_ = [l for l in lc.mods if l[0] == 'c' and l[1] == Z['sock'].rid and l[3] in (4, 8)]
    for d in loc:
        D = lambda st, d=d: cv(ex, st, d)
        yield 'done<=total', lambda st, T, D=D: D(st) <= Z['total']
        rem = lambda st, D=D: st.ghost['rpos'] - D(st) * U
        yield 'partial message', lambda st, T, rem=rem: z3.And(rem(st) >= 0, rem(st) < U)
        yield 'complete when done', lambda st, T, D=D, rem=rem: z3.Implies(D(st) == Z['total'], rem(st) == 0)
        for o in obj_:
            yield 'leftover %d' % o[2], lambda st, T, o=o, rem=rem: cv(ex, st, o) == rem(st)
        for l in seglanes(lc):
            g = ex_base(lc, l)
            yield 'carried bytes %d' % g, lambda st, T, l=l, D=D, rem=rem: forall([x], z3.Implies(z3.And(0 <= x, x < rem(st)), la(st, l)[x] == S[D(st) * U + x]), patterns=[la(st, l)[x]])
def ex_base(lc, l): return l[2]
def ask(ex, st, f, a, path, x):
    Z = ex.spec; k = fresh_int('ask', 1, (1 << 32) - 1); left = zi(ex.U(st, a[0])); done = zi(ex.U(st, a[1]))
    st.assume(z3.And(k >= 1, k <= left)); U = zi(Z['U'])
    if not isinstance(Z['U'], int):
        st.assume(k * U >= U); st.assume(z3.Implies(k < left, k * U + U <= left * U)); st.assume(k * U <= ((1 << 32) - 1) * U)
        st.assume(done * U + left * U == Z['total'] * U)
    Z['ask'] = k; Z['done'] = done
    return [(st, IV(32, k))]
def delivered(ex, st, f, a, path, x):
    Z = ex.spec; b, e = ex.dealias(st, a[0]), ex.dealias(st, a[1]); n = zi(ex.U(st, a[2])); k = zi(ex.U(st, a[3])); done = zi(ex.U(st, a[4])); U = zi(Z['U'])
    if b.rid != e.rid: raise Unsupported('iterators into different blocks')
    Z['base'] = b; Z['n'] = n; Z['seen'] = Z.get('seen', 0) + 1
    if not isinstance(Z['U'], int):
        st.assume(z3.Implies(n > k, n * U >= k * U + U)); st.assume(z3.Implies(n < k, n * U + U <= k * U)); st.assume(n * U >= 0); st.assume((done + n) * U == done * U + n * U)
    ex.oblige(st, n <= k, 'read:ensures at most as many messages as asked for', x)
    ex.oblige(st, zi(e.off) - zi(b.off) == n * U, 'read:ensures begin..end are the complete messages', x)
    ex.oblige(st, st.ghost['rpos'] <= done * U + k * U, 'read:ensures nothing beyond the asked messages is taken from the stream', x)
    ex.oblige(st, z3.And(st.ghost['rpos'] - (done + n) * U >= 0, st.ghost['rpos'] - (done + n) * U < U), 'read:ensures every complete message received is delivered', x)
    o = fresh_int('byte', 0); s = st.clone(); s.assume(z3.And(o >= 0, o < n * U))
    ex.oblige(s, net.bytes_at(ex, s, b, o) == Z['stream'][done * U + o], 'read:ensures exactly the next messages of the stream', x)
    return [(st, None)]
def any_(ex, st, f, a, path, x):
    k = fresh_int('any', 0, (1 << 32) - 1); st.assume(z3.And(k >= 0, k < (1 << 32))); return [(st, IV(32, k))]
def at(ex, st, f, a, path, x):
    Z = ex.spec; p = ex.dealias(st, a[0]); i = zi(ex.U(st, a[1]))
    if p.rid != Z['base'].rid: raise Unsupported('element in another block')
    ex.oblige(st, zi(p.off) - zi(Z['base'].off) == i * zi(Z['U']), 'operator[]:ensures the i-th message', x)
    return [(st, None)]
R_OV = [(r'spec_ask', ask), (r'spec_delivered', delivered), (r'spec_any', any_), (r'spec_at', at)] + net.BASE + net.CONN
def mk_sock(ex, st, cls, U):
    """a connected socket, built by the real constructor and Initialize"""
    Z = ex.spec; Z['fd'] = sym(st, 'fd', 31)
    s = cxx_obj(ex, st, cls, NS + cls); Z['sock'] = s; Z['U'] = U
    st.ghost['rpos'] = 0; st.ghost['wpos'] = 0
    cs = U if Z.get('cipher') else 124
    outs = []
    for st, _ in call(ex, st, NS + cls + r'::' + cls + r'\(unsigned long\)', [s, IV(64, cs)]):
        if cls == 'ServerSocket': outs += call(ex, st, NS + r'ServerSocket::Initialize\(int\)', [s, IV(32, sym(st, 'port', 31))])
        else: outs += call(ex, st, NS + r'ClientSocket::Initialize\(.*\)', [s, obj(ex, st, 'ip', 32), IV(32, sym(st, 'port', 31))])
    return s, outs
def sizes(ex, st, kind):
    Z = ex.spec
    if kind == 'cipher':
        Z['cipher'] = True; U = sym(st, 'ciphersize', 64, 1); st.assume(U <= 140000); return U
    return kind
def reader(cls, drv, kind):
    def t(ex, st):
        Z = ex.spec; U = sizes(ex, st, kind)
        Z['stream'] = fresh_arr('stream', 0, 255); tot = sym(st, 'total', 32); Z['total'] = tot
        s, outs = mk_sock(ex, st, cls, U); c = 0
        for st, _ in outs:
            for st, _ in call(ex, st, drv, [s, IV(8, 0), IV(32, tot)]):
                ex.oblige(st, st.ghost['rpos'] == tot * zi(U), 'reader:ensures exactly the announced messages are consumed'); c += 1
        return c and Z.get('seen')
    return t
def t_read(ex, st):
    """common::Read(fd, buf, n) takes exactly n bytes off the stream"""
    if not ex.m.find(net.READ_FN): return 1
    Z = ex.spec; n = sym(st, 'n', 31); fd = sym(st, 'fd', 31); Z['fd'] = fd; Z['stream'] = fresh_arr('stream', 0, 255); p0 = sym(st, 'p0', 62); st.ghost['rpos'] = p0
    b = array(ex, st, 'buf', n, 1, [(0, 1)]); Z['buf'] = b; Z['n'] = n; c = 0
    for st, _ in call(ex, st, net.READ_FN, [IV(32, fd), b, IV(64, n)]):
        ex.oblige(st, st.ghost['rpos'] == p0 + n, 'Read:ensures exactly n bytes consumed'); c += 1
        k = fresh_int('k', 0); st.assume(z3.And(k >= 0, k < n))
        ex.oblige(st, lane(st, b, (0, 1))[k] == Z['stream'][p0 + k], 'Read:ensures the bytes in order')
    return c
def rd_tmpl(lc):
    ex = lc.ex; Z = ex.spec; x = z3.Int('x!q')
    if 'buf' not in Z: return
    l = ('l', Z['buf'].rid, 0, (0, 1))
    p0 = lc.st0.ghost['rpos']
    for d in [q for q in lc.mods if q[0] == 'c' and q[3] in (4, 8)]:
        yield 'bytes %s' % (d,), lambda st, T, d=d: z3.And(st.ghost['rpos'] == p0 + cv(ex, st, d), cv(ex, st, d) <= Z['n'])
        yield 'copied %s' % (d,), lambda st, T, d=d: forall([x], z3.Implies(z3.And(0 <= x, x < cv(ex, st, d)), la(st, l)[x] == Z['stream'][p0 + x]), patterns=[la(st, l)[x]])
def le(a, pos, n): return sum([a[zi(pos) + i] * 256 ** i for i in range(n)])
def t_count_read(ex, st):
    Z = ex.spec; Z['stream'] = fresh_arr('stream', 0, 255); s, outs = mk_sock(ex, st, 'ServerSocket', 12); c = 0
    for st, _ in outs:
        for st, v in call(ex, st, NS + r'ServerSocket::ReadCount\(\)', [s]):
            ex.oblige(st, zi(ex.U(st, v)) == le(Z['stream'], 0, 4), 'ReadCount:ensures the value sent'); ex.oblige(st, zi(st.ghost['rpos']) == 4, 'ReadCount:ensures four bytes consumed'); c += 1
    return c
def t_count_send(ex, st):
    Z = ex.spec; Z['expect'] = fresh_arr('expect', 0, 255); s, outs = mk_sock(ex, st, 'ClientSocket', 12); c = 0
    for st, _ in outs:
        st.assume(z3.And([z3.And(Z['expect'][i] >= 0, Z['expect'][i] < 256) for i in range(4)]))
        v = sym(st, 'count', 32); st.assume(v == le(Z['expect'], 0, 4))
        for st, _ in call(ex, st, NS + r'ClientSocket::SendCount\(unsigned int\)', [s, IV(32, v)]):
            ex.oblige(st, zi(st.ghost['wpos']) == 4, 'SendCount:ensures four bytes sent'); c += 1
    return c and Z.get('sends')
def t_ready(ex, st):
    """the ready signal: one byte 1; waiting accepts exactly that"""
    Z = ex.spec; Z['expect'] = z3.K(I, z3.IntVal(1)); s, outs = mk_sock(ex, st, 'ServerSocket', 12); c = 0
    for st, _ in outs:
        for st, _ in call(ex, st, NS + r'ServerSocket::SendReady\(\)', [s]): ex.oblige(st, zi(st.ghost['wpos']) == 1, 'SendReady:ensures one byte'); c += 1
    return c
def t_wait(ex, st):
    Z = ex.spec; Z['stream'] = z3.K(I, z3.IntVal(1)); s, outs = mk_sock(ex, st, 'ClientSocket', 12); c = 0
    for st, _ in outs:
        for st, _ in call(ex, st, NS + r'ClientSocket::WaitForReady\(\)', [s]): ex.oblige(st, zi(st.ghost['rpos']) == 1, 'WaitForReady:ensures one byte consumed'); c += 1
    return c
C_OV = net.CONTRACT + net.BASE + net.CONN
def c11(ctx):
    ctx.assume_note(net.NET); ctx.assume_note('a reader asks for at least one message per call and clears the buffer between calls (as all callers in the repository do)')
    ctx.run('ServerSocket::ReadQueries', reader('ServerSocket', 'c11_server_queries', 12), overrides=R_OV, templates=[r_tmpl], budget=200)
    ctx.run('ClientSocket::ReadResponses', reader('ClientSocket', 'c11_client_responses', 52), overrides=R_OV, templates=[r_tmpl], budget=200)
    ctx.run('ServerSocket::ReadCiphers', reader('ServerSocket', 'c11_server_ciphers', 'cipher'), overrides=R_OV, templates=[r_tmpl], budget=200)
    ctx.run('ServerSocket::ReadCount', t_count_read, overrides=C_OV)
    ctx.run('ClientSocket::WaitForReady', t_wait, overrides=C_OV)
    ctx.run('common::Read', t_read, overrides=net.BASE, templates=[rd_tmpl])
# ------------------------------------------------------------------ C12
def w_tmpl(lc):
    ex = lc.ex; Z = ex.spec; U = zi(Z['U']); E = Z['expect']; x = z3.Int('x!q'); SZ = 140000
    obj_ = [l for l in lc.mods if l[0] == 'c' and l[1] == Z['sock'].rid and l[3] in (4, 8)]
    M = lambda st: zi(st.ghost['wmsgs'])
    def base(st, T):
        T = zi(T); st.assume((T + 1) * U == T * U + U)
        return z3.And(st.ghost['wpos'] == M(st) * U, M(st) >= 0, M(st) <= T, zi(st.ghost['cnt']) == T)
    yield 'whole messages on the wire', base
    yield 'buffer not full', lambda st, T: zi(T) - M(st) < Z['Q']
    yield 'count<=n', lambda st, T: zi(T) <= Z['n']
    for o in obj_:
        yield 'buffered messages %d' % o[2], lambda st, T, o=o: cv(ex, st, o) == zi(T) - M(st)
        yield 'buffered bytes %d' % o[2], lambda st, T, o=o: cv(ex, st, o) == (zi(T) - M(st)) * U
    for l in seglanes(lc):
        yield 'buffered content %d' % l[2], lambda st, T, l=l: forall([x], z3.Implies(z3.And(0 <= x, x < (zi(T) - M(st)) * U), la(st, l)[x] == E[M(st) * U + x]), patterns=[la(st, l)[x]])
def after_send(ex, st, n):
    """ghost: number of whole messages on the wire"""
    Z = ex.spec; U = zi(Z['U']); m = zi(st.ghost['wmsgs']); c = zi(st.ghost['cnt'])
    f = fresh_int('wm', 0); st.assume(f >= 0); st.assume(z3.Implies(zi(n) == (c - m) * U, f == c))
    st.ghost['wmsgs'] = f
def nxt(ex, st, f, a, path, x):
    Z = ex.spec; i = zi(ex.U(st, a[0])); U = zi(Z['U']); n = Z['n']; Q = Z['Q']; m = zi(st.ghost['wmsgs'])
    ex.oblige(st, i == zi(st.ghost['cnt']), 'driver sends in order', x)
    st.ghost['cnt'] = add(st.ghost['cnt'], 1)
    if not isinstance(Z['U'], int):
        st.assume(z3.Implies(i < n, i * U + U <= n * U)); st.assume(i * U >= 0)
        for t in (i - m, i - m + 1):
            st.assume(z3.Implies(t < Q, t * U + U <= Q * U)); st.assume(z3.Implies(t > Q, t * U >= Q * U + U)); st.assume(z3.Implies(t == Q, t * U == Q * U)); st.assume(z3.Implies(t >= 0, t * U >= 0))
    return [(st, None)]
W_OV = [(r'spec_next', nxt)] + net.CONTRACT + net.BASE + net.CONN
def writer(cls, drv, kind):
    def t(ex, st):
        Z = ex.spec; U = sizes(ex, st, kind); n = sym(st, 'n', 40); Z['n'] = n
        st.assume(n * zi(U) < (1 << 62)); st.assume(n * zi(U) >= 0)
        m = array(ex, st, 'messages', mul(n, U), 1, [(0, 1)], ro=True); Z['expect'] = lane(st, m, (0, 1)); Z['after_send'] = after_send
        if kind == 'cipher':
            q, r = ex.divmod(st, 140000, U); Z['Q'] = zi(q); st.assume(zi(q) >= 1)
        else: Z['Q'] = 140000 // U
        s, outs = mk_sock(ex, st, cls, U); c = 0
        for st, _ in outs:
            st.ghost['wmsgs'] = 0; st.ghost['cnt'] = 0
            for st, _ in call(ex, st, drv, [s, m, IV(64, n)] + ([IV(64, U)] if kind == 'cipher' else [])):
                ex.oblige(st, st.ghost['wpos'] == n * zi(U), 'Flush:ensures every message is on the wire'); c += 1
        return c and Z.get('sends')
    return t
def t_send(ex, st):
    """common::Send(fd, buf, n) puts exactly the n bytes on the wire, in order"""
    if not ex.m.find(net.SEND_FN): return 1
    Z = ex.spec; n = sym(st, 'n', 31); fd = sym(st, 'fd', 31); Z['fd'] = fd; p0 = sym(st, 'p0', 62); st.ghost['wpos'] = p0
    b = array(ex, st, 'buf', n, 1, [(0, 1)], ro=True); B = lane(st, b, (0, 1)); E = fresh_arr('expect', 0, 255); Z['expect'] = E; Z['n'] = n; c = 0
    x = z3.Int('x!q'); st.assume(forall([x], z3.Implies(z3.And(0 <= x, x < n), B[x] == E[p0 + x]), patterns=[B[x]]))
    for st, _ in call(ex, st, net.SEND_FN, [IV(32, fd), b, IV(64, n)]):
        ex.oblige(st, st.ghost['wpos'] == p0 + n, 'Send:ensures exactly n bytes on the wire'); c += 1
    return c and Z.get('sends')
def s_tmpl(lc):
    ex = lc.ex; Z = ex.spec; p0 = lc.st0.ghost['wpos']
    for d in [q for q in lc.mods if q[0] == 'c' and q[3] in (4, 8)]:
        yield 'sent %s' % (d,), lambda st, T, d=d: z3.And(st.ghost['wpos'] == p0 + cv(ex, st, d), cv(ex, st, d) <= Z['n'])
def c12(ctx):
    ctx.assume_note(net.NET)
    ctx.run('common::Send', t_send, overrides=net.BASE, templates=[s_tmpl])
    ctx.run('ServerSocket::SendResponse', writer('ServerSocket', 'c12_server_responses', 52), overrides=W_OV, templates=[w_tmpl], budget=200)
    ctx.run('ClientSocket::SendQuery', writer('ClientSocket', 'c12_client_queries', 12), overrides=W_OV, templates=[w_tmpl], budget=200)
    ctx.run('ClientSocket::SendCipher', writer('ClientSocket', 'c12_client_ciphers', 'cipher'), overrides=W_OV, templates=[w_tmpl], budget=200)
    ctx.run('ClientSocket::SendCount', t_count_send, overrides=C_OV)
    ctx.run('ServerSocket::SendReady', t_ready, overrides=C_OV)
