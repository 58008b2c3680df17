"""Contracts of the socket system calls, over ghost byte streams."""
from specs.common import *
NET = 'read/send move any prefix (possibly empty) of the requested bytes of an ordered byte stream, or fail; a failed call ends in a deliberate stop'
def bytes_at(ex, st, p, k):
    """byte k behind pointer p (p into a byte array or a structure of cells when k is concrete)"""
    p = ex.dealias(st, p); r = st.mem[p.rid]
    si = ex.find_lane_seg(st, r, p.off if isinstance(p.off, int) else simp(p.off))
    if si is None or set(r.segs[si].lanes) != {(0, 1)}: raise Unsupported('stream bytes in %s' % r.name)
    a = r.segs[si].lanes[(0, 1)].a
    return z3.Select(a if p.row is None else a[zi(p.row)], zi(add(sub(p.off, r.segs[si].base), k)))
def set_bytes(ex, st, p, n, src, at):
    """*p[0..n) := src[at..at+n)"""
    p = ex.dealias(st, p); r = st.mem[p.rid]
    si = ex.find_lane_seg(st, r, p.off if isinstance(p.off, int) else simp(p.off))
    if si is None or set(r.segs[si].lanes) != {(0, 1)}: raise Unsupported('stream bytes in %s' % r.name)
    r = st.wr(p.rid); g = r.segs[si]; l = g.lanes[(0, 1)].copy(); g.lanes[(0, 1)] = l
    old = l.a; new = fresh_arr('rcv', 0, 255); k = z3.Int('k!cp'); i0 = zi(sub(p.off, g.base))
    st.assume(forall([k], new[k] == z3.If(z3.And(i0 <= k, k < i0 + n), src[k - i0 + at], old[k]), patterns=[new[k]]))
    l.a = new
def io_stop(ex, st, f, a, path, x):
    if st.ghost.get('ioerr') is not True and not ex.abort_ok: ex.oblige(st, False, 'process-does-not-stop', x, assume=False)
    return []
def n_of(ex, st, v):
    n = ex.U(st, v); return simp(n) if isinstance(n, z3.ExprRef) else n
def fd_ok(ex, st, fd, x):
    if 'fd' in ex.spec: ex.oblige(st, zi(ex.S(st, fd)) == zi(ex.spec['fd']), 'uses its own connection', x)
def read(ex, st, f, a, path, x):
    Z = ex.spec; fd_ok(ex, st, a[0], x)
    n = n_of(ex, st, a[2])
    ex.region(st, a[1], n, x, write=True)
    bad = st.clone(); bad.ghost['ioerr'] = True
    k = fresh_int('got', 0); st.assume(z3.And(k >= 0, k <= zi(n))); st.assume(zi(n) < (1 << 63)) if not isinstance(n, int) else None
    pos = st.ghost['rpos']
    ex.oblige(st, zi(n) < (1 << 31), 'read size below 2^31', x)
    set_bytes(ex, st, a[1], k, Z['stream'], pos)
    st.ghost['rpos'] = add(pos, k)
    return [(st, IV(64, k)), (bad, IV(64, (1 << 64) - 1))]
def send(ex, st, f, a, path, x):
    Z = ex.spec; fd_ok(ex, st, a[0], x)
    n = n_of(ex, st, a[2]); ex.region(st, a[1], n, x)
    bad = st.clone(); bad.ghost['ioerr'] = True
    ex.oblige(st, zi(n) < (1 << 31), 'send size below 2^31', x)
    k = fresh_int('put', 0); st.assume(z3.And(k >= 0, k <= zi(n)))
    wire(ex, st, a[1], k, x)
    return [(st, IV(64, k)), (bad, IV(64, (1 << 64) - 1))]
def wire(ex, st, p, k, x):
    """k bytes behind p go on the wire: they must be the next expected ones"""
    Z = ex.spec; pos = st.ghost['wpos']; b = fresh_int('byte', 0); q = ex.dealias(st, p)
    if isinstance(k, int) and k <= 16 and not st.mem[q.rid].segs:
        for i in range(k):
            ex.oblige(st, zi(ex.U(st, ex.load(st, q.at(i), ('i', 8)))) == Z['expect'][zi(add(pos, i))], 'wire: the bytes sent are the next bytes of the message sequence', x)
        Z['sends'] = Z.get('sends', 0) + 1; st.ghost['wpos'] = add(pos, k); return
    s = st.clone(); s.assume(z3.And(b >= 0, b < zi(k)))
    ex.oblige(s, bytes_at(ex, s, p, b) == Z['expect'][zi(add(pos, b))], 'wire: the bytes sent are the next bytes of the message sequence', x)
    Z['sends'] = Z.get('sends', 0) + 1
    st.ghost['wpos'] = add(pos, k)
def Send(ex, st, f, a, path, x):
    """contract of common::Send(fd, buf, n): exactly the n bytes behind buf go on the wire"""
    fd_ok(ex, st, a[0], x); n = n_of(ex, st, a[2]); ex.region(st, a[1], n, x)
    ex.oblige(st, zi(n) < (1 << 31), 'Send:requires size below 2^31', x)
    wire(ex, st, a[1], n, x)
    h = ex.spec.get('after_send')
    if h: h(ex, st, n)
    return [(st, None)]
def Read(ex, st, f, a, path, x):
    """contract of common::Read(fd, buf, n): exactly the next n bytes of the stream are stored"""
    Z = ex.spec; fd_ok(ex, st, a[0], x); n = n_of(ex, st, a[2]); ex.region(st, a[1], n, x, write=True)
    ex.oblige(st, zi(n) < (1 << 31), 'Read:requires size below 2^31', x)
    pos = st.ghost['rpos']; q = ex.dealias(st, a[1])
    if isinstance(n, int) and n in (1, 2, 4, 8) and not st.mem[q.rid].segs:
        v = fresh_int('rd', 0, (1 << (8 * n)) - 1); bs = [Z['stream'][zi(add(pos, i))] for i in range(n)]
        st.assume(z3.And([z3.And(b >= 0, b < 256) for b in bs])); st.assume(v == sum([b * 256 ** i for i, b in enumerate(bs)]))
        ex.store(st, q, ('i', 8 * n), IV(8 * n, v))
    else: set_bytes(ex, st, a[1], zi(n), Z['stream'], pos)
    st.ghost['rpos'] = add(pos, n)
    return [(st, None)]
def listen(ex, st, f, a, path, x):
    ex.store(st, a[1], ('i', 32), IV(32, ex.spec['fd'])); return [(st, None)]
def connect(ex, st, f, a, path, x): return [(st, IV(32, ex.spec['fd']))]
def cstr(ex, st, f, a, path, x): return [(st, Ptr(ex.new_region(st, 'cstr', None, 'input').rid, 0))]
BASE = [(r'read', read), (r'send', send), (r'__assert_fail', io_stop), (r'perror', lambda ex, st, f, a, path, x: [(st, None)])]
CONN = [(r'DPPIR::sockets::common::ListenOn\(.*\)', listen), (r'DPPIR::sockets::common::ConnectTo\(.*\)', connect), (r'std::__cxx11::basic_string<.*>::c_str\(\) const', cstr)]
SEND_FN = r'DPPIR::sockets::common::Send\(int, char\*, unsigned long\)'
READ_FN = r'DPPIR::sockets::common::Read\(int, char\*, unsigned long\)'
CONTRACT = [(SEND_FN, Send), (READ_FN, Read)]
