"""C16, C17 (and the offline part of C18): a whole round of a party, from the first count to the last response,
against the contracts of sockets (C11, C12), shuffler (C05), noise (C07, C08), cipher batch (C15), onions (C04),
states (C13, C14) and handlers (C18)."""
from specs.common import *
from specs.c18 import blob, cell_obj, iv, noop, XOR52, SP
from irv.core import Blob
DRIVERS = {'c16': ['c17.cc'], 'c17': ['c17.cc']}
PR = r'DPPIR::protocol::'; SK = r'DPPIR::sockets::(ServerSocket|ClientSocket)::'; CB = r'DPPIR::CipherBatch::'; LS = r'DPPIR::shuffle::LocalShuffler::'
SMP = z3.Function('SAMPLE', I, I); PS = z3.Function('NOISE_BEFORE', I, I)          # i-th sample, sum of the first i
SH = z3.Function('SHUFFLE', I, I, I); SHI = z3.Function('UNSHUFFLE', I, I, I)      # of the v-th initialisation
NTAG = z3.Function('NOISE_TAG', I, I); NKEY = z3.Function('NOISE_KEY', I, I); NTAL = z3.Function('NOISE_TALLY', I, I, I)
HT = z3.Function('HANDLED_TAG', I, I); HY = z3.Function('HANDLED_TALLY', I, I, I)
LAY = {'DPPIR::Query': (12, [(0, 8), (8, 4)]), 'DPPIR::Response': (52, [(0, 52)]), 'std::array<char, 48ul>': (48, [(0, 48)]), 'unsigned long': (8, [(0, 8)]), 'unsigned int': (4, [(0, 4)])}
GH = ('smp', 'nq', 'hq', 'rq', 'wq', 'ds', 'rr', 'wr', 'ver', 'fwd', 'bwd', 'qopen', 'ropen', 'qflush', 'rflush', 'announced', 'made', 'ninit', 'qinit', 'cinit', 'cs', 'cl', 'cp', 'rc', 'copen', 'inst', 'wc', 'cflush')
U32 = 1 << 32
def u(ex, st, v): return zi(ex.U(st, v))
def G(st, n): return zi(st.ghost[n])
def inc(st, n): st.ghost[n] = z3.simplify(G(st, n) + 1)
def put(st, n, v): st.ghost[n] = zi(v)
# ------------------------------------------------------------------ contracts
def spec_party(ex, st, f, a, path, x):
    Z = ex.spec; pid, n, sid, srv, rows = (u(ex, st, v) for v in a)
    Z.update(pid=pid, parties=n, sid=sid, srv=srv, rows=rows)
    st.assume(z3.And(n >= 2, pid < n - 1, srv >= 1, sid < srv, rows >= srv))
    Z['lo'] = sym(st, 'range_start'); Z['hi'] = sym(st, 'range_end'); st.assume(z3.And(Z['lo'] < Z['hi'], Z['hi'] <= rows))
    Z['size'] = Z['hi'] - Z['lo']; Z['noise'] = PS(Z['size']); Z['N'] = Z['noise'] + Z['inputs']
    st.assume(z3.And(PS(z3.IntVal(0)) == 0, Z['noise'] >= 0, Z['N'] < U32))
    return [(st, None)]
def find_range(ex, st, f, a, path, x):
    Z = ex.spec
    ex.oblige(st, z3.And(u(ex, st, a[0]) == Z['sid'], u(ex, st, a[1]) == Z['srv'], u(ex, st, a[2]) == Z['rows']), 'noise range of this server over the whole database', x)
    return [(st, IV(64, z3.simplify(Z['hi'] * U32 + Z['lo'])))]
def unfold(st, Z, i):
    """definition of the prefix sums at i, and that they do not exceed the total"""
    i = zi(i)
    st.assume(z3.Implies(z3.And(0 <= i, i < Z['size']), z3.And(SMP(i) >= 0, PS(i + 1) == PS(i) + SMP(i), PS(i) >= 0, PS(i + 1) <= Z['noise'])))
    st.assume(z3.Implies(z3.And(0 <= i, i <= Z['size']), z3.And(PS(i) >= 0, PS(i) <= Z['noise'])))
def sample(ex, st, f, a, path, x):
    Z = ex.spec; k = G(st, 'smp'); ex.oblige(st, k < Z['size'], 'one noise sample per key of the range', x)
    unfold(st, Z, k); inc(st, 'smp'); return [(st, iv(st, 32, SMP(k)))]
def read_count(ex, st, f, a, path, x): return [(st, IV(32, ex.spec['inputs']))]
def send_count(ex, st, f, a, path, x):
    Z = ex.spec; ex.oblige(st, u(ex, st, a[1]) == Z['N'], 'SendCount:requires the number of queries that will be sent (inputs and noise)', x)
    ex.oblige(st, G(st, 'announced') == 0, 'the count is announced once', x); put(st, 'announced', 1); return [(st, None)]
def sh_facts(st, v, N):
    i = z3.Int('i!s')
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(SH(v, i) >= 0, SH(v, i) < N, SHI(v, SH(v, i)) == i)), patterns=[SH(v, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(SHI(v, i) >= 0, SHI(v, i) < N, SH(v, SHI(v, i)) == i)), patterns=[SHI(v, i)]))
def sh_init(ex, st, f, a, path, x):
    Z = ex.spec; ex.oblige(st, u(ex, st, a[1]) == Z['N'], 'LocalShuffler::Initialize:requires the size of the whole batch', x)
    inc(st, 'ver'); put(st, 'fwd', 1); put(st, 'bwd', 1); sh_facts(st, G(st, 'ver'), Z['N']); return [(st, None)]
def shuffle(ex, st, f, a, path, x):
    i = u(ex, st, a[1]); Z = ex.spec; v = G(st, 'ver')
    ex.oblige(st, z3.And(G(st, 'fwd') == 1, i >= 0, i < Z['N']), 'Shuffle:requires an index of the batch and an initialised shuffler', x)
    st.assume(z3.Implies(z3.And(i >= 0, i < Z['N']), z3.And(SH(v, i) < Z['N'], SHI(v, SH(v, i)) == i)))
    return [(st, iv(st, 32, SH(v, i)))]
def deshuffle(ex, st, f, a, path, x):
    i = u(ex, st, a[1]); Z = ex.spec; v = G(st, 'ver')
    ex.oblige(st, z3.And(G(st, 'bwd') == 1, i >= 0, i < Z['N']), 'Deshuffle:requires an index of the batch and an initialised shuffler', x)
    st.assume(z3.Implies(z3.And(i >= 0, i < Z['N']), z3.And(SHI(v, i) < Z['N'], SH(v, SHI(v, i)) == i)))
    inc(st, 'ds'); return [(st, iv(st, 32, SHI(v, i)))]
def setg(n, v):
    def h(ex, st, f, a, path, x): put(st, n, v); return [(st, None)]
    return h
def buf(ex, st, name, data, stride, start, k):
    """a LogicalBuffer listing the messages start..start+k of the region data"""
    b = ex.spec[name]; r = st.wr(b.rid)
    r.cells[0] = (8, Ptr(data.rid, mul(start, stride))); r.cells[12] = (4, IV(32, k)); return b
def reader(name, data, pos, opn, stride, limit, pre=None):
    def h(ex, st, f, a, path, x):
        Z = ex.spec; n = u(ex, st, a[1]); p = G(st, pos); lim = Z[limit]
        ex.oblige(st, z3.And(n >= 1, n <= lim - p), 'read:requires to ask for at least one and at most the outstanding messages', x)
        ex.oblige(st, G(st, opn) == 0, 'read:requires the previous messages to be cleared', x)
        if pre: pre(ex, st, x)
        k = fresh_int('delivered', 0, U32 - 1); st.assume(z3.And(k >= 0, k <= n)); put(st, opn, 1)
        b = buf(ex, st, name, Z[data], stride, p, k); put(st, pos, z3.simplify(p + k)); return [(st, b)]
    return h
def clear(ex, st, f, a, path, x):
    p = ex.dealias(st, a[0]); Z = ex.spec
    for n, g in (('qbuf', 'qopen'), ('rbuf', 'ropen'), ('cbuf', 'copen')):
        if n in Z and p.rid == Z[n].rid:
            st.wr(p.rid).cells[12 if n != 'cbuf' else 24] = (4, IV(32, 0)) if n != 'cbuf' else (8, IV(64, 0)); put(st, g, 0); return [(st, None)]
    raise Unsupported('clearing an unknown buffer')
def make_noise(ex, st, f, a, path, x):
    Z = ex.spec; k = G(st, 'nq'); key = u(ex, st, a[1]); p = ex.dealias(st, a[2]); i = key - Z['lo']
    unfold(st, Z, i)
    ex.oblige(st, z3.And(k >= 0, k < Z['noise'], G(st, 'ninit') == 1, *([k < G(st, 'made')] if Z['offline'] else [])), 'MakeNoiseQuery:requires an unused noise secret', x)
    ex.oblige(st, z3.And(i >= 0, i < Z['size'], PS(i) <= k, k < PS(i + 1)), 'for each key exactly as many noise queries as sampled', x)
    st.assume(NKEY(k) == key)      # history: the key of the k-th noise query
    ex.store(st, p, ('i', 64), iv(st, 64, NTAG(k))); ex.store(st, p.at(8), ('i', 32), iv(st, 32, NTAL(key, k)))
    inc(st, 'nq'); return [(st, None)]
def idx(ex, st, p, data, stride):
    """index of the message p points to, as an obligation-free term (offset must be the start of a message)"""
    if p.rid != ex.spec[data].rid: return None
    return p.off
def handle_q(ex, st, f, a, path, x):
    Z = ex.spec; p = ex.dealias(st, a[1]); t = ex.dealias(st, a[2]); k = G(st, 'hq')
    if p.rid != Z['inq'].rid: raise Unsupported('query handled from somewhere else')
    ex.oblige(st, z3.And(zi(p.off) == 12 * k, k < G(st, 'rq')), 'received queries are handled once each, in the order they came in', x)
    ex.oblige(st, z3.And(G(st, 'qinit') == 1, *([G(st, 'inst') == Z['inputs']] if Z['offline'] else [])), 'HandleQuery:requires the secrets to be installed', x)
    tag = rd(ex, st, p, 64); tal = rd(ex, st, p.at(8), 32)
    ex.store(st, t, ('i', 64), iv(st, 64, HT(tag))); ex.store(st, t.at(8), ('i', 32), iv(st, 32, HY(tag, tal)))
    inc(st, 'hq'); return [(st, None)]
def handle_r(ex, st, f, a, path, x):
    Z = ex.spec; tag = rd(ex, st, ex.dealias(st, a[1]), 64); p = ex.dealias(st, a[2]); t = ex.dealias(st, a[3])
    if p.rid != Z['inr'].rid: raise Unsupported('response handled from somewhere else')
    ex.oblige(st, zi(p.off) + 52 <= 52 * G(st, 'rr'), 'only received responses are handled', x)
    ex.write(st, st.wr(t.rid), t, 52, Blob(52, XOR52(blob(ex, st, p, 52), SP(tag)))); return [(st, None)]
def expected(Z, st, j):
    """query at shuffled-from index j: (tag, tally)"""
    tq, yq = Z['qtag'], Z['qtal']; i = j - Z['noise']
    return z3.If(j < Z['noise'], NTAG(j), HT(tq[i])), z3.If(j < Z['noise'], NTAL(NKEY(j), j), HY(tq[i], yq[i]))
def send_q(ex, st, f, a, path, x):
    Z = ex.spec; p = ex.dealias(st, a[1]); w = G(st, 'wq'); v = G(st, 'ver'); j = SHI(v, w)
    st.assume(z3.Implies(z3.And(w >= 0, w < Z['N']), z3.And(j >= 0, j < Z['N'], SH(v, j) == w)))
    ex.oblige(st, w < Z['N'], 'no more queries are sent than announced', x)
    t, y = expected(Z, st, j)
    ex.oblige(st, z3.And(rd(ex, st, p, 64) == t, rd(ex, st, p.at(8), 32) == y), 'SendQuery:requires the noise query or the handled query that the shuffle puts at this position', x)
    inc(st, 'wq'); put(st, 'qflush', 0); return [(st, None)]
def send_r(ex, st, f, a, path, x):
    Z = ex.spec; p = ex.dealias(st, a[1]); w = G(st, 'wr'); v = G(st, 'ver')
    ex.oblige(st, w < Z['inputs'], 'one response per received query', x)
    st.assume(z3.Implies(z3.And(w >= 0, w < Z['inputs']), z3.And(SH(v, w + Z['noise']) >= 0, SH(v, w + Z['noise']) < Z['N'])))
    ex.oblige(st, blob(ex, st, p, 52) == XOR52(Z['resp'][SH(v, w + Z['noise'])], SP(Z['qtag'][w])), 'SendResponse:requires the response to the next query in the order of arrival, unmasked with the preshare of that query', x)
    inc(st, 'wr'); put(st, 'rflush', 0); return [(st, None)]
def all_sent(ex, st, x):
    ex.oblige(st, z3.And(G(st, 'wq') == ex.spec['N'], G(st, 'qflush') == 1), 'all queries are on the wire before responses are awaited', x)
def client_init(ex, st, f, a, path, x):
    Z = ex.spec
    ex.oblige(st, z3.And(u(ex, st, a[1]) == Z['parties'] - Z['pid'] - 1, u(ex, st, a[2]) == Z['noise']), 'noise secrets:requires one per noise query, shared among the later parties', x)
    ex.oblige(st, z3.And(zi(ex.tob(a[3])), zi(ex.tob(a[4])) == z3.BoolVal(not Z['offline'])), 'noise secrets:requires the mode of the offline stage', x)
    put(st, 'ninit', 1); return [(st, None)]
def client_free(ex, st, f, a, path, x): put(st, 'ninit', 0); return [(st, None)]
def party_init(ex, st, f, a, path, x):
    ex.oblige(st, zi(ex.tob(a[1])) == z3.BoolVal(not ex.spec['offline']), 'installed secrets:requires the mode of the offline stage', x)
    put(st, 'qinit', 1); return [(st, None)]
def fresh(ex, st, name, size, **tags):
    r = ex.new_region(st, name, size, 'heap'); r.segs = [ex.array_seg(name, [(0, 1)], 1)]; r.x.update(tags); return Ptr(r.rid, 0)
def tagof(ex, st, p, t, x):
    p = ex.dealias(st, p); v = st.mem[p.rid].x.get(t) if p.rid in st.mem else None
    return v, p
def mk_secret(ex, st, f, a, path, x):
    Z = ex.spec; i = u(ex, st, a[2]); k = G(st, 'made')
    ex.oblige(st, z3.And(i == k, k < Z['noise'], G(st, 'ninit') == 1), 'MakeNoiseSecret:requires consecutive ids below the number of noise queries', x)
    inc(st, 'made'); ex.store(st, ex.dealias(st, a[0]), ('ptr',), fresh(ex, st, 'secrets', 76 * (Z['parties'] - Z['pid'] - 1), made=i)); return [(st, None)]
def encrypt(ex, st, f, a, path, x):
    Z = ex.spec; i, p = tagof(ex, st, a[1], 'made', x)
    if i is None: raise Unsupported('encryption of secrets made elsewhere')
    ex.oblige(st, z3.And(zi(p.off) == 0, u(ex, st, a[2]) == Z['pid'] + 1, u(ex, st, a[3]) == Z['parties']), 'OnionEncrypt:requires the secrets of one noise query, for all later parties', x)
    ex.store(st, ex.dealias(st, a[0]), ('ptr',), fresh(ex, st, 'cipher', Z['short'], own=i)); return [(st, None)]
def decrypt(ex, st, f, a, path, x):
    Z = ex.spec; i, p = tagof(ex, st, a[1], 'long', x)
    if i is None: raise Unsupported('decryption of something else than a received cipher')
    ex.oblige(st, z3.And(zi(p.off) == 0, u(ex, st, a[2]) == Z['parties'] - Z['pid']), 'OnionDecrypt:requires a received cipher with as many layers as remain', x)
    ex.store(st, ex.dealias(st, a[0]), ('ptr',), fresh(ex, st, 'layer', 76 + Z['short'], layer=i)); return [(st, None)]
def store(ex, st, f, a, path, x):
    i, p = tagof(ex, st, a[1], 'layer', x)
    if i is None: raise Unsupported('installed secret comes from somewhere else')
    ex.oblige(st, z3.And(zi(p.off) == 0, i == G(st, 'inst'), G(st, 'qinit') == 1), 'the secret of every received cipher is installed once', x); inc(st, 'inst'); return [(st, None)]
def cb_init(ex, st, f, a, path, x):
    Z = ex.spec; ex.oblige(st, z3.And(u(ex, st, a[1]) == Z['noise'], u(ex, st, a[2]) == Z['inputs']), 'CipherBatch:requires room for the noise and the received ciphers', x)
    for g in ('cs', 'cl', 'cp'): put(st, g, 0)
    put(st, 'cinit', 1); return [(st, None)]
def push_short(ex, st, f, a, path, x):
    Z = ex.spec; c = G(st, 'cs'); i, p = tagof(ex, st, a[1], 'own', x)
    ex.oblige(st, z3.And(G(st, 'cinit') == 1, c < Z['noise'] + G(st, 'cp')), 'PushShort:requires room before the ciphers not yet taken', x)
    if i is not None: ex.oblige(st, z3.And(zi(p.off) == 0, i == c, c < Z['noise']), 'own ciphers come first, one per noise query', x)
    else:
        i, p = tagof(ex, st, a[1], 'layer', x)
        if i is None: raise Unsupported('cipher from somewhere else')
        ex.oblige(st, z3.And(zi(p.off) == 76, Z['noise'] + i == c), 'the remainders of the received ciphers follow in order', x)
    inc(st, 'cs'); return [(st, None)]
def push_long(ex, st, f, a, path, x):
    Z = ex.spec; c = G(st, 'cl'); p = ex.dealias(st, a[1])
    if p.rid != Z['inc'].rid: raise Unsupported('cipher from somewhere else')
    ex.oblige(st, z3.And(G(st, 'cinit') == 1, zi(p.off) == Z['long'] * c, c < G(st, 'rc')), 'every received cipher is stored once, in order', x)
    inc(st, 'cl'); return [(st, None)]
def has_long(ex, st, f, a, path, x): return [(st, IV(1, z3.If(G(st, 'cp') < G(st, 'cl'), z3.IntVal(1), z3.IntVal(0))))]
def pop_long(ex, st, f, a, path, x):
    c = G(st, 'cp'); ex.oblige(st, z3.And(G(st, 'cinit') == 1, c < G(st, 'cl')), 'PopLong:requires a long cipher', x)
    inc(st, 'cp'); return [(st, fresh(ex, st, 'popped', ex.spec['long'], long=c))]
def get_short(ex, st, f, a, path, x):
    i = u(ex, st, a[1]); ex.oblige(st, z3.And(G(st, 'cinit') == 1, i >= 0, i < G(st, 'cs')), 'GetShort:requires a stored cipher', x)
    return [(st, fresh(ex, st, 'short', ex.spec['short'], short=i))]
def send_cipher(ex, st, f, a, path, x):
    Z = ex.spec; i, p = tagof(ex, st, a[1], 'short', x); w = G(st, 'wc'); v = G(st, 'ver')
    if i is None: raise Unsupported('cipher sent from somewhere else')
    ex.oblige(st, z3.And(w < Z['N'], zi(p.off) == 0, z3.Or(i == SH(v, w), i == SHI(v, w))), 'SendCipher:requires the cipher that the shuffle puts at this position', x)
    inc(st, 'wc'); put(st, 'cflush', 0); return [(st, None)]
def read_ciphers(ex, st, f, a, path, x):
    Z = ex.spec; n = u(ex, st, a[1]); p = G(st, 'rc'); L = Z['long']
    ex.oblige(st, z3.And(n >= 1, n <= Z['inputs'] - p), 'read:requires to ask for at least one and at most the outstanding messages', x)
    ex.oblige(st, G(st, 'copen') == 0, 'read:requires the previous messages to be cleared', x)
    k = fresh_int('delivered', 0, U32 - 1); st.assume(z3.And(k >= 0, k <= n)); put(st, 'copen', 1)
    st.assume(z3.And(k * L >= 0, k * L <= 140000, p * L >= 0, (p + k) * L == p * L + k * L)); Z['k'] = k
    b = Z['cbuf']; r = st.wr(b.rid); r.cells[0] = (8, Ptr(Z['inc'].rid, p * L)); r.cells[8] = (8, IV(64, L)); r.cells[24] = (8, IV(64, k * L)); put(st, 'rc', z3.simplify(p + k)); return [(st, b)]
def now(ex, st, f, a, path, x):
    t = fresh_int('now', 0, (1 << 62)); st.assume(z3.And(t >= 0, t < (1 << 62))); return [(st, IV(64, t))]
def spec_end(ex, st, f, a, path, x):
    Z = ex.spec; Z['ends'] = Z.get('ends', 0) + 1
    if Z['offline']:
        ex.oblige(st, z3.And(G(st, 'made') == Z['noise'], G(st, 'inst') == Z['inputs'], G(st, 'wc') == Z['N'], G(st, 'cflush') == 1, G(st, 'rc') == Z['inputs']), 'offline stage:ensures every secret is installed and every cipher is passed on once', x)
    if Z['prop'] == 'c17':
        ex.oblige(st, z3.And(G(st, 'wq') == Z['N'], G(st, 'qflush') == 1, G(st, 'announced') == 1), 'round:ensures as many queries sent (and flushed) as announced', x)
        ex.oblige(st, z3.And(G(st, 'nq') == Z['noise'], G(st, 'smp') == Z['size'], G(st, 'hq') == Z['inputs'], G(st, 'rq') == Z['inputs']), 'round:ensures all sampled noise and all received queries are in the batch', x)
    else:
        ex.oblige(st, z3.And(G(st, 'wr') == Z['inputs'], G(st, 'rflush') == 1), 'round:ensures exactly one response sent (and flushed) per received query', x)
        ex.oblige(st, G(st, 'rr') == Z['N'], 'round:ensures exactly one response read per sent query', x)
    return [(st, None)]
OV = [(r'spec_party', spec_party), (r'spec_end', spec_end), (r'DPPIR::noise::FindRange\(.*\)', find_range), (r'DPPIR::noise::NoiseDistribution::Sample\(\)( const)?', sample),
      (SK + r'ReadCount\(\)', read_count), (SK + r'SendCount\(.*\)', send_count), (SK + r'(WaitForReady|SendReady)\(\)', noop),
      (LS + r'Initialize\(unsigned int\)', sh_init), (LS + r'Shuffle\(unsigned int\)', shuffle), (LS + r'Deshuffle\(unsigned int\)', deshuffle), (LS + r'FinishForward\(\)', setg('fwd', 0)), (LS + r'FinishBackward\(\)', setg('bwd', 0)),
      (SK + r'ReadQueries\(unsigned int\)', reader('qbuf', 'inq', 'rq', 'qopen', 12, 'inputs')), (SK + r'ReadResponses\(unsigned int\)', reader('rbuf', 'inr', 'rr', 'ropen', 52, 'N', all_sent)),
      (r'DPPIR::(Cipher)?LogicalBuffer(<.*>)?::Clear\(\)', clear), (PR + r'Party::MakeNoiseQuery\(.*\)', make_noise), (PR + r'Party::HandleQuery\(.*\)', handle_q), (PR + r'Party::HandleResponse\(.*\)', handle_r),
      (SK + r'SendQuery\(.*\)', send_q), (SK + r'SendResponse\(.*\)', send_r), (SK + r'FlushQueries\(\)', setg('qflush', 1)), (SK + r'FlushResponses\(\)', setg('rflush', 1)),
      (r'DPPIR::PartyState::Initialize\(.*\)', party_init), (r'DPPIR::ClientState::Initialize\(.*\)', client_init), (r'DPPIR::ClientState::Free\(\)', client_free),
      (PR + r'Party::MakeNoiseSecret\(unsigned int\)', mk_secret), (r'DPPIR::onion::OnionEncrypt\(.*\)', encrypt), (r'DPPIR::onion::OnionDecrypt\(.*\)', decrypt), (r'DPPIR::PartyState::Store\(.*\)', store),
      (CB + r'Initialize\(.*\)', cb_init), (CB + r'Free\(\)', setg('cinit', 0)), (CB + r'PushShort\(.*\)', push_short), (CB + r'PushLong\(.*\)', push_long), (CB + r'PopLong\(.*\)', pop_long), (CB + r'HasLong\(\) const', has_long), (CB + r'GetShort\(.*\)', get_short),
      (SK + r'SendCipher\(.*\)', send_cipher), (SK + r'FlushCiphers\(\)', setg('cflush', 1)), (SK + r'ReadCiphers\(unsigned int\)', read_ciphers), (r'std::chrono::_V2::steady_clock::now\(\)', now)]
# ------------------------------------------------------------------ invariants
def arr(st, l): return st.mem[l[1]].segs[l[2]].lanes[l[3]].a
def tmpl(lc):
    ex = lc.ex; Z = ex.spec; k = z3.Int('k!q')
    if 'N' not in Z: return
    noise, N, inputs, size, lo = Z['noise'], Z['N'], Z['inputs'], Z['size'], Z['lo']
    gs = {l[1] for l in lc.mods if l[0] == 'g'}
    def F(st, T):
        unfold(st, Z, T)
        for g in ('smp',): unfold(st, Z, G(st, g))
        if Z['offline'] and 'cl' in gs:
            L = Z['long']; c = G(st, 'cl'); r = G(st, 'rc'); T = zi(T); st.assume(z3.And((c + 1) * L == c * L + L, z3.Implies(c < r, c * L + L <= r * L), z3.Implies(r < c, r * L + L <= c * L)))
            if 'k' in Z: st.assume(z3.And((T + 1) * L == T * L + L, z3.Implies(T < Z['k'], T * L + L <= Z['k'] * L), z3.Implies(T > Z['k'], T * L >= Z['k'] * L + L)))
    def bounds(st, T): F(st, T); return z3.And([G(st, g) >= 0 for g in GH])
    yield 'counters', bounds
    for g, hi in (('smp', size), ('nq', noise), ('hq', inputs), ('rq', inputs), ('wq', N), ('wr', inputs), ('ds', N), ('rr', N), ('made', noise), ('cs', N), ('cl', inputs), ('cp', inputs), ('rc', inputs), ('inst', inputs), ('wc', N)):
        if g in gs: yield g + ' bounded', lambda st, T, g=g, hi=hi: z3.And(G(st, g) >= 0, G(st, g) <= hi)
    for g in ('fwd', 'bwd', 'announced', 'ver', 'qflush', 'cinit', 'ninit', 'qinit'):
        if g in gs: yield g + ' kept', lambda st, T, g=g: G(st, g) == zi(lc.st0.ghost[g])
    for g in ('qopen', 'ropen', 'copen'):
        if g in gs: yield g + ' cleared', lambda st, T, g=g: G(st, g) == 0
    for g, h in (('hq', 'rq'), ('ds', 'rr'), ('cl', 'rc'), ('inst', 'cp'), ('made', 'cs')):
        if g in gs or h in gs:
            yield '%s==%s' % (g, h), lambda st, T, g=g, h=h: G(st, g) == G(st, h)
            yield '%s<=%s' % (g, h), lambda st, T, g=g, h=h: G(st, g) <= G(st, h)
    terms = []
    for g in ('smp', 'nq', 'hq', 'wq', 'wr', 'ds', 'made', 'cl', 'cp', 'inst', 'wc'):
        if g in gs:
            terms.append((g, lambda st, g=g: G(st, g)))
            if g == 'cl': terms.append(('inputs-cl', lambda st: inputs - G(st, 'cl')))
            if g == 'hq': terms.append(('noise+hq', lambda st: noise + G(st, 'hq')))
            if g == 'smp':
                terms.append(('PS(smp)', lambda st: PS(G(st, 'smp')))); terms.append(('lo+smp', lambda st: lo + G(st, 'smp')))
    if 'cs' in gs: yield 'cs==noise+cp', lambda st, T: G(st, 'cs') == noise + G(st, 'cp')
    if 'nq' in gs: yield 'noise of whole keys', lambda st, T: G(st, 'nq') == PS(zi(T))
    for l in lc.mods:
        if l[0] == 'c' and l[3] in (4, 8):
            v0 = ex.getloc(lc.st0, l)
            for n, t in terms:
                if isinstance(v0, IV): yield 'cell %s is %s' % (l[1:], n), lambda st, T, l=l, t=t: u(ex, st, ex.getloc(st, l)) == t(st)
                elif isinstance(v0, Ptr):
                    if n == 'cl': yield 'pointer %s is long*cl' % (l[1:],), lambda st, T, l=l: zi(ex.getloc(st, l).off) == Z['long'] * G(st, 'cl')
                    for s in sorted({g.stride for g in (lc.st0.mem[v0.rid].segs if v0.rid in lc.st0.mem else ())}): yield 'pointer %s is %d*%s' % (l[1:], s, n), lambda st, T, l=l, t=t, s=s: zi(ex.getloc(st, l).off) == s * t(st)
            if isinstance(v0, IV):
                yield 'cell %s bounded by batch' % (l[1:],), lambda st, T, l=l: z3.And(u(ex, st, ex.getloc(st, l)) >= 0, u(ex, st, ex.getloc(st, l)) <= N)
        if l[0] == 'l':
            r0 = lc.st0.mem[l[1]]; a = lambda st, l=l: arr(st, l)
            def upto(st, hi, body, pat): return forall([k], z3.Implies(z3.And(0 <= k, k < hi), body), patterns=[pat])
            st8 = r0.segs[l[2]].stride
            if st8 == 4 and 'smp' in gs: yield 'samples %s' % (l[1:],), lambda st, T, a=a: upto(st, G(st, 'smp'), a(st)[k] == SMP(k), a(st)[k])
            if st8 == 8 and 'hq' in gs: yield 'tags %s' % (l[1:],), lambda st, T, a=a: upto(st, G(st, 'hq'), a(st)[k] == Z['qtag'][k], a(st)[k])
            if st8 == 12:
                for n, g, lim in (('noise', 'nq', lambda st: G(st, 'nq')), ('all', 'hq', lambda st: noise + G(st, 'hq'))):
                    if g not in gs: continue
                    def q(st, T, a=a, lim=lim, w=0 if l[3] == (0, 8) else 1):
                        v = G(st, 'ver'); e = expected(Z, st, SHI(v, k))[w]
                        return forall([k], z3.Implies(z3.And(0 <= k, k < N, SHI(v, k) < lim(st)), a(st)[k] == e), patterns=[a(st)[k]])
                    yield 'queries (%s) %s' % (n, l[1:]), q
            if st8 == 52 and 'ds' in gs:
                def rs(st, T, a=a):
                    v = G(st, 'ver')
                    return forall([k], z3.Implies(z3.And(0 <= k, k < inputs, SH(v, noise + k) < G(st, 'ds')), a(st)[k] == XOR52(Z['resp'][SH(v, noise + k)], SP(Z['qtag'][k]))), patterns=[a(st)[k]])
                yield 'responses %s' % (l[1:],), rs
def task(prop, offline):
    def run(ex, st):
        Z = ex.spec; Z['prop'] = prop; Z['inputs'] = sym(st, 'inputs')
        for g in GH: put(st, g, 0)
        Z['inq'] = array(ex, st, 'in_queries', Z['inputs'], 12, [(0, 8), (8, 4)], ro=True); Z['qtag'] = lane(st, Z['inq'], (0, 8)); Z['qtal'] = lane(st, Z['inq'], (8, 4))
        n = fresh_int('responses', 0); st.assume(n >= 0); Z['inr'] = array(ex, st, 'in_responses', n, 52, [(0, 52)], ro=True); Z['resp'] = lane(st, Z['inr'], (0, 52)); Z['nresp'] = n
        Z['offline'] = offline
        if offline:
            S, L = sym(st, 'short', 32, 124), sym(st, 'long', 32); st.assume(L == S + 124); Z.update(short=S, long=L)
            n = fresh_int('cipher_bytes', 0); st.assume(n == Z['inputs'] * L); st.assume(n >= 0); Z['inc'] = array(ex, st, 'in_ciphers', n, 1, [(0, 1)], ro=True); Z['cbuf'] = obj(ex, st, 'cbuf', 40)
        for b in ('qbuf', 'rbuf'): Z[b] = obj(ex, st, b, 24)
        p = cxx_obj(ex, st, 'self', 'DPPIR::protocol::Party', lazy=True); st.mem[p.rid].x['lazyptr'] = True
        call(ex, st, 'c17_run', [p, IV(8, 1 if offline else 0)])
        return Z.get('ends', 0)
    return run
def c17(ctx):
    ctx.run('Party round (simulated offline stage)', task('c17', False), overrides=OV, templates=[tmpl], layouts=LAY, budget=300, fast_auto=True, no_unroll=True)
    ctx.run('Party round (with offline stage)', task('c17', True), overrides=OV, templates=[tmpl], layouts=LAY, budget=300, fast_auto=True, no_unroll=True)
def c16(ctx):
    ctx.run('Party round (simulated offline stage)', task('c16', False), overrides=OV, templates=[tmpl], layouts=LAY, budget=300, fast_auto=True, no_unroll=True)
    ctx.run('Party round (with offline stage)', task('c16', True), overrides=OV, templates=[tmpl], layouts=LAY, budget=300, fast_auto=True, no_unroll=True)
