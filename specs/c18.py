"""C18: what a client creates, what the parties and the backend do with it, and how it composes.  C19: tags."""
from specs.common import *
DRIVERS = {'c19': ['c19.cc']}
SH = r'DPPIR::sharing::'; PR = r'DPPIR::protocol::'
SECRET = [(0, 8), (8, 8), (16, 4), (20, 4), (24, 52)]
P = 2147483647
LAY = {'DPPIR::incremental_share_t': (8, [(0, 4), (4, 4)]), 'std::array<char, 52ul>': (52, [(0, 52)]), 'DPPIR::OfflineSecret': (76, SECRET)}
TALLY = z3.Function('TALLY', I, I, I, I)      # TALLY(key, x-array id, ...): the tally GenerateIncrementalTally computes (C01)
def blob(ex, st, p, size):
    p = ex.dealias(st, p); v = ex.read(st, st.mem[p.rid], p, size); return zi(v.e if hasattr(v, 'e') else ex.U(st, v))
def put_vec(ex, st, out, name, n, stride, lanes):
    d = array(ex, st, name, n, stride, lanes); e = mul(n, stride); st.mem[d.rid].kind = 'heap'
    for o, p in ((0, Ptr(d.rid, 0)), (8, Ptr(d.rid, e)), (16, Ptr(d.rid, e))): ex.store(st, out.at(o), ('ptr',), p)
    return d
def pre_inc(ex, st, f, a, path, x):
    """PreIncrementalSecretShares(n): n fresh shares (C02)"""
    n = zi(ex.U(st, a[1])); Z = ex.spec
    ex.oblige(st, z3.BoolVal('inc' not in st.ghost), 'one set of shares per secret', x)
    d = put_vec(ex, st, ex.dealias(st, a[0]), 'shares', n, 8, [(0, 4), (4, 4)])
    st.ghost['inc'] = (n, lane(st, d, (0, 4)), lane(st, d, (4, 4))); Z['n'] = n
    return [(st, None)]
def gen_add(ex, st, f, a, path, x):
    """GenerateAdditiveSecretShares(n): requires n>=1; n fresh shares whose xor is zero (C03)"""
    n = zi(ex.U(st, a[1])); ex.oblige(st, n >= 1, 'GenerateAdditiveSecretShares:requires n>=1', x)
    d = put_vec(ex, st, ex.dealias(st, a[0]), 'preshares', n, 52, [(0, 52)])
    st.ghost['add'] = (n, lane(st, d, (0, 52)))
    return [(st, None)]
def add_secret(ex, st, f, a, path, x):
    b, ln = vec_of(ex, st, ex.dealias(st, a[2])); r = st.mem[b.rid]
    ex.oblige(st, z3.BoolVal('added' not in st.ghost), 'one secret stored per secret made', x)
    L = r.segs[0].lanes if r.segs else None
    st.ghost['added'] = (rd(ex, st, a[1], 64), zi(ln), (L[(0, 4)].a, L[(4, 4)].a, zi(b.off)) if L else None, blob(ex, st, a[3], 52) if len(a) > 3 else None)
    return [(st, None)]
def cells8(ex, st):
    """the 64-bit values in memory at loop entry (candidates for the tag)"""
    out = {}
    for rid, r in st.mem.items():
        for o, (sz, v) in (r.cells or {}).items():
            if sz == 8 and isinstance(v, IV): out.setdefault(str(zi(v.e)), ('%s+%s' % (rid, o), zi(ex.U(st, v))))
    return list(out.values())[:8]
def tmpl(lc):
    ex = lc.ex; Z = ex.spec; k = z3.Int('k!q')
    if 'n' not in Z or 'inc' not in lc.st0.ghost or 'add' not in lc.st0.ghost: return
    n, X, Y = lc.st0.ghost['inc']; m, A = lc.st0.ghost['add']
    yield 'count<=parties', lambda st, T: zi(T) <= n
    for l in lc.mods:
        if l[0] == 'l':
            def get(st, l=l): return st.mem[l[1]].segs[l[2]].lanes[l[3]].a
            def upto(st, T, body, pat): return forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), body), patterns=[pat])
            for nm, src in (('x', X), ('y', Y), ('preshare', A)):
                def eq(st, T, get=get, src=src):
                    a = get(st); return upto(st, T, a[k] == src[k], a[k])
                yield '%s of every party so far %s' % (nm, l[1:]), eq
            if l[3][1] == 8:
                for nm, t in [('first', None)] + cells8(ex, lc.st0):
                    def tg(st, T, get=get, t=t):
                        a = get(st); v = a[z3.IntVal(0)] if t is None else t; return upto(st, T, a[k] == v, a[k])
                    yield 'same tag (%s) %s' % (nm, l[1:]), tg
        if l[0] == 'c' and l[3] == 8:
            v0 = ex.getloc(lc.st0, l)
            if isinstance(v0, IV):
                yield 'tag cell %s' % (l[1:],), lambda st, T, l=l, v0=v0: zi(ex.getloc(st, l).e) == zi(v0.e)
    # general shape of the chain: what the next party will look for
    for l in lc.mods:
        for l2 in lc.mods:
            if l[0] == 'c' and l[3] == 8 and isinstance(ex.getloc(lc.st0, l), IV) and l2[0] == 'l' and l2[3] == (8, 8):
                def ch(st, T, l=l, l2=l2): return z3.Implies(zi(T) > 0, zi(ex.getloc(st, l).e) == st.mem[l2[1]].segs[l2[2]].lanes[l2[3]].a[zi(T) - 1])
                yield 'chain %s %s' % (l[1:], l2[1:]), ch
    t1 = [l for l in lc.mods if l[0] == 'l' and l[3] == (0, 8)]; t2 = [l for l in lc.mods if l[0] == 'l' and l[3] == (8, 8)]
    for l in t1:
        for l2 in t2:
            if l[1] == l2[1]:
                def ln(st, T, l=l, l2=l2):
                    a = st.mem[l[1]].segs[l[2]].lanes[l[3]].a; b = st.mem[l2[1]].segs[l2[2]].lanes[l2[3]].a
                    return forall([k], z3.Implies(z3.And(1 <= k, k < zi(T)), a[k] == b[k - 1]), patterns=[a[k]])
                yield 'linked %s' % (l[1:],), ln
def t_secret(cls, fn, pre):
    def run(ex, st):
        o = cxx_obj(ex, st, 'self', PR.replace('\\', '') + cls, lazy=True); id_ = sym(st, 'id')
        out = obj(ex, st, 'result', 8, lazy=False); c = 0
        for s, _ in call(ex, st, PR + cls + '::' + fn + r'\(unsigned int\)', [out, o, IV(32, id_)]):
            if 'inc' not in s.ghost or 'add' not in s.ghost or 'added' not in s.ghost: raise Unsupported('the secret is not made and stored by the functions under contract')
            c += 1; n, X, Y = s.ghost['inc']; m, A = s.ghost['add']; tag, ln, L, last = s.ghost['added']
            p = ex.dealias(s, ex.load(s, out, ('ptr',)))
            q = fresh_int('q', 0); s.assume(z3.And(0 <= q, q < n))
            def f(o_, size, i): return blob(ex, s, Ptr(p.rid, add(p.off, add(mul(i, 76), o_)), p.row), size)
            ex.oblige(s, m == n + 1, fn + ':ensures one preshare per party and one for the maker')
            ex.oblige(s, z3.And(f(16, 4, q) == X[q], f(20, 4, q) == Y[q]), fn + ':ensures each party gets its own incremental share')
            ex.oblige(s, f(24, 52, q) == A[q], fn + ':ensures each party gets its own preshare')
            if L is None: raise Unsupported('stored shares')
            ex.oblige(s, z3.And(ln == 8 * n, L[2] == 0), fn + ':ensures all shares are stored')
            ex.oblige(s, z3.And(L[0][q] == X[q], L[1][q] == Y[q]), fn + ':ensures the stored shares are those given to the parties, in order')
            if pre: ex.oblige(s, last == A[n], fn + ':ensures the remaining preshare is stored')
            ex.oblige(s, f(0, 8, 0) == tag, fn + ':ensures the query will carry the tag under which the first party stores the secret')
            s1 = s.clone(); s1.assume(q + 1 < n)
            def f1(o_, size, i): return blob(ex, s1, Ptr(p.rid, add(p.off, add(mul(i, 76), o_)), p.row), size)
            ex.oblige(s1, f1(8, 8, q) == f1(0, 8, q + 1), fn + ':ensures every party stores the secret under the tag with which the previous one forwards the query')
        return c
    return run

# ---------------------------------------------------------------- handlers, against the contracts of states, sharing and database
REC = z3.Function('RECONSTRUCT', I, I, I, I)       # IncrementalReconstruct (C01)
XOR52 = z3.Function('XOR_RESPONSE', I, I, I)       # AdditiveReconstruct (C03)
TAL = z3.Function('GENERATE_TALLY', I, z3.ArraySort(I, I), z3.ArraySort(I, I), I, I)
NT, SX, SY, SP = (z3.Function(n, I, I) for n in ('NEXT_TAG', 'SHARE_X_OF', 'SHARE_Y_OF', 'PRESHARE_OF'))    # secret installed under a tag (C13)
ROW = z3.Function('ROW', I, I)                     # database (C20)
from irv.core import Blob
def cell_obj(ex, st, name, cells):
    r = ex.new_region(st, name, max(o + s for o, s, _ in cells), 'input', {}); r.ro = True
    for o, s, v in cells: r.cells[o] = (s, v)
    return Ptr(r.rid, 0)
def iv(st, bits, e): st.assume(z3.And(zi(e) >= 0, zi(e) < (1 << bits))); return IV(bits, e)
def rec(ex, st, f, a, path, x):
    t = zi(ex.U(st, a[0])); p = ex.dealias(st, a[1]); r = REC(t, rd(ex, st, p, 32), rd(ex, st, p.at(4), 32))
    return [(st, iv(st, 32, r))]
def addrec(ex, st, f, a, path, x):
    v = XOR52(blob(ex, st, a[0], 52), blob(ex, st, a[1], 52)); p = ex.dealias(st, a[2])
    ex.write(st, st.wr(p.rid), p, 52, Blob(52, v)); return [(st, None)]
def load_next(ex, st, f, a, path, x): st.ghost['loads'] = st.ghost.get('loads', 0) + 1; return [(st, None)]
def get_tag(ex, st, f, a, path, x):
    ex.oblige(st, z3.BoolVal(st.ghost.get('loads', 0) == 1), 'exactly one secret is loaded before it is used', x)
    return [(st, cell_obj(ex, st, 'tag', [(0, 8, iv(st, 64, ex.spec['ctag']))]))]
def get_inc(ex, st, f, a, path, x):
    ex.oblige(st, z3.BoolVal(st.ghost.get('loads', 0) == 1), 'exactly one secret is loaded before it is used', x)
    n = ex.spec['cn']; d = ex.new_region(st, 'loaded', 8 * n, 'input'); d.segs = [ex.array_seg('loaded', [(0, 4), (4, 4)], 8)]; d.ro = True
    for k, a_ in (((0, 4), ex.spec['cx']), ((4, 4), ex.spec['cy'])): c = d.segs[0].lanes[k].copy(); c.a = a_; d.segs[0].lanes[k] = c
    v = ex.new_region(st, 'loaded_vec', 24, 'input')
    for o, q in ((0, 0), (8, 8 * n), (16, 8 * n)): v.cells[o] = (8, Ptr(d.rid, q))
    return [(st, Ptr(v.rid, 0))]
def get_pre(ex, st, f, a, path, x):
    ex.oblige(st, z3.BoolVal(st.ghost.get('loads', 0) == 1), 'exactly one secret is loaded before it is used', x)
    return [(st, cell_obj(ex, st, 'preshare', [(0, 52, Blob(52, ex.spec['cpre']))]))]
def gen_tally(ex, st, f, a, path, x):
    b, ln = vec_of(ex, st, ex.dealias(st, a[1])); L = st.mem[b.rid].segs[0].lanes
    if not (isinstance(b.off, int) and b.off == 0): raise Unsupported('tally over part of the shares')
    return [(st, iv(st, 32, TAL(zi(ex.U(st, a[0])), L[(0, 4)].a, L[(4, 4)].a, zi(ln))))]
def p_load(ex, st, f, a, path, x): st.ghost['ptag'] = rd(ex, st, ex.dealias(st, a[1]), 64); return [(st, None)]
def p_get(what):
    def h(ex, st, f, a, path, x):
        t = rd(ex, st, ex.dealias(st, a[1]), 64) if len(a) > 1 else st.ghost.get('ptag')
        ex.oblige(st, z3.BoolVal(t is not None), 'a secret is loaded before it is used', x)
        if t is None: t = z3.IntVal(0)
        if what == 'next': return [(st, cell_obj(ex, st, 'next', [(0, 8, iv(st, 64, NT(t)))]))]
        if what == 'inc': return [(st, cell_obj(ex, st, 'share', [(0, 4, iv(st, 32, SX(t))), (4, 4, iv(st, 32, SY(t)))]))]
        return [(st, cell_obj(ex, st, 'pre', [(0, 52, Blob(52, SP(t)))]))]
    return h
def lookup(ex, st, f, a, path, x): return [(st, cell_obj(ex, st, 'row', [(0, 52, Blob(52, ROW(zi(ex.U(st, a[1])))))]))]
ST = r'DPPIR::(ClientState|PartyState|BackendState)::'
HOV = [(SH + r'IncrementalReconstruct\(.*\)', rec), (SH + r'AdditiveReconstruct\(.*\)', addrec), (SH + r'GenerateIncrementalTally\(.*\)', gen_tally),
       (r'DPPIR::ClientState::LoadNext\(\)', load_next), (r'DPPIR::ClientState::GetTag\(\)( const)?', get_tag), (r'DPPIR::ClientState::GetIncrementalShares\(\)( const)?', get_inc), (r'DPPIR::ClientState::GetPreshare\(\)( const)?', get_pre),
       (r'DPPIR::(Party|Backend)State::LoadSecret\(.*\)', p_load), (r'DPPIR::PartyState::GetNextTag\(\)( const)?', p_get('next')), (r'DPPIR::(Party|Backend)State::GetIncremental\(\)( const)?', p_get('inc')), (r'DPPIR::(Party|Backend)State::GetPreshare\(.*\)( const)?', p_get('pre')),
       (r'DPPIR::Database::Lookup\(.*\) const', lookup)]
def self_(ex, st, cls):
    ex.spec.update(ctag=sym(st, 'client_tag', 64), cn=sym(st, 'parties', 8, 1), cx=z3.Array('CX', I, I), cy=z3.Array('CY', I, I), cpre=fresh_int('client_preshare'))
    return cxx_obj(ex, st, 'self', 'DPPIR::protocol::' + cls, lazy=True)
def query(ex, st):
    t, y = sym(st, 'tag', 64), sym(st, 'tally', 32)
    return cell_obj(ex, st, 'query', [(0, 8, IV(64, t)), (8, 4, IV(32, y))]), t, y
def agg(v):
    return list(v.v)[:2]
def t_makequery(cls, fn):
    def run(ex, st):
        o = self_(ex, st, cls); key = sym(st, 'key'); Z = ex.spec; c = 0
        if cls == 'Client': outs = call(ex, st, PR + cls + '::' + fn + r'\(unsigned int\)', [o, IV(32, key)])
        else:
            tg = obj(ex, st, 'target', 12); outs = call(ex, st, PR + cls + '::' + fn + r'\(unsigned int, DPPIR::Query\*\)', [o, IV(32, key), tg])
        for s, v in outs:
            c += 1
            if cls == 'Client': tag, tally = [zi(ex.U(s, q)) for q in agg(v)]
            else: tag, tally = rd(ex, s, tg, 64), rd(ex, s, tg.at(8), 32)
            ex.oblige(s, z3.BoolVal(s.ghost.get('loads', 0) == 1), fn + ':ensures one secret is consumed per query')
            ex.oblige(s, tag == Z['ctag'], fn + ':ensures the query carries the tag of its secret')
            ex.oblige(s, tally == TAL(key, Z['cx'], Z['cy'], 8 * Z['cn']), fn + ':ensures the tally shares the key among all parties')
        return c
    return run
def t_handlequery(cls):
    def run(ex, st):
        o = self_(ex, st, cls); q, t, y = query(ex, st); tg = obj(ex, st, 'target', 12); c = 0
        for s, _ in call(ex, st, PR + cls + r'::HandleQuery\(DPPIR::Query const&, DPPIR::Query\*\)', [o, q, tg]):
            c += 1
            ex.oblige(s, rd(ex, s, tg, 64) == NT(t), 'HandleQuery:ensures the next tag of the secret installed under the tag of the query')
            ex.oblige(s, rd(ex, s, tg.at(8), 32) == REC(y, SX(t), SY(t)), 'HandleQuery:ensures the tally updated with the share of that secret')
        return c
    return run
def t_handleresp(cls):
    def run(ex, st):
        o = self_(ex, st, cls); t = sym(st, 'tag', 64); tp = cell_obj(ex, st, 'tagp', [(0, 8, IV(64, t))]); v = fresh_int('response'); rp = cell_obj(ex, st, 'resp', [(0, 52, Blob(52, v))]); tg = obj(ex, st, 'target', 52); c = 0
        for s, _ in call(ex, st, PR + cls + r'::HandleResponse\(unsigned long const&, DPPIR::Response const&, DPPIR::Response\*\)', [o, tp, rp, tg]):
            c += 1; ex.oblige(s, blob(ex, s, tg, 52) == XOR52(v, SP(t)), 'HandleResponse:ensures the response unmasked with the preshare of its query')
        return c
    return run
def t_backend(ex, st):
    o = self_(ex, st, 'BackendParty'); q, t, y = query(ex, st); out = obj(ex, st, 'out', 52); c = 0
    for s, _ in call(ex, st, PR + r'BackendParty::HandleQuery\(DPPIR::Query const&\)', [out, o, q]):
        c += 1; ex.oblige(s, blob(ex, s, out, 52) == XOR52(ROW(REC(y, SX(t), SY(t))), SP(t)), 'BackendParty::HandleQuery:ensures the row of the reconstructed key, masked with its preshare')
    return c
def t_recon(ex, st):
    o = self_(ex, st, 'Client'); v = fresh_int('response'); r = ex.new_region(st, 'resp', 52, 'input', {}); r.cells[0] = (52, Blob(52, v)); c = 0
    for s, _ in call(ex, st, PR + r'Client::ReconstructResponse\(DPPIR::Response\*\)', [o, Ptr(r.rid, 0)]):
        c += 1
        ex.oblige(s, z3.BoolVal(s.ghost.get('loads', 0) == 1), 'ReconstructResponse:ensures one secret is consumed per response')
        ex.oblige(s, blob(ex, s, Ptr(r.rid, 0), 52) == XOR52(v, ex.spec['cpre']), 'ReconstructResponse:ensures the response unmasked with the preshare of its query')
    return c
def c18(ctx):
    ov = [(SH + r'PreIncrementalSecretShares\(unsigned long\)', pre_inc), (SH + r'GenerateAdditiveSecretShares\(unsigned long\)', gen_add), (r'DPPIR::ClientState::Add(Noise)?Secret\(.*\)', add_secret)]
    for cls, fn, pre in (('Client', 'MakeSecret', True), ('Party', 'MakeNoiseSecret', False), ('ParallelParty', 'MakeNoiseSecret', False)):
        ctx.run(cls + '::' + fn, t_secret(cls, fn, pre), overrides=ov, templates=[tmpl], layouts=LAY)
    ctx.run('Client::MakeQuery', t_makequery('Client', 'MakeQuery'), overrides=HOV)
    for c in ('Party', 'ParallelParty'):
        ctx.run(c + '::MakeNoiseQuery', t_makequery(c, 'MakeNoiseQuery'), overrides=HOV)
        ctx.run(c + '::HandleQuery', t_handlequery(c), overrides=HOV)
        ctx.run(c + '::HandleResponse', t_handleresp(c), overrides=HOV)
    ctx.run('BackendParty::HandleQuery', t_backend, overrides=HOV)
    ctx.run('Client::ReconstructResponse', t_recon, overrides=HOV)


# ---------------------------------------------------------------- who makes and sends secrets
SK = r'DPPIR::sockets::'
def noop(ex, st, f, a, path, x): return [(st, None)]
def mk_secret(ex, st, f, a, path, x):
    """MakeSecret / MakeNoiseSecret (contract proved above): the secrets of the id-th query; called once per id, in order (the order in which they are consumed)"""
    i = zi(ex.U(st, a[2])); k = zi(st.ghost['made'])
    ex.oblige(st, i == k, 'secrets are made with consecutive distinct ids', x)
    st.ghost['made'] = z3.simplify(k + 1)
    r = ex.new_region(st, 'secrets', mul(ex.spec['later'], 76), 'heap'); r.segs = [ex.array_seg('secrets', SECRET, 76)]; r.x['made'] = i
    ex.store(st, ex.dealias(st, a[0]), ('ptr',), Ptr(r.rid, 0)); st.ghost['last'] = (r.rid, i)
    return [(st, None)]
# ---------------------------------------------------------------- C19
def tags(ex, st, fn, cls, args):
    """tag of the secret made for the given arguments; returns [(state, tag)]"""
    o = cxx_obj(ex, st, 'self', 'DPPIR::protocol::' + cls, lazy=True)
    for g in ('inc', 'add', 'added'): st.ghost.pop(g, None)
    return [(s, zi(ex.U(s, v))) for s, v in call(ex, st, fn, [o] + args)]
def pos(ex, st):
    n, _, _ = st.ghost['inc']; st.assume(n >= 1)     # a client or party always makes secrets for at least one (later) party
def pre_inc1(ex, st, f, a, path, x):
    r = pre_inc(ex, st, f, a, path, x); pos(ex, r[0][0]); return r
def t_ctags(ex, st):
    n = sym(st, 'count'); S = sym(st, 'servers', 8, 1); c = 0
    s1, s2 = sym(st, 'server1', 8), sym(st, 'server2', 8); i1, i2 = sym(st, 'id1'), sym(st, 'id2')
    st.assume(z3.And(s1 < S, s2 < S, i1 < n, i2 < n, S * n < (1 << 32)))
    for a, b in ((s1, s2), (s2, s1)):
        st.assume(z3.And(a * n <= (S - 1) * n, (S - 1) * n + n == S * n, z3.Implies(a < b, (a + 1) * n <= b * n), (a + 1) * n == a * n + n, a * n >= 0))   # instances of monotonicity of multiplication
    for s, t1 in tags(ex, st, 'c19_client', 'Client', [IV(8, s1), IV(32, n), IV(32, i1)]):
        ex.oblige(s, z3.And(t1 >= 0, t1 < S * n), 'client tags:ensures below the total number of queries')
        for r, t2 in tags(ex, s, 'c19_client', 'Client', [IV(8, s2), IV(32, n), IV(32, i2)]):
            c += 1; ex.oblige(r, z3.Or(t1 != t2, z3.And(s1 == s2, i1 == i2)), 'client tags:ensures distinct for distinct queries')
    return c
def t_ptags(ex, st):
    n, m = sym(st, 'inputs'), sym(st, 'noise'); i1, i2 = sym(st, 'id1'), sym(st, 'id2'); c = 0
    st.assume(z3.And(n + m < (1 << 32), i1 < m, i2 < m))
    for s, t1 in tags(ex, st, 'c19_party', 'Party', [IV(32, n), IV(32, m), IV(32, i1)]):
        ex.oblige(s, z3.And(t1 >= n, t1 < n + m), 'noise tags:ensures above the tags of the input, below the size of the batch')
        for r, t2 in tags(ex, s, 'c19_party', 'Party', [IV(32, n), IV(32, m), IV(32, i2)]):
            c += 1; ex.oblige(r, z3.Or(t1 != t2, i1 == i2), 'noise tags:ensures distinct for distinct noise queries')
    return c
def t_pptags(ex, st):
    p1, p2, s1, s2 = (sym(st, x, 8) for x in ('party1', 'party2', 'server1', 'server2')); i1, i2 = sym(st, 'id1'), sym(st, 'id2'); c = 0
    for s, t1 in tags(ex, st, 'c19_parallel', 'ParallelParty', [IV(8, p1), IV(8, s1), IV(32, i1)]):
        ex.oblige(s, t1 >= 1 << 32, 'noise tags of parallel servers:ensures no tag of a client')
        for r, t2 in tags(ex, s, 'c19_parallel', 'ParallelParty', [IV(8, p2), IV(8, s2), IV(32, i2)]):
            c += 1; ex.oblige(r, z3.Or(t1 != t2, z3.And(p1 == p2, s1 == s2, i1 == i2)), 'noise tags of parallel servers:ensures distinct for distinct noise queries of all servers of all parties')
    return c
def c19(ctx):
    ctx.assume_note('C19: the total number of queries (clients and noise) of a batch is below 2^32, all clients make the same number of queries, rows >= servers')
    ov = [(SH + r'PreIncrementalSecretShares\(unsigned long\)', pre_inc1), (SH + r'GenerateAdditiveSecretShares\(unsigned long\)', gen_add), (r'DPPIR::ClientState::Add(Noise)?Secret\(.*\)', add_secret)]
    ctx.run('tags of clients', t_ctags, overrides=ov, templates=[tmpl], layouts=LAY)
    ctx.run('tags of the noise of a party', t_ptags, overrides=ov, templates=[tmpl], layouts=LAY)
    ctx.run('tags of the noise of parallel servers', t_pptags, overrides=ov, templates=[tmpl], layouts=LAY)
