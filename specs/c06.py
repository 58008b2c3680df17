"""C06: the counts and maps the servers of one party derive from the shared seed."""
from specs.common import *
from specs import c05
from irv import models
DRIVERS = {'c06': ['c06.cc']}
PS_ = r'DPPIR::shuffle::ParallelShuffler::'
SHUF = r'void DPPIR::shuffle::util::shuffle<unsigned char>\(unsigned char\*, unsigned long\)'
OFF = z3.Function('FIRST_OF', I, I); END = z3.Function('END_OF', I, I)       # global indices of the messages of a server
IDM = z3.Function('OWNER_BEFORE', I, I); MAP = z3.Function('TARGET_OF', I, I)  # map before and after the shared shuffle
CNT = z3.Function('SENT', I, I, I, I)       # SENT(q,g,t): messages of q for g among the first t of the whole batch
CNN = z3.Function('NOISE_SENT', I, I, I)    # NOISE_SENT(g,t): noise messages of this server for g among the first t
TGT = z3.Function('OWN_TARGET', I, I)        # target of the k-th message of this server
NTH = z3.Function('NTH_OWN', I, I, I)         # the c-th own message for g
OC = z3.Function('OWN_SENT', I, I, I)         # own messages for g among the first k own messages
PSUM = z3.Function('RECEIVED_BEFORE', I, I)
q_, g_, k_, a_, b_ = z3.Ints('q!q g!q k!q a!q b!q')
def u(ex, st, v): return zi(ex.U(st, v))
# ---------------------------------------------------------------- the shared shuffle
def A(st, rid, size): return st.mem[rid].segs[0].lanes[(0, size)].a
def swap(ex, st, f, a, path, x):
    p, q = (ex.dealias(st, v) for v in a[:2]); Z = ex.spec
    if p.rid != Z['arr'].rid or q.rid != Z['arr'].rid: raise Unsupported('swap elsewhere')
    for base, w in ((Z['arr'], 1), (Z['perm'], 4)):
        P, Q = Ptr(base.rid, mul(p.off, w)), Ptr(base.rid, mul(q.off, w))
        v1, v2 = ex.load(st, P, ('i', 8 * w)), ex.load(st, Q, ('i', 8 * w)); ex.store(st, P, ('i', 8 * w), v2); ex.store(st, Q, ('i', 8 * w), v1)
    Z['swaps'] = 1
    return [(st, None)]
def t_shuf_tmpl(lc):
    ex = lc.ex; Z = ex.spec; n = Z['n']
    P = lambda st: A(st, Z['perm'].rid, 4); V = lambda st: A(st, Z['arr'].rid, 1)
    yield 'count<=n', lambda st, T: zi(T) <= n
    yield 'range', lambda st, T: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < n), z3.And(P(st)[k_] >= 0, P(st)[k_] < n)), patterns=[P(st)[k_]])
    yield 'injective', lambda st, T: forall([a_, b_], z3.Implies(z3.And(0 <= a_, a_ < b_, b_ < n), P(st)[a_] != P(st)[b_]), patterns=[mp(P(st)[a_], P(st)[b_])])
    yield 'rearranged', lambda st, T: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < n), V(st)[k_] == Z['A0'][P(st)[k_]]), patterns=[V(st)[k_]])
def t_shuf(ex, st):
    """shuffle(arr, n): ensures arr is rearranged by a permutation of [0,n) (ghost: perm, exchanged together with arr)"""
    Z = ex.spec; n = sym(st, 'n', 32); Z['n'] = n; Z['arr'] = array(ex, st, 'arr', n, 1, [(0, 1)]); Z['perm'] = array(ex, st, 'perm', n, 4, [(0, 4)]); Z['A0'] = lane(st, Z['arr'], (0, 1)); P0 = lane(st, Z['perm'], (0, 4))
    st.ghost['rseed'] = z3.Int('any_seed'); st.ghost['rpos'] = 0
    st.assume(forall([k_], z3.Implies(z3.And(0 <= k_, k_ < n), P0[k_] == k_), patterns=[P0[k_]])); c = 0
    for s, _ in call(ex, st, SHUF, [Z['arr'], IV(64, n)]):
        c += 1; i, j = sym(s, 'i', 32), sym(s, 'j', 32); s.assume(z3.And(i < n, j < n, i != j)); P = A(s, Z['perm'].rid, 4)
        ex.oblige(s, z3.And(P[i] >= 0, P[i] < n, P[i] != P[j]), 'shuffle:ensures a permutation')
        ex.oblige(s, A(s, Z['arr'].rid, 1)[i] == Z['A0'][P[i]], 'shuffle:ensures the elements rearranged by it')
    if not Z.get('swaps'): raise Unsupported('shuffle without std::swap')
    return c
def shuf(ex, st, f, a, path, x):
    """contract used by Initialize; the permutation is a function of seed and size only, so it is the same at every server"""
    Z = ex.spec; p = ex.dealias(st, a[0]); n = u(ex, st, a[1]); r = st.mem[p.rid]
    if not (len(r.segs) == 1 and set(r.segs[0].lanes) == {(0, 1)} and isinstance(p.off, int) and p.off == 0): raise Unsupported('shuffled array')
    ex.oblige(st, n == Z['total'], 'the whole batch is shuffled', x)
    ex.oblige(st, z3.And(zi(st.ghost.get('rseed', z3.Int('unseeded'))) == Z['seed'], zi(st.ghost.get('rpos', 1)) == 0), 'the shared shuffle starts from the shared seed', x)
    v = A(st, p.rid, 1); i = fresh_int('i', 0); s = st.clone(); s.assume(z3.And(i >= 0, i < Z['total']))
    ex.oblige(s, v[i] == IDM(i), 'before the shuffle every server owns its slice, in order', x)
    w = st.wr(p.rid); c = w.segs[0].lanes[(0, 1)].copy(); c.a = z3.Array('shuffled_map', I, I); w.segs[0].lanes[(0, 1)] = c
    st.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < Z['total']), z3.And(c.a[k_] == MAP(k_), MAP(k_) >= 0, MAP(k_) < Z['S'])), patterns=[c.a[k_]]))
    st.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < Z['total']), z3.And(MAP(k_) >= 0, MAP(k_) < Z['S'])), patterns=[MAP(k_)]))
    st.ghost['rpos'] = fresh_int('rpos', 0); st.ghost[('shuffled',)] = 1
    return [(st, None)]
# ---------------------------------------------------------------- Initialize
def once(st, k, t):
    """whether the facts of kind k at t are not yet among those of this path"""
    t = z3.simplify(zi(t)); key = ('once', k, t.get_id()); v = st.ghost.get(key)
    if v is not None and v.eq(t): return False
    st.ghost[key] = t; return True
def at(Z, st, t):
    """definitions unfolded at t (a number of servers, or a position in the batch)"""
    if not once(st, 'at', t): return
    t = zi(t); S, tot, per, sid, sc = Z['S'], Z['total'], Z['per'], Z['sid'], Z['sc']
    st.assume(z3.Implies(z3.And(0 <= t, t < S), z3.And(OFF(t + 1) == END(t), END(t) == OFF(t) + sc[t], sc[t] >= 0, END(t) <= tot, OFF(t) >= 0, OFF(t) <= tot)))
    st.assume(z3.Implies(z3.And(0 <= t, t <= S), z3.And(OFF(t) <= tot, OFF(t) >= 0)))
def pos(Z, st, t):
    if not once(st, 'pos', t): return
    t = zi(t); sid = Z['sid']
    inq = lambda q: z3.And(OFF(q) <= t, t < END(q))
    st.assume(z3.ForAll([q_, g_], z3.Implies(z3.And(0 <= t, t < Z['total'], 0 <= q_, q_ < Z['S']), CNT(q_, g_, t + 1) == CNT(q_, g_, t) + z3.If(z3.And(inq(q_), MAP(t) == g_), 1, 0)), patterns=[CNT(q_, g_, t)]))
    st.assume(z3.ForAll([g_], z3.Implies(z3.And(0 <= t, t < Z['total']), CNN(g_, t + 1) == CNN(g_, t) + z3.If(z3.And(inq(sid), t < OFF(sid) + Z['noise'], MAP(t) == g_), 1, 0)), patterns=[CNN(g_, t)]))
def axioms(Z, st):
    S, tot, sid = Z['S'], Z['total'], Z['sid']; z = z3.IntVal(0); t = z3.Int('t!q')
    st.assume(OFF(z) == 0); st.assume(OFF(S) == tot)
    sc = Z['sc']
    f = z3.And(END(q_) == OFF(q_) + sc[q_], sc[q_] >= 0, OFF(q_) >= 0, END(q_) <= tot)
    for p in (OFF(q_), END(q_), sc[q_]): st.assume(z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < S), f), patterns=[p]))
    st.assume(z3.ForAll([a_, b_], z3.Implies(z3.And(0 <= a_, a_ < b_, b_ < S), END(a_) <= OFF(b_)), patterns=[z3.MultiPattern(END(a_), OFF(b_))]))
    st.assume(z3.ForAll([q_, g_, t], z3.Implies(t >= 0, z3.And(CNT(q_, g_, t) >= 0, CNT(q_, g_, t) <= t)), patterns=[CNT(q_, g_, t)]))
    st.assume(z3.ForAll([g_, t], z3.Implies(t >= 0, z3.And(CNN(g_, t) >= 0, CNN(g_, t) <= t)), patterns=[CNN(g_, t)]))
    st.assume(z3.ForAll([q_, g_], z3.And(CNT(q_, g_, 0) == 0), patterns=[CNT(q_, g_, 0)])); st.assume(z3.ForAll([g_], CNN(g_, 0) == 0, patterns=[CNN(g_, 0)]))
    own = sc[sid]; j = z3.Int('j!q')
    st.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < own), z3.And(TGT(k_) == MAP(OFF(sid) + k_), TGT(k_) >= 0, TGT(k_) < S)), patterns=[TGT(k_)]))
    st.assume(z3.ForAll([g_, k_], z3.Implies(k_ >= 0, z3.And(OC(g_, k_) >= 0, OC(g_, k_) <= k_)), patterns=[OC(g_, k_)]))
    st.assume(z3.ForAll([g_], OC(g_, 0) == 0, patterns=[OC(g_, 0)]))
    st.assume(z3.ForAll([g_], OC(g_, own) == CNT(sid, g_, tot), patterns=[OC(g_, own)])); st.assume(z3.ForAll([g_], OC(g_, own) == CNT(sid, g_, tot), patterns=[CNT(sid, g_, tot)]))
    # consequences of the definition (theorem count_window): nothing is counted before the first and after the last message of a server
    st.assume(z3.ForAll([g_], CNT(sid, g_, OFF(sid)) == 0, patterns=[CNT(sid, g_, OFF(sid))]))
    st.assume(z3.ForAll([g_], CNT(sid, g_, END(sid)) == CNT(sid, g_, tot), patterns=[CNT(sid, g_, END(sid))]))
    st.assume(PSUM(z) == 0)
    at(Z, st, sid)
def ownpos(Z, st, t):
    """counts of own messages unfolded at the t-th own message (theorem count_strict)"""
    if not once(st, 'ownpos', t): return
    t = zi(t); own = Z['sc'][Z['sid']]; g = z3.And(0 <= t, t < own)
    st.assume(z3.ForAll([g_], z3.Implies(g, z3.And(OC(g_, t + 1) == OC(g_, t) + z3.If(TGT(t) == g_, 1, 0), OC(g_, t + 1) <= OC(g_, own))), patterns=[OC(g_, t)]))
    st.assume(z3.Implies(g, OC(TGT(t), t) < OC(TGT(t), own)))
    st.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < t, t <= own), OC(TGT(k_), k_) < OC(TGT(k_), t)), patterns=[TGT(k_)]))
def tmpl(lc):
    ex = lc.ex; Z = ex.spec
    if 'total' not in Z: return
    S, tot, per, sid, noise, sc = (Z[k] for k in ('S', 'total', 'per', 'sid', 'noise', 'sc'))
    cells = [l for l in lc.mods if l[0] == 'c' and l[3] in (1, 4) and isinstance(ex.getloc(lc.st0, l), IV)]
    C = lambda st, l: u(ex, st, ex.getloc(st, l))
    lanes = [l for l in lc.mods if l[0] == 'l' and lc.st0.mem[l[1]].segs[l[2]].lanes[l[3]].kind != 'ptr' and not lc.st0.mem[l[1]].fam]
    arr = lambda st, l: st.mem[l[1]].segs[l[2]].lanes[l[3]].a
    done = ('shuffled',) in lc.st0.ghost
    fam = any(l[0] == 'l' and lc.st0.mem[l[1]].fam for l in lc.mods)
    wide = any(l[3] == (0, 1) for l in lanes)      # a loop over positions that also writes a map
    def own(st, T):
        """the slice of server T, before the shuffle"""
        T = zi(T)
        if not once(st, 'own', T): return
        st.assume(z3.And((T + 1) * per == T * per + per, z3.Implies(T >= 0, T * per >= 0), z3.Implies(z3.And(T >= 0, T <= S - 1), T * per <= (S - 1) * per), z3.Implies(z3.And(T >= 0, T < S - 1), T * per + per <= (S - 1) * per), z3.Implies(T == S - 1, T * per == (S - 1) * per)))
        if not done: st.assume(z3.ForAll([k_], z3.Implies(z3.And(T >= 0, T < S, T * per <= k_, k_ < tot, z3.Or(T == S - 1, k_ < T * per + per)), IDM(k_) == T), patterns=[IDM(k_)]))
    def F(st, T):
        T = zi(T); at(Z, st, T)
        if not done:
            own(st, T)
            for v in bytes_(st): own(st, v)
        else:
            if fam: ownpos(Z, st, T)
            elif lanes: pos(Z, st, T); st.assume(z3.Implies(z3.And(T >= OFF(sid), T < END(sid)), TGT(T - OFF(sid)) == MAP(T)))
        for l in cells:
            if l[3] == 1: at(Z, st, C(st, l))
        st.assume(z3.Implies(z3.And(T >= 0, T < S), PSUM(T + 1) == PSUM(T) + CNT(T, sid, tot)))
        st.assume(z3.Implies(z3.And(T >= 0, T <= S), z3.And(PSUM(T) >= 0, PSUM(T) <= tot)))
        return z3.BoolVal(True)
    def le(n, hi):
        def f(st, T): F(st, T); return zi(T) <= hi
        return 'count<=' + n, f
    for n, hi in (('servers', S), ('servers-1', S - 1), ('total', tot), ('own', sc[sid])): yield le(n, hi)
    for l in cells:
        yield 'sum %s' % (l[1:],), lambda st, T, l=l: C(st, l) == OFF(zi(T))
    for l in lanes:
        a = lambda st, l=l: arr(st, l); w = l[3]
        if w == (0, 1) and not done:
            for c in cells:
                if c[3] == 4: yield 'owned up to cell %s %s' % (c[1:], l[1:]), lambda st, T, a=a, c=c: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < C(st, c)), a(st)[k_] == IDM(k_)), patterns=[a(st)[k_]])
            yield 'owned so far %s' % (l[1:],), lambda st, T, a=a: forall([k_], z3.Implies(z3.And(0 <= k_, z3.If(zi(T) == S, k_ < tot, k_ < zi(T) * per)), a(st)[k_] == IDM(k_)), patterns=[a(st)[k_]])
        if w == (0, 4) and not (done and wide):
            yield 'zero so far %s' % (l[1:],), lambda st, T, a=a: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < zi(T)), a(st)[k_] == 0), patterns=[a(st)[k_]])
            yield 'zero %s' % (l[1:],), lambda st, T, a=a: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < S), a(st)[k_] == 0), patterns=[a(st)[k_]])
        if w == (0, 4) and done:
            def each(st, a, body): return forall([k_], z3.Implies(z3.And(0 <= k_, k_ < S), a(st)[k_] == body), patterns=[a(st)[k_]])
            if not fam: yield 'received %s' % (l[1:],), lambda st, T, a=a: each(st, a, CNT(k_, sid, zi(T)))
            if not fam: yield 'sent %s' % (l[1:],), lambda st, T, a=a: each(st, a, CNT(sid, k_, zi(T)))
            if not fam: yield 'noise sent %s' % (l[1:],), lambda st, T, a=a: each(st, a, CNN(k_, zi(T)))
            if fam or not wide: yield 'reset so far %s' % (l[1:],), lambda st, T, a=a: each(st, a, z3.If(k_ < zi(T), z3.IntVal(0), CNT(sid, k_, tot)))
            if fam or not wide: yield 'sent of own %s' % (l[1:],), lambda st, T, a=a: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < S), z3.And(a(st)[k_] == OC(k_, zi(T)), OC(k_, zi(T)) <= zi(T))), patterns=[a(st)[k_]])
            if not wide: yield 'prefix sums %s' % (l[1:],), lambda st, T, a=a: forall([k_], z3.Implies(z3.And(0 <= k_, k_ <= zi(T)), a(st)[k_] == PSUM(k_)), patterns=[a(st)[k_]])
        if w == (0, 1) and done:
            def fw(st, T, a=a):
                return forall([k_], z3.Implies(z3.And(0 <= k_, k_ < sc[sid], OFF(sid) + k_ < zi(T)), z3.And(a(st)[k_] == TGT(k_), TGT(k_) >= 0, TGT(k_) < S)), patterns=[a(st)[k_]])
            yield 'targets so far %s' % (l[1:],), fw
    for l in lc.mods if done else ():
        def upto(st, T, body, pat): return forall([k_], z3.Implies(z3.And(0 <= k_, k_ < zi(T)), body), patterns=[pat])
        if l[0] == 'rl':
            yield 'row lengths %s' % l[1], lambda st, T, l=l: upto(st, T, st.mem[l[1]].rowlen[k_] == 4 * CNT(sid, k_, tot), st.mem[l[1]].rowlen[k_])
        if l[0] != 'l': continue
        r0 = lc.st0.mem[l[1]]; G = lambda st, l=l: st.mem[l[1]].segs[l[2]].lanes[l[3]]
        if r0.segs[l[2]].lanes[l[3]].kind == 'ptr':
            yield 'rows %s' % (l[1:],), lambda st, T, G=G: upto(st, T, z3.And(G(st).offs[k_] == 0, z3.Not(G(st).nulls[k_])), G(st).offs[k_])
        elif r0.fam:
            yield 'row contents %s' % (l[1:],), lambda st, T, G=G: upto(st, T, G(st).a[TGT(k_)][OC(TGT(k_), k_)] == k_, TGT(k_))
    if done and 'idx' in Z:
        yield 'lower sources end before the index', lambda st, T: forall([k_], z3.Implies(z3.And(0 <= k_, k_ <= zi(T)), PSUM(k_) <= Z['idx']), patterns=[PSUM(k_)])
    if 'seen' in lc.st0.ghost:
        for l in lanes:
            yield 'served %s' % (l[1:],), lambda st, T, l=l: forall([k_], z3.Implies(z3.And(0 <= k_, k_ < S), z3.And(arr(st, l)[k_] == st.ghost['seen'][k_], arr(st, l)[k_] >= 0, arr(st, l)[k_] <= CNT(sid, k_, tot))), patterns=[arr(st, l)[k_]])
    if done:
        for s in cells:
            for d in cells:
                if s[3] == 1 and d[3] == 4:
                    yield 'start of source %s %s' % (s[1:], d[1:]), lambda st, T, s=s, d=d: C(st, d) == OFF(C(st, s))
            if s[3] == 1:
                yield 'source %s' % (s[1:],), lambda st, T, s=s: z3.And(C(st, s) >= 0, C(st, s) < S)
                if 'idx' in Z: pass
                yield 'source covers position %s' % (s[1:],), lambda st, T, s=s: z3.And(OFF(C(st, s)) <= zi(T), zi(T) <= END(C(st, s)))
                for o in pos_cells(lc):
                    yield 'source covers %s %s' % (o[0], s[1:]), lambda st, T, s=s, o=o: z3.And(OFF(C(st, s)) <= o[1], o[1] <= END(C(st, s)))
def bytes_(st):
    """values of the 8-bit locals"""
    out = []
    for r in st.mem.values():
        if r.kind == 'stack':
            for sz, v in (r.cells or {}).values():
                if sz == 1 and isinstance(v, IV): out.append(zi(v.e))
    return out[:6]
def pos_cells(lc):
    """unchanged 32-bit locals: candidates for the position in the batch"""
    out = []
    for rid, r in lc.st0.mem.items():
        if r.kind != 'stack': continue
        for o, (sz, v) in (r.cells or {}).items():
            if sz == 4 and isinstance(v, IV) and not isinstance(v.e, int): out.append(('%s+%s' % (rid, o), zi(v.e)))
    return out[:6]
OVI = [(SHUF, shuf), ('spec_shuffled', lambda *a: shuffled(*a)), ('spec_more', lambda *a: more(*a)), ('spec_pick', lambda *a: pick(*a)), ('spec_deshuffled', lambda *a: deshuffled(*a))]
def setup(ex, st, last):
    Z = ex.spec; S = sym(st, 'servers', 8, 1, 254); sid = sym(st, 'id', 8); st.assume(sid == S - 1 if last else sid < S - 1); noise = sym(st, 'noise'); seed = sym(st, 'seed', 31)
    scp = array(ex, st, 'server_counts', S, 4, [(0, 4)], ro=True); sc = lane(st, scp, (0, 4)); tot = sym(st, 'total'); Z['sc'] = sc
    q, r = ex.divmod(st, tot, S); per = zi(q); Z.update(S=S, sid=sid, noise=noise, seed=seed, total=tot, per=per, scp=scp)
    st.assume(z3.And(per >= 0, (S - 1) * per == S * per - per, S * per <= tot, (S - 1) * per <= tot, (S - 1) * per >= 0)); axioms(Z, st)
    o = obj(ex, st, 'shuffler', ex.m.size(ex.m.cxx_types['DPPIR::shuffle::ParallelShuffler']), lazy=False)
    outs = call(ex, st, PS_ + r'ParallelShuffler\(unsigned char, unsigned char, int\)', [o, IV(8, sid), IV(8, S), IV(32, seed)])
    for s, _ in outs:
        # state left behind by an earlier batch
        r = s.wr(o.rid)
        for off, (sz, v) in list(r.cells.items()):
            if sz == 4 and isinstance(v, IV) and v.e == 0: r.cells[off] = (4, IV(32, sym(s, 'old', 32)))
    return o, outs
def t_init(ex, st, last):
    Z = ex.spec; o, outs = setup(ex, st, last); c = 0
    for s, _ in outs:
        for s, _ in call(ex, s, PS_ + r'Initialize\(unsigned int const\*, unsigned int\)', [o, Z['scp'], IV(32, Z['noise'])]):
            q = sym(s, 'q', 8); s.assume(q < Z['S']); S, sid, tot, per = Z['S'], Z['sid'], Z['total'], Z['per']
            c += client(ex, s, o)
            def acc(fn, *a): return [(t, u(ex, t, v)) for t, v in call(ex, s.clone(), PS_ + fn, [o] + list(a))]
            for t, v in acc(r'GetServerSliceSize\(\) const'): ex.oblige(t, v == z3.If(sid == S - 1, tot - (S - 1) * per, per), 'GetServerSliceSize:ensures the slice of this server'); c += 1
            for fn, want, nm in (('CountToServer', CNT(sid, q, tot), 'what this server sends to the target'), ('CountFromServer', CNT(q, sid, tot), 'what the source sends to this server'), ('CountNoiseToServer', CNN(q, tot), 'the leading noise messages sent to the target'), ('PrefixSumCountFromServer', PSUM(q), 'what is received from lower servers')):
                for t, v in acc(fn + r'\(unsigned char\)', IV(8, q)): ex.oblige(t, v == want, fn + ':ensures ' + nm); c += 1
    return c
def client(ex, s, o):
    """histories of calls after Initialize"""
    Z = ex.spec; S, sid, tot = Z['S'], Z['sid'], Z['total']; own = Z['sc'][sid]; c = 0
    t = s.clone(); n = sym(t, 'n', 32); t.assume(n <= own)
    for t, _ in call(ex, t, 'c06_shuffle', [o, IV(32, n)]): c += 1
    t = s.clone(); t.ghost['seen'] = z3.K(I, z3.IntVal(0))
    for t, _ in call(ex, t, 'c06_deshuffle', [o]): c += 1
    t = s.clone(); i = sym(t, 'i', 32); Z['idx'] = i; t.assume(i < PSUM(S))
    for t, v in call(ex, t, PS_ + r'FindSourceOf\(unsigned int\)', [o, IV(32, i)]):
        r = u(ex, t, v); at(Z, t, r); c += 1
        t.assume(z3.Implies(z3.And(r >= 0, r < S), PSUM(r + 1) == PSUM(r) + CNT(r, sid, tot)))
        ex.oblige(t, z3.And(r < S, PSUM(r) <= i, i < PSUM(r + 1)), 'FindSourceOf:ensures the server whose messages cover the index')
    del Z['idx']
    return c
def shuffled(ex, st, f, a, path, x):
    g, k = u(ex, st, a[0]), u(ex, st, a[1]); ex.oblige(st, g == TGT(k), 'ShuffleOne:ensures the target of the next own message', x); return [(st, None)]
def more(ex, st, f, a, path, x): return [(st, z3.Bool('more%d' % len(st.facts)))]
def pick(ex, st, f, a, path, x):
    Z = ex.spec; g = sym(st, 'g', 8); st.assume(z3.And(g < Z['S'], st.ghost['seen'][g] < CNT(Z['sid'], g, Z['total']))); return [(st, IV(8, g))]
def deshuffled(ex, st, f, a, path, x):
    Z = ex.spec; k, g = u(ex, st, a[0]), u(ex, st, a[1]); sn = st.ghost['seen']; c = sn[g]; own = Z['sc'][Z['sid']]
    # theorem count_nth: the c-th own message for g
    st.assume(z3.Implies(z3.And(0 <= c, c < CNT(Z['sid'], g, Z['total'])), z3.And(NTH(g, c) >= 0, NTH(g, c) < own, TGT(NTH(g, c)) == g, OC(g, NTH(g, c)) == c)))
    ex.oblige(st, z3.And(k < own, TGT(k) == g, OC(g, k) == c), 'DeshuffleOne:ensures the next own message that went to this server', x)
    st.ghost['seen'] = z3.Store(sn, g, c + 1); return [(st, None)]
def c06(ctx):
    ov = c05.rb(ctx)
    ctx.run('shared shuffle', t_shuf, overrides=ov + [(r'.*std::swap<unsigned char>\(unsigned char&, unsigned char&\)', swap)], templates=[t_shuf_tmpl])
    for nm, last in (('last server', True), ('other servers', False)):
        ctx.run('ParallelShuffler::Initialize, ' + nm, lambda ex, st, last=last: t_init(ex, st, last), overrides=OVI, templates=[tmpl], budget=300, fast_auto=True, no_unroll=True)
