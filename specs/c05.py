"""C05: the local shuffler builds a permutation of [0,n) and its inverse."""
import z3
from irv.core import *
from irv.task import *
from irv import models
LS = r'DPPIR::shuffle::LocalShuffler::'
I = z3.IntSort()

def arrays(st, size=4):
    """live array blocks with a single lane of the given width"""
    return [rid for rid, r in st.mem.items() if r.alive and len(r.segs) == 1 and set(r.segs[0].lanes) == {(0, size)} and not r.fam]
def A(st, rid, size=4): return st.mem[rid].segs[0].lanes[(0, size)].a

RB = r'DPPIR::shuffle::util::random_bounded\(unsigned int\)'
BOUNDED = z3.Function('bounded_draw', I, I, I)      # the value drawn is some function of the generator's output and the range
def rb_contract(ex, st, f, a, path, x):
    """random_bounded(range): requires range>0; ensures result < range; one call of rand()"""
    n = ex.U(st, a[0])
    ex.oblige(st, zi(n) > 0, 'random_bounded:requires range>0', x)
    (st, r), = models.h_rand(ex, st, f, [], path, x)
    v = BOUNDED(zi(r.e), zi(n)); SYM_RANGE['bounded_draw'] = (0, (1 << 32) - 1)
    st.assume(z3.And(v >= 0, v < zi(n)))
    return [(st, IV(32, v))]
def t_rb(ex, st):
    n = sym(st, 'range', 32, 1); c = 0
    st.ghost['rseed'] = z3.Int('any_seed'); st.ghost['rpos'] = 0
    for s, v in call(ex, st, RB, [IV(32, n)]):
        c += 1; v = zi(ex.U(s, v))
        ex.oblige(s, z3.And(v >= 0, v < n), 'random_bounded:ensures result below range')
        ex.oblige(s, zi(s.ghost['rpos']) == 1, 'random_bounded:ensures one draw of the shared generator')
    return c
def rb(ctx):
    if len(ctx.mod.find(RB)) != 1: return []
    if not any(r.name == 'random_bounded' for r in ctx.results): ctx.run('random_bounded', t_rb)
    return [(RB, rb_contract)]

def tmpl_perm(lc):
    ex = lc.ex; S = ex.spec; n = S['n']; k, a, b = z3.Ints('k!q a!q b!q')
    yield 'count<=n', lambda st, T: zi(T) <= n
    mod = sorted({loc[1] for loc in lc.mods if loc[0] == 'l' and loc[3] == (0, 4)})
    for rid in mod:
        nm = rid
        yield 'identity-prefix:' + nm, lambda st, T, rid=rid: forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), A(st, rid)[k] == k), patterns=[A(st, rid)[k]])
        yield 'range:' + nm, lambda st, T, rid=rid: forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(A(st, rid)[k] >= 0, A(st, rid)[k] < n)), patterns=[A(st, rid)[k]])
        yield 'injective:' + nm, lambda st, T, rid=rid: forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), A(st, rid)[a] != A(st, rid)[b]), patterns=[mp(A(st, rid)[a], A(st, rid)[b])])
        for f in arrays(lc.st0):
            if f == rid or f in mod: continue
            yield 'inverse-prefix:%s:%s' % (nm, f), lambda st, T, rid=rid, f=f: forall([k], z3.Implies(z3.And(0 <= k, k < zi(T)), A(st, rid)[A(st, f)[k]] == k), patterns=[A(st, f)[k]])

def t_local(again):
    def run(ex, st):
        n = sym(st, 'n', 32); seed = sym(st, 'seed', 32); ex.spec['n'] = n
        o = obj(ex, st, 'shuffler', 64, lazy=False)
        c = 0
        for s, _ in call(ex, st, LS + r'LocalShuffler\(int\)', [o, IV(32, seed)]):
            if again:
                # an earlier batch of any size leaves some arrays behind
                n0 = sym(s, 'n_before', 32)
                ex.spec['n'] = n0
                pre = call(ex, s, LS + r'Initialize\(unsigned int\)', [o, IV(32, n0)])
                ex.spec['n'] = n
            else: pre = [(s, None)]
            for s, _ in pre:
                s.facts = [f for f in s.facts if not hq(f)]      # nothing about the old maps is needed (dropping facts is sound)
                for s, _ in call(ex, s, LS + r'Initialize\(unsigned int\)', [o, IV(32, n)]):
                    i = sym(s, 'i', 32); s.assume(i < n)
                    j = sym(s, 'j', 32); s.assume(j < n)
                    # shuffle then deshuffle
                    s1 = s.clone()
                    for u, v in call(ex, s1, LS + r'Shuffle\(unsigned int\)', [o, IV(32, i)]):
                        v = zi(ex.U(u, v))
                        ex.oblige(u, z3.And(v >= 0, v < n), 'Shuffle:ensures index of the batch')
                        for w, q in call(ex, u, LS + r'Deshuffle\(unsigned int\)', [o, IV(32, v)]):
                            c += 1
                            ex.oblige(w, zi(ex.U(w, q)) == i, 'Deshuffle(Shuffle(i)) = i')
                    # deshuffle then shuffle; lemma inj_surj gives a preimage of j under the forward map
                    s2 = s.clone()
                    for rid in arrays(s2):
                        F = A(s2, rid); a, b, k = z3.Ints('a!q b!q k!q')
                        inj = forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), F[a] != F[b]))
                        rng = forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(F[k] >= 0, F[k] < n)))
                        if prove(s2.facts, inj, timeout=1.5)[0] == 'valid' and prove(s2.facts, rng, timeout=1.5)[0] == 'valid':
                            p = fresh_int('preimage', 0); s2.assume(z3.And(p >= 0, p < n, F[p] == j))
                    for u, v in call(ex, s2, LS + r'Deshuffle\(unsigned int\)', [o, IV(32, j)]):
                        v = zi(ex.U(u, v))
                        ex.oblige(u, z3.And(v >= 0, v < n), 'Deshuffle:ensures index of the batch')
                        for w, q in call(ex, u, LS + r'Shuffle\(unsigned int\)', [o, IV(32, v)]):
                            c += 1
                            ex.oblige(w, zi(ex.U(w, q)) == j, 'Shuffle(Deshuffle(j)) = j')
        return c
    return run
def c05(ctx):
    ov = rb(ctx)
    ctx.run('LocalShuffler', t_local(False), overrides=ov, templates=[tmpl_perm])
    ctx.run('LocalShuffler-reinitialised', t_local(True), overrides=ov, templates=[tmpl_perm])
