"""Contract of std::unordered_map<unsigned long, V>: a finite map from keys to nodes that never move.
The node of key k lives at offset k*stride of a per-map region: {next pointer (unused), key, value}."""
import re
import z3
from .core import *
MAPRE = r'std::unordered_map<unsigned long, (.*?), std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<.*>>'
def value_type(dem):
    i = dem.find('std::unordered_map<unsigned long, ')
    from .models import targ
    return targ(dem, i + len('std::unordered_map<unsigned long, '))
def key_of(p): return (p.rid, p.off if isinstance(p.off, int) else p.off.sexpr())
def mp(ex, st, p, dem):
    """(ghost names, node region id, stride) of the map object at p"""
    from . import models
    p = ex.dealias(st, p); k = key_of(p)
    P = ('umap', k, 'P')
    if P not in st.ghost:
        if not getattr(ex, 'umap_auto', False): raise Unsupported('unordered_map used before its constructor')
        create(ex, st, p, dem)
    return P, ('umap', k, 'N'), st.ghost[('umap', k, 'R')], st.ghost[('umap', k, 'S')]
def create(ex, st, p, dem, arbitrary=False):
    from . import models
    vt = value_type(dem); vs, vl = models.layout(ex, vt)
    pair = (8 + vs + 7) // 8 * 8; stride = 8 + pair
    r = ex.new_region(st, 'map_nodes', None, 'heap')
    lanes = [(8, 8)] + [(16 + l[0],) + tuple(l[1:]) for l in vl]
    r.segs = [ex.array_seg('map', lanes, stride)]
    k = key_of(p)
    st.ghost[('umap', k, 'P')] = z3.K(z3.IntSort(), z3.BoolVal(False)); st.ghost[('umap', k, 'N')] = 0
    st.ghost[('umap', k, 'R')] = r.rid; st.ghost[('umap', k, 'S')] = stride
    st.ghost[('umap', k, 'V')] = (vs, pair)
    return r
def key(ex, st, a): return zi(ex.U(st, ex.load(st, a, ('i', 64))))
def node(rid, S, k, o=0): return Ptr(rid, add(mul(k, S), o))
def m_ctor(ex, st, f, a, path, x): create(ex, st, ex.dealias(st, a[0]), f.dem); return [(st, None)]
def m_dtor(ex, st, f, a, path, x): return [(st, None)]
def pres(ex, st, P, k):
    ex.instantiate(st, st.ghost[P], k) if isinstance(st.ghost[P], z3.ExprRef) else None
    return cheap(z3.simplify(z3.Select(st.ghost[P], k)))
def m_find(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[0], f.dem); k = key(ex, st, a[1]); b = pres(ex, st, P, k)
    nul = (not b) if isinstance(b, bool) else z3.Not(b)
    return [(st, Ptr(R, mul(k, S), None, nul))]
def m_at(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[0], f.dem); k = key(ex, st, a[1])
    ex.oblige(st, zi(pres(ex, st, P, k)), 'no-exception: key present for at()', x)
    return [(st, node(R, S, k, 16))]
def fork(ex, st, P, k):
    """states split on presence of k"""
    b = pres(ex, st, P, k); out = []
    from .execu import quick_valid
    if b is True or (b is not False and quick_valid(st, b)): return [(st, True)]
    if b is False or quick_valid(st, z3.Not(zi(b))): return [(st, False)]
    s2 = st.clone(); s2.assume(z3.Not(b)); st.assume(b)
    return [(st, True), (s2, False)]
def addkey(ex, st, P, N, R, S, k):
    st.ghost[P] = z3.Store(st.ghost[P], k, z3.BoolVal(True)); st.ghost[N] = add(st.ghost[N], 1)
    ex.store(st, node(R, S, k, 8), ('i', 64), IV(64, k))
def m_index(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[0], f.dem); k = key(ex, st, a[1]); out = []
    for s, b in fork(ex, st, P, k):
        if not b:
            addkey(ex, s, P, N, R, S, k)
            for (o, z) in list(s.mem[R].segs[0].lanes):
                if o >= 16: ex.store_raw(s, node(R, S, k, o), z, 0)
        out.append((s, node(R, S, k, 16)))
    return out
def m_size(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[0], f.dem); return [(st, IV(64, st.ghost[N]))]
def m_count(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[0], f.dem); b = pres(ex, st, P, key(ex, st, a[1]))
    return [(st, IV(64, int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))))]
def m_emplace(ex, st, f, a, path, x):
    """constructs the pair by the extracted allocator_traits::construct in a scratch node, then inserts it if the key is new"""
    P, N, R, S = mp(ex, st, a[0], f.dem)
    i = f.dem.rfind('::emplace<'); args = f.dem[i + len('::emplace<'):]
    from .models import targ
    d = 0; j = 0
    for j, c in enumerate(args):
        if c in '<(': d += 1
        elif c in '>)':
            if d == 0: break
            d -= 1
    args = args[:j]
    vt = value_type(f.dem); pt = 'std::pair<unsigned long const, %s>' % vt
    cands = [g for g in ex.m.funcs.values() if ('::_M_allocate_node<%s>(' % args) in g.dem and ('_Hashtable_alloc<std::allocator<std::__detail::_Hash_node<%s, false>>>' % pt) in g.dem]
    if len(cands) != 1: raise Unsupported('%d constructors of the map element for emplace<%s>' % (len(cands), args[:60]))
    al = ex.new_region(st, 'alloc', 8, 'heap', {})
    out = []
    for s, p in ex.call(st, cands[0], [Ptr(al.rid, 0)] + list(a[1:]), path):
        out += insert(ex, s, P, N, R, S, p.at(8))
    return out
def m_alloc_node(ex, st, f, a, path, x):
    """storage of one hash node (its link field is not modelled)"""
    from . import models
    i = f.dem.index('_Hash_node<std::pair<unsigned long const, ') + len('_Hash_node<std::pair<unsigned long const, ')
    vs, vl = models.layout(ex, models.targ(f.dem, i)); S = 8 + (8 + vs + 7) // 8 * 8
    r = ex.new_region(st, 'map_scratch', S, 'heap'); r.segs = [ex.array_seg('scratch', [(8, 8)] + [(16 + l[0],) + tuple(l[1:]) for l in vl], S)]
    return [(st, Ptr(r.rid, 0))]
def m_node_ctor(ex, st, f, a, path, x): return [(st, None)]
def insert(ex, st, P, N, R, S, src):
    k = zi(ex.U(st, ex.load(st, src, ('i', 64)))); out = []
    for s, b in fork(ex, st, P, k):
        if not b:
            addkey(ex, s, P, N, R, S, k)
            for (o, z) in list(s.mem[R].segs[0].lanes):
                if o >= 16: ex.write(s, s.mem[R], node(R, S, k, o), z, ex.read(s, s.mem[src.rid], src.at(o - 8), z))
        out.append((s, Agg([Ptr(R, mul(k, S)), IV(8, 0 if b else 1)])))
    return out
def m_insert(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[0], f.dem); return insert(ex, st, P, N, R, S, ex.dealias(st, a[1]))
def m_copy(ex, st, f, a, path, x):
    P, N, R, S = mp(ex, st, a[1], f.dem); d = ex.dealias(st, a[0]); r = create(ex, st, d, f.dem); k = key_of(d)
    for key_, l in st.mem[R].segs[0].lanes.items(): r.segs[0].lanes[key_] = l.copy()
    st.ghost[('umap', k, 'P')] = st.ghost[P]; st.ghost[('umap', k, 'N')] = st.ghost[N]
    return [(st, None)]
def R_(p): return re.compile(p)
PR = r'(?:.* )?'
T = [
 (R_(r'std::__new_allocator<std::__detail::_Hash_node<std::pair<unsigned long const, .*>, false>>::allocate\(unsigned long, void const\*\)'), m_alloc_node),
 (R_(r'std::__detail::_Hash_node<std::pair<unsigned long const, .*>, false>::_Hash_node\(\)'), m_node_ctor),
 (R_(MAPRE + r'::unordered_map\(\)'), m_ctor), (R_(MAPRE + r'::~unordered_map\(\)'), m_dtor),
 (R_(MAPRE + r'::unordered_map\(std::unordered_map<.*> const&\)'), m_copy),
 (R_(MAPRE + r'::find\(unsigned long const&\)(?: const)?'), m_find), (R_(MAPRE + r'::at\(unsigned long const&\)(?: const)?'), m_at),
 (R_(MAPRE + r'::operator\[\]\(unsigned long(?: const)?&&?\)'), m_index), (R_(MAPRE + r'::size\(\) const'), m_size),
 (R_(MAPRE + r'::count\(unsigned long const&\) const'), m_count), (R_(PR + MAPRE + r'::emplace<.*>\(.*\)'), m_emplace),
 (R_(PR + MAPRE + r'::insert\(std::pair<.*>(?: const)?&&?\)'), m_insert),
]
