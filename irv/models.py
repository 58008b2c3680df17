"""Contracts of the library functions the code uses (the trusted base: the C++ standard library containers,
libc, libm and libsodium).  Everything else is executed from the extracted code."""
import re, fractions
import z3
from .core import *
from .execu import dbg

def stop(ex, st):
    """the process stops here: the path ends"""
    return []

# ------------------------------------------------------------------ layouts of C++ element types
SCALARS = {'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
           'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}

def targ(s, start):
    """text of the first template argument after index `start` (just behind '<')"""
    d = 0
    for i in range(start, len(s)):
        c = s[i]
        if c in '<([': d += 1
        elif c in '>)]':
            if c == '>' and s[i-1] == '-': continue
            if d == 0: return s[start:i]
            d -= 1
        elif c == ',' and d == 0: return s[start:i]
    return None

def layout(ex, tname):
    """(stride, lanes) for an element type given by its C++ name"""
    tname = tname.strip()
    if tname.endswith(' const'): tname = tname[:-6]
    if tname in ex.layouts: return ex.layouts[tname]
    if tname in SCALARS: s = SCALARS[tname]; return s, [(0, s)]
    if tname.endswith('*'): return 8, [(0, 8, 'ptr', None, 'one')]
    mt = re.fullmatch(r'std::array<(.*), (\d+)ul>', tname)
    if mt:
        s, l = layout(ex, mt.group(1)); n = int(mt.group(2))
        if s == 1:
            if n <= 8: return n, [(i, 1) for i in range(n)]
            if n > 256: return n, ('bytes', n)
            return n, [(0, n)]
        return s * n, [(i * s + o[0], o[1]) for i in range(n) for o in l]
    t = ex.m.cxx_types.get(tname)
    if t is None and tname.startswith('DPPIR::LogicalBuffer<'): t = ex.m.cxx_types.get('DPPIR::LogicalBuffer')
    if t is not None: return ex.m.size(t), flatten(ex, t, 0)
    raise Unsupported('layout of ' + tname)

def flatten(ex, t, base):
    t = ex.m.resolve(t)
    if t[0] == 'i': return [(base, max(1, t[1] // 8))]
    if t[0] == 'ptr': return [(base, 8, 'ptr', None, 'one')]
    if t[0] == 'arr':
        es = ex.m.size(t[2])
        if es == 1 and t[1] > 8: return [(base, t[1])]
        out = []
        for i in range(t[1]): out += flatten(ex, t[2], base + i * es)
        return out
    if t[0] == 'struct':
        offs, _ = ex.m.struct_layout(t); out = []
        for o, x in zip(offs, t[2]): out += flatten(ex, x, base + o)
        return out
    raise Unsupported('layout of %r' % (t,))

def alloc_elems(ex, st, name, tname, n, zero, nbytes=None):
    """fresh array of n elements of the named type"""
    stride, lanes = layout(ex, tname)
    size = nbytes if nbytes is not None else mul(n, stride)
    if lanes and lanes[0] == 'bytes':        # array of large byte buffers: a family of byte rows laid out contiguously
        r = ex.new_region(st, name, size); r.segs = [ex.array_seg(name, [(0, 1)], 1, zero)]
        return r
    fams = []
    ls = []
    for l in lanes:
        ls.append(l)
    r = ex.new_region(st, name, size)
    r.segs = [ex.array_seg(name, ls, stride, zero)]
    r.x['elem'] = (stride, tuple(tuple(l) for l in ls)); r.x['tname'] = tname
    return r

def free(ex, st, p, inst=None):
    if not isinstance(p, Ptr) or p.rid is None: return
    if p.null is True: return
    p = ex.dealias(st, p)
    if p.row is not None: return          # row of a family: released with the family
    r = st.mem.get(p.rid)
    if r is None: return
    if not r.alive:
        if p.null is False: ex.oblige(st, False, 'no-double-free')
        return
    if r.kind == 'input': return
    r = st.wr(p.rid); r.alive = False

# ------------------------------------------------------------------ handlers
def h_noop0(ex, st, f, a, path, x): return [(st, a[0] if a else None)]
def h_nop(ex, st, f, a, path, x): return [(st, None)]
def h_stop(ex, st, f, a, path, x):
    if not (ex.abort_ok or st.ghost.get('may_stop')): ex.oblige(st, False, 'process-does-not-stop', x, assume=False)
    return []
def h_throw(ex, st, f, a, path, x):
    ex.oblige(st, False, 'no-exception', x, assume=False) if not (ex.abort_ok or st.ghost.get('may_stop')) else None
    return []
def h_new(ex, st, f, a, path, x):
    n = ex.U(st, a[0]); n = simp(n) if isinstance(n, z3.ExprRef) else n
    nb = ex.new_elem.get(ex.curfn.dem.split('(')[0]) if ex.curfn else None
    r = ex.new_region(st, 'new', n)
    if nb is None: nb = 1 if ('new[]' in f.dem) else None
    if nb:
        r.segs = [ex.array_seg('new', [(0, 1)] if nb == 1 else nb[1], 1 if nb == 1 else nb[0])]
        return [(st, Ptr(r.rid, 0))]
    return [(st, Ptr(r.rid, 0))]
def h_delete(ex, st, f, a, path, x): free(ex, st, a[0], x); return [(st, None)]

def h_memcpy(ex, st, f, a, path, x): ex.memcpy(st, a[0], a[1], a[2], x); return [(st, a[0])]
def h_memset(ex, st, f, a, path, x): ex.memset(st, a[0], a[1], a[2], x); return [(st, a[0])]
def h_memcmp(ex, st, f, a, path, x):
    n = ex.U(st, a[2]); n = simp(n) if isinstance(n, z3.ExprRef) else n
    if not isinstance(n, int) or n > 256: raise Unsupported('memcmp of symbolic or large size')
    eqs = []
    for o in range(n):
        p, q = ex.load(st, a[0].at(o), ('i', 8), x), ex.load(st, a[1].at(o), ('i', 8), x)
        eqs.append(zi(ex.U(st, p)) == zi(ex.U(st, q)))
    r = fresh_int('memcmp', 0, (1 << 32) - 1); st.assume(z3.And(r >= 0, r < (1 << 32)))
    st.assume((r == 0) == z3.And([z3.BoolVal(True)] + eqs))
    return [(st, IV(32, r))]
def h_mulov(ex, st, f, a, path, x):
    p = mul(ex.U(st, a[0]), ex.U(st, a[1]))
    ov = ex.cmp('ge', p, 1 << 64)
    if not isinstance(ov, bool):
        lo, hi = bounds(p)
        if hi is not None and hi < (1 << 64): ov = False
        elif quick_valid(st, zi(p) < (1 << 64)): ov = False
    return [(st, Agg([IV(64, ex.wrapu(st, p, 64)), ov]))]
def h_addov(ex, st, f, a, path, x):
    p = add(ex.U(st, a[0]), ex.U(st, a[1]))
    ov = ex.cmp('ge', p, 1 << 64)
    if not isinstance(ov, bool) and quick_valid(st, zi(p) < (1 << 64)): ov = False
    return [(st, Agg([IV(64, ex.wrapu(st, p, 64)), ov]))]

# doubles as reals
def R(v): return v.e
def h_fmuladd(ex, st, f, a, path, x): return [(st, FV(zi(R(a[0])) * zi(R(a[1])) + zi(R(a[2]))))]
def h_floor(ex, st, f, a, path, x):
    e = R(a[0])
    if isinstance(e, fractions.Fraction): return [(st, FV(fractions.Fraction(e.numerator // e.denominator)))]
    return [(st, FV(z3.ToReal(z3.ToInt(e))))]
def h_ceil(ex, st, f, a, path, x):
    e = R(a[0])
    if isinstance(e, fractions.Fraction): return [(st, FV(fractions.Fraction(-((-e.numerator) // e.denominator))))]
    return [(st, FV(-z3.ToReal(z3.ToInt(-e))))]
def h_fabs(ex, st, f, a, path, x):
    e = R(a[0])
    return [(st, FV(abs(e) if isinstance(e, fractions.Fraction) else z3.If(e >= 0, e, -e)))]
def h_min(ex, st, f, a, path, x):
    p, q = zi(R(a[0])), zi(R(a[1])); return [(st, FV(z3.If(p <= q, p, q)))]
def h_max(ex, st, f, a, path, x):
    p, q = zi(R(a[0])), zi(R(a[1])); return [(st, FV(z3.If(p >= q, p, q)))]
LOG = z3.Function('ln', z3.RealSort(), z3.RealSort())
def h_log(ex, st, f, a, path, x):
    e = zi(R(a[0]))
    ex.oblige(st, e > 0, 'log-argument-positive', x) if getattr(ex, 'log_strict', False) else None
    return [(st, FV(LOG(e)))]

# randomness
DRAW = z3.Function('DRAW', z3.IntSort(), z3.IntSort())        # k-th bounded draw (prophecy: each number is drawn once)
DRAWB = z3.Function('DRAWB', z3.IntSort(), z3.IntSort())      # its bound
SYM_RANGE['DRAW'] = (0, (1 << 32) - 1)
def RBUF(k, off, size): return z3.Function('RBUF_%d_%d' % (off, size), z3.IntSort(), z3.IntSort())(zi(k))
def h_rb_uniform(ex, st, f, a, path, x):
    n = ex.U(st, a[0])
    k = st.ghost.get('draws')
    if k is None: v = fresh_int('draw', 0, (1 << 32) - 1)
    else:
        v = DRAW(zi(k)); st.assume(DRAWB(zi(k)) == zi(n)); st.ghost['draws'] = add(k, 1)
    if isinstance(n, int):
        if n < 2: st.assume(v == 0)
        else: st.assume(z3.And(v >= 0, v < n))
    else: st.assume(z3.And(v >= 0, z3.Implies(n > 0, v < n), z3.Implies(n <= 1, v == 0)))
    return [(st, IV(32, v))]
def h_rb_buf(ex, st, f, a, path, x):
    n = ex.U(st, a[1]); n = simp(n) if isinstance(n, z3.ExprRef) else n
    if isinstance(n, int) and n == 0: return [(st, None)]
    r, p = ex.region(st, a[0], n, x, write=True)
    if r is None: return [(st, None)]
    k = st.ghost.get('rbufs')
    def freshval(o, z):
        if k is not None:
            v = RBUF(k, o, z)
            if z <= 8: SYM_RANGE[v.decl().name()] = (0, (1 << (8 * z)) - 1)
        else: v = fresh_int('rb', 0, (1 << (8 * z)) - 1 if z <= 8 else None)
        if z <= 8: st.assume(z3.And(v >= 0, v < (1 << (8 * z))))
        return v
    si = ex.find_lane_seg(st, r, p.off)
    if isinstance(n, int):
        pl = ex.pieces(st, r, p, n)
        if pl is None: raise Unsupported('random bytes into unaligned data')
        for y in pl:
            o, z = y[0], y[1]
            if len(y) == 3:
                for j in range(z): ex.write(st, st.mem[r.rid], p.at(o + j), 1, IV(8, freshval(o + j, 1)))
            else:
                v = freshval(o, z)
                ex.write(st, st.mem[r.rid], p.at(o), z, IV(8 * z, v) if z <= 8 else Blob(z, v))
    else: raise Unsupported('random bytes of symbolic size')
    if k is not None: st.ghost['rbufs'] = add(k, 1)
    return [(st, None)]
RANDSEQ = z3.Function('rand_seq', z3.IntSort(), z3.IntSort(), z3.IntSort())
def h_srand(ex, st, f, a, path, x):
    st.ghost['rseed'] = ex.S(st, a[0]); st.ghost['rpos'] = 0
    return [(st, None)]
def h_rand(ex, st, f, a, path, x):
    """rand() is a function of the seed and of the number of calls since srand()"""
    s = st.ghost.get('rseed'); k = st.ghost.get('rpos')
    if s is None or k is None:
        v = fresh_int('rand', 0, (1 << 31) - 1)
    else:
        v = RANDSEQ(zi(s), zi(k)); st.ghost['rpos'] = add(k, 1)
        SYM_RANGE['rand_seq'] = (0, (1 << 31) - 1)
    st.assume(z3.And(v >= 0, v < (1 << 31)))
    return [(st, IV(32, v, True))]

# ------------------------------------------------------------------ unique_ptr (one pointer)
def up_get(ex, st, f, a, path, x): return [(st, ex.load(st, a[0], ('ptr',), x))]
def up_index(ex, st, f, a, path, x):
    tn = targ(f.dem, f.dem.index('unique_ptr<') + 11)
    tn = re.sub(r'\s*\[\]$', '', tn)
    p = ex.load(st, a[0], ('ptr',), x)
    try: s = layout(ex, tn)[0]
    except Unsupported: s = None
    if s is None: return None
    if p is UNDEF: raise Unsupported('uninitialised unique_ptr')
    i = ex.U(st, a[1])
    return [(st, Ptr(p.rid, add(p.off, mul(i, s)), p.row, p.null))]
def up_bool(ex, st, f, a, path, x):
    p = ex.load(st, a[0], ('ptr',), x)
    b = ex.pcmp(st, 'ne', p, NULL); return [(st, b)]
def up_ctor0(ex, st, f, a, path, x): ex.store(st, a[0], ('ptr',), NULL, x); return [(st, None)]
def up_ctorp(ex, st, f, a, path, x): ex.store(st, a[0], ('ptr',), a[1], x); return [(st, None)]
def up_move(ex, st, f, a, path, x):
    p = ex.load(st, a[1], ('ptr',), x); ex.store(st, a[1], ('ptr',), NULL, x); ex.store(st, a[0], ('ptr',), p, x)
    return [(st, None)]
def up_dtor(ex, st, f, a, path, x):
    p = ex.load(st, a[0], ('ptr',), x)
    if p is not UNDEF: free(ex, st, p, x)
    return [(st, None)]
def up_assign(ex, st, f, a, path, x):
    p = ex.load(st, a[1], ('ptr',), x); ex.store(st, a[1], ('ptr',), NULL, x)
    q = ex.load(st, a[0], ('ptr',), x)
    ex.store(st, a[0], ('ptr',), p, x)
    if q is not UNDEF: free(ex, st, q, x)
    return [(st, a[0])]
def up_null(ex, st, f, a, path, x):
    q = ex.load(st, a[0], ('ptr',), x)
    ex.store(st, a[0], ('ptr',), NULL, x)
    if q is not UNDEF: free(ex, st, q, x)
    return [(st, a[0])]
def up_reset(ex, st, f, a, path, x):
    q = ex.load(st, a[0], ('ptr',), x)
    ex.store(st, a[0], ('ptr',), a[1] if len(a) > 1 and isinstance(a[1], Ptr) else NULL, x)
    if q is not UNDEF: free(ex, st, q, x)
    return [(st, None)]
def h_make_unique(ex, st, f, a, path, x):
    i = f.dem.index('std::make_unique<') + len('std::make_unique<')
    tn = targ(f.dem, i)
    if not tn.endswith('[]'): return None
    tn = re.sub(r'\s*\[\]$', '', tn)
    # a[0] = sret pointer, a[1] = count
    n = ex.U(st, a[-1])
    if tn.startswith('std::unique_ptr<'):
        inner = re.sub(r'\s*\[\]$', '', targ(tn, len('std::unique_ptr<')))
        s, ls = layout(ex, inner)
        fam = ex.new_region(st, 'rows', None); fam.fam = True
        fam.segs = [ex.array_seg('rows', ls, s, fam=True)]
        fam.rowlen = fresh_arr('rowlen', 0)
        r = ex.new_region(st, 'rowptrs', mul(n, 8))
        r.segs = [ex.array_seg('rowptrs', [(0, 8, 'ptr', fam.rid, 'fam')], 8, zero=True)]
    elif tn.startswith('std::vector<'):
        inner = targ(tn, len('std::vector<'))
        s, ls = layout(ex, inner)
        fam = ex.new_region(st, 'vrows', None); fam.fam = True
        fam.segs = [ex.array_seg('vrows', ls, s, fam=True)]
        fam.rowlen = z3.K(z3.IntSort(), z3.IntVal(0))
        r = ex.new_region(st, 'vecs', mul(n, 24))
        sg = ex.array_seg('vecs', [(0, 8, 'ptr', fam.rid, 'fam'), (8, 8, 'ptr', fam.rid, 'fam'), (16, 8, 'ptr', fam.rid, 'fam')], 24)
        for k, l in sg.lanes.items():
            l.offs = z3.K(z3.IntSort(), z3.IntVal(0)); l.nulls = z3.K(z3.IntSort(), z3.BoolVal(False)); l.unit = 0 if k[0] == 0 else s
        r.segs = [sg]; r.x['vecs'] = fam.rid
    else:
        r = alloc_elems(ex, st, 'arr', tn, n, True)
        ctor = ex.elem_init.get(tn)
        if ctor: ctor(ex, st, r, n)
    st.assume(zi(r.size) >= 0) if isinstance(r.size, z3.ExprRef) else None
    ex.store(st, a[0], ('ptr',), Ptr(r.rid, 0), x)
    return [(st, None)]

# ------------------------------------------------------------------ vector (begin, end, capacity pointers)
def vt(f): return targ(f.dem, f.dem.index('std::vector<') + 12)
def new_vec_region(ex, st, tn):
    s, ls = layout(ex, tn)
    r = ex.new_region(st, 'vec', 0)
    r.segs = [ex.array_seg('vec', ls, s)]
    r.x['tname'] = tn
    return r
def vec_init(ex, st, p, tn):
    r = new_vec_region(ex, st, tn)
    for o in (0, 8, 16): ex.store(st, p.at(o), ('ptr',), Ptr(r.rid, 0))
def v_ctor(ex, st, f, a, path, x): vec_init(ex, st, a[0], vt(f)); return [(st, None)]
def v_grow(ex, st, p, s, x):
    b = ex.load(st, p, ('ptr',), x); e = ex.load(st, p.at(8), ('ptr',), x)
    b = ex.dealias(st, b); e = ex.dealias(st, e)
    if b.rid is None: raise Unsupported('push_back on an unmodelled vector')
    n2 = add(e.off, s)
    if b.row is not None:
        r = st.wr(b.rid); r.rowlen = z3.Store(r.rowlen, zi(b.row), zi(n2))
    else:
        r = st.wr(b.rid); r.size = n2
        if isinstance(n2, z3.ExprRef): st.assume(n2 >= 0)
    ne = Ptr(e.rid, n2, e.row)
    ex.store(st, p.at(8), ('ptr',), ne); ex.store(st, p.at(16), ('ptr',), ne)
    return e
def v_push(ex, st, f, a, path, x):
    s = layout(ex, vt(f))[0]
    tn = vt(f)
    e = v_grow(ex, st, a[0], s, x)
    if tn.endswith('*') or tn in SCALARS:
        ex.memcpy(st, e, a[1], s, x)
    else: ex.memcpy(st, e, a[1], s, x)
    return [(st, e)]
def v_emplace(ex, st, f, a, path, x):
    tn = vt(f); s = layout(ex, tn)[0]
    if len(a) == 2:
        e = v_grow(ex, st, a[0], s, x); ex.memcpy(st, e, a[1], s, x); return [(st, e)]
    if len(a) == 1:
        e = v_grow(ex, st, a[0], s, x); ex.memset(st, e, IV(8, 0), s, x); return [(st, e)]
    raise Unsupported('emplace_back with several arguments')
def v_move(ex, st, f, a, path, x):
    for o in (0, 8, 16):
        ex.store(st, a[0].at(o), ('ptr',), ex.load(st, a[1].at(o), ('ptr',), x), x)
    vec_init(ex, st, a[1], vt(f))
    return [(st, None)]
def v_massign(ex, st, f, a, path, x):
    b, e = ex.load(st, a[1], ('ptr',), x), ex.load(st, a[1].at(8), ('ptr',), x)
    b = ex.dealias(st, b)
    d, pd = ex.region(st, a[0], 24, x)
    if d is not None and 'vecs' in d.x:
        idx, rem = ex.lane_index(st, d.segs[0], pd.off)
        if b.row is not None: raise Unsupported('vector moved between slots')
        # adopt the heap block as row idx
        fam = d.x['vecs']
        src = st.mem[b.rid]; dst = st.wr(fam)
        for k in src.segs[0].lanes:
            l = dst.segs[0].lanes[k].copy(); dst.segs[0].lanes[k] = l
            l.a = z3.Store(l.a, zi(idx), src.segs[0].lanes[k].a)
        dst.rowlen = z3.Store(dst.rowlen, zi(idx), zi(src.size))
        r2 = st.wr(d.rid)
        for o, off in ((0, 0), (8, zi(e.off)), (16, zi(e.off))):
            l = r2.segs[0].lanes[(o, 8)].copy(); r2.segs[0].lanes[(o, 8)] = l
            l.offs = z3.Store(l.offs, zi(idx), zi(ex.in_units(st, off, l.unit))); l.nulls = z3.Store(l.nulls, zi(idx), False)
    else:
        for o in (0, 8, 16): ex.store(st, a[0].at(o), ('ptr',), ex.load(st, a[1].at(o), ('ptr',), x), x)
    vec_init(ex, st, a[1], vt(f))
    return [(st, a[0])]
def v_copy(ex, st, f, a, path, x):
    b, e = ex.load(st, a[1], ('ptr',), x), ex.load(st, a[1].at(8), ('ptr',), x)
    b = ex.dealias(st, b)
    r0 = st.mem[b.rid]
    r = ex.new_region(st, 'vec', e.off)
    seg = r0.segs[0].copy()
    if b.row is not None:
        for k, l in list(seg.lanes.items()):
            l = l.copy(); l.a = z3.Select(l.a, zi(b.row)); seg.lanes[k] = l
    r.segs = [seg]
    for o, q in ((0, 0), (8, e.off), (16, e.off)): ex.store(st, a[0].at(o), ('ptr',), Ptr(r.rid, q))
    return [(st, None)]
def v_dtor(ex, st, f, a, path, x):
    p = ex.load(st, a[0], ('ptr',), x)
    if isinstance(p, Ptr): free(ex, st, p, x)
    return [(st, None)]
def v_reserve(ex, st, f, a, path, x): return [(st, None)]
def v_clear(ex, st, f, a, path, x):
    b = ex.load(st, a[0], ('ptr',), x)
    ex.store(st, a[0].at(8), ('ptr',), b, x)
    return [(st, None)]
def v_popback(ex, st, f, a, path, x):
    s = layout(ex, vt(f))[0]
    e = ex.load(st, a[0].at(8), ('ptr',), x)
    ex.oblige(st, ex.cmp('ge', e.off, s), 'pop_back-non-empty', x)
    ex.store(st, a[0].at(8), ('ptr',), Ptr(e.rid, sub(e.off, s), e.row), x)
    return [(st, None)]
def v_ctor_n(ex, st, f, a, path, x):
    """vector(n[, value])"""
    tn = vt(f); s, ls = layout(ex, tn); n = ex.U(st, a[1])
    r = alloc_elems(ex, st, 'vec', tn, n, True)
    mm = re.search(r'::vector\(unsigned long, (.*), std::allocator', f.dem)
    if mm and len(ls) == 1 and len(ls[0]) == 2:
        v = ex.load(st, a[2], ('i', 8 * ls[0][1]), x)
        r.segs[0].lanes[(ls[0][0], ls[0][1])].a = z3.K(z3.IntSort(), zi(ex.U(st, v)))
    elif mm: raise Unsupported('vector(n, value) of structures')
    for o, q in ((0, 0), (8, r.size), (16, r.size)): ex.store(st, a[0].at(o), ('ptr',), Ptr(r.rid, q))
    return [(st, None)]

def h_swap(ex, st, f, a, path, x):
    return None

# ------------------------------------------------------------------ table
def R_(p): return re.compile(p)
T = [
    (R_(r'__assert_fail'), h_stop), (R_(r'abort|exit|std::terminate\(\)|std::abort\(\)'), h_stop),
    (R_(r'std::__throw_.*'), h_throw), (R_(r'__clang_call_terminate|__cxa_throw.*'), h_throw),
    (R_(r'operator new(\[\])?\(unsigned long\)'), h_new), (R_(r'operator delete(\[\])?\(void\*(, unsigned long)?\)'), h_delete),
    (R_(r'llvm\.mem(cpy|move)\..*'), h_memcpy), (R_(r'memcpy|memmove'), h_memcpy), (R_(r'llvm\.memset\..*'), h_memset), (R_(r'memset'), h_memset),
    (R_(r'memcmp|bcmp|__builtin_memcmp'), h_memcmp),
    (R_(r'llvm\.umul\.with\.overflow\.i64'), h_mulov), (R_(r'llvm\.uadd\.with\.overflow\.i64'), h_addov),
    (R_(r'llvm\.fmuladd\.f64|fma'), h_fmuladd), (R_(r'llvm\.floor\.f64|floor'), h_floor), (R_(r'llvm\.ceil\.f64|ceil'), h_ceil),
    (R_(r'llvm\.fabs\.f64|fabs'), h_fabs), (R_(r'llvm\.minnum\.f64|fmin'), h_min), (R_(r'llvm\.maxnum\.f64|fmax'), h_max), (R_(r'log'), h_log),
    (R_(r'llvm\.experimental\.noalias.*|llvm\.assume|llvm\.stacksave.*|llvm\.stackrestore.*'), h_nop),
    (R_(r'randombytes_uniform'), h_rb_uniform), (R_(r'randombytes_buf'), h_rb_buf), (R_(r'srand'), h_srand), (R_(r'rand'), h_rand),
    (R_(r'std::unique_ptr<.*>::get\(\) const'), up_get), (R_(r'std::unique_ptr<.*>::operator\[\]\(unsigned long\) const'), up_index),
    (R_(r'std::unique_ptr<.*>::operator bool\(\) const'), up_bool),
    (R_(r'std::unique_ptr<.*>::unique_ptr<std::default_delete<.*>, void>\((std::nullptr_t)?\)'), up_ctor0),
    (R_(r'std::unique_ptr<.*>::unique_ptr\(std::unique_ptr<.*>&&\)'), up_move),
    (R_(r'std::unique_ptr<.*>::unique_ptr<.*>\((?!std::nullptr).*\*\)'), up_ctorp),
    (R_(r'std::unique_ptr<.*>::~unique_ptr\(\)'), up_dtor),
    (R_(r'std::unique_ptr<.*>::operator=\(std::unique_ptr<.*>&&\)'), up_assign), (R_(r'std::unique_ptr<.*>::operator=\(std::nullptr_t\)'), up_null),
    (R_(r'.*std::make_unique<.*\[\]>\(unsigned long\)'), h_make_unique),
    (R_(r'std::vector<.*>::vector\(\)'), v_ctor), (R_(r'std::vector<.*>::vector\(std::vector<.*>&&\)'), v_move),
    (R_(r'std::vector<.*>::vector\(std::vector<.*> const&\)'), v_copy),
    (R_(r'std::vector<.*>::vector\(unsigned long, .*\)'), v_ctor_n),
    (R_(r'std::vector<.*>::operator=\(std::vector<.*>&&\)'), v_massign), (R_(r'std::vector<.*>::~vector\(\)'), v_dtor),
    (R_(r'std::vector<.*>::push_back\(.*\)'), v_push), (R_(r'.*std::vector<.*>::emplace_back<.*>\(.*\)'), v_emplace),
    (R_(r'std::vector<.*>::reserve\(unsigned long\)'), v_reserve), (R_(r'std::vector<.*>::clear\(\)'), v_clear), (R_(r'std::vector<.*>::pop_back\(\)'), v_popback),
    (R_(r'std::chrono::.*'), None), 
    (R_(r'std::ostream::operator<<\(.*\)'), h_noop0), (R_(r'std::basic_ostream<.*>& std::(operator<<|endl).*'), h_noop0), (R_(r'std::ostream::(put|write|flush)\(.*\)'), h_noop0),
    (R_(r'perror|sleep|usleep'), h_nop),
]
from . import umap
T += umap.T
_cache = {}
def lookup(dem, f):
    if dem in _cache: return _cache[dem]
    h = None
    for rx, g in T:
        if rx.fullmatch(dem): h = g; break
    _cache[dem] = h
    return h
