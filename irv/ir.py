"""Parser for the textual LLVM IR that clang emits at -O0 (the extraction of the real code)."""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# ('i',N) ('ptr',) ('double',) ('float',) ('void',) ('arr',n,T) ('struct',packed,[T]) ('named',name) ('label',) ('metadata',) ('fn',)
TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")|
  (?P<lid>%"[^"]*"|%[\w.$-]+)|
  (?P<gid>@"[^"]*"|@[\w.$-]+)|
  (?P<md>![\w.]*)|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+\.\d+e[+-]?\d+|0x[0-9A-Fa-f]+|-?\d+)|
  (?P<dots>\.\.\.)|
  (?P<word>[A-Za-z_][\w.]*)|
  (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: ' + s[i:i+60] + ' in ' + s[:80])
        if m.end() == i: break
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

class TS:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i+k][1] if self.i+k < len(self.t) else None
    def kind(self, k=0): return self.t[self.i+k][0] if self.i+k < len(self.t) else None
    def next(self): v = self.t[self.i]; self.i += 1; return v[1]
    def accept(self, w):
        if self.peek() == w: self.i += 1; return True
        return False
    def expect(self, w):
        if self.peek() != w: raise IRError('expected %r got %r: %s' % (w, self.peek(), ' '.join(x[1] for x in self.t)[:200]))
        self.i += 1
    def eof(self): return self.i >= len(self.t)

def parse_type(ts):
    w = ts.peek()
    if w is None: raise IRError('type eof')
    k = ts.kind()
    if k == 'word' and re.fullmatch(r'i\d+', w): ts.next(); t = ('i', int(w[1:]))
    elif w == 'ptr':
        ts.next(); t = ('ptr',)
        if ts.peek() == 'addrspace': raise IRError('addrspace')
    elif w in ('double', 'float', 'void', 'label', 'metadata', 'x86_fp80', 'token'): ts.next(); t = (w,)
    elif k == 'lid': ts.next(); t = ('named', w)
    elif w == '[':
        ts.next(); n = int(ts.next()); ts.expect('x'); e = parse_type(ts); ts.expect(']'); t = ('arr', n, e)
    elif w == '<':
        ts.next()
        if ts.peek() == '{':
            ts.next(); fs = []
            while not ts.accept('}'):
                fs.append(parse_type(ts)); ts.accept(',')
            ts.expect('>'); t = ('struct', True, fs)
        else:
            n = int(ts.next()); ts.expect('x'); e = parse_type(ts); ts.expect('>'); t = ('vec', n, e)
    elif w == '{':
        ts.next(); fs = []
        while not ts.accept('}'):
            fs.append(parse_type(ts)); ts.accept(',')
        t = ('struct', False, fs)
    else: raise IRError('type? %r in %s' % (w, ' '.join(x[1] for x in ts.t)[:200]))
    # function type suffix e.g.  i32 (ptr, ...)
    while ts.peek() == '(' and t[0] in ('i', 'ptr', 'void', 'double', 'named', 'struct', 'arr'):
        # only when used as function type in calls: caller decides
        break
    return t

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','inreg','noalias','nocapture','readonly','writeonly','returned','immarg','nofree','readnone','swiftself','nest','dead_on_unwind','writable'}
def skip_attrs(ts):
    d = {}
    while True:
        w = ts.peek()
        if w in PARAM_ATTRS: d[w] = True; ts.next()
        elif w in ('align',):
            ts.next()
            if ts.accept('('): ts.next(); ts.expect(')')
            else: ts.next()
        elif w in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory', 'range'):
            ts.next(); ts.expect('(')
            depth = 1
            while depth:
                x = ts.next()
                if x == '(': depth += 1
                elif x == ')': depth -= 1
        elif w in ('sret', 'byval', 'elementtype', 'byref', 'inalloca', 'preallocated'):
            ts.next(); ts.expect('('); d[w] = parse_type(ts); ts.expect(')')
        else: return d

# ---------------------------------------------------------------- operands
# ('loc',name) ('glob',name) ('int',v) ('fp',v) ('null',) ('undef',) ('zero',) ('cexpr',op,...) ('agg',[..]) ('true')/('false')
import struct as _struct
def parse_value(ts, ty):
    k = ts.kind(); w = ts.peek()
    if k == 'lid': ts.next(); return ('loc', w)
    if k == 'gid': ts.next(); return ('glob', w[1:].strip('"'))
    if k == 'num':
        ts.next()
        if ty[0] in ('double', 'float'):
            if w.startswith('0x'): return ('fp', _struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0])
            return ('fp', float(w))
        return ('int', int(w))
    if w == 'true': ts.next(); return ('int', 1)
    if w == 'false': ts.next(); return ('int', 0)
    if w == 'null': ts.next(); return ('null',)
    if w in ('undef', 'poison'): ts.next(); return ('undef',)
    if w == 'zeroinitializer': ts.next(); return ('zero',)
    if w in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr'):
        ts.next()
        if w == 'getelementptr':
            ts.accept('inbounds')
            if ts.peek() == 'inrange': raise IRError('inrange')
            ts.expect('('); t0 = parse_type(ts); ops = []
            while ts.accept(','):
                ts.accept('inrange')
                t = parse_type(ts); ops.append((t, parse_value(ts, t)))
            ts.expect(')'); return ('cgep', t0, ops)
        ts.expect('('); t = parse_type(ts); v = parse_value(ts, t); ts.expect('to'); t2 = parse_type(ts); ts.expect(')')
        return ('ccast', w, t, v, t2)
    if w in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[w]
        ts.next()
        if w == '<' and ts.peek() == '{': ts.next(); close = '}>'
        els = []
        while ts.peek() not in ('}', ']', '>'):
            t = parse_type(ts); els.append((t, parse_value(ts, t))); ts.accept(',')
        ts.next()
        if close == '}>': ts.expect('>')
        return ('agg', els)
    if k == 'str': ts.next(); return ('str', w)
    raise IRError('value? %r in %s' % (w, ' '.join(x[1] for x in ts.t)[:300]))

class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'text', 'dbg')
    def __repr__(self): return self.text

class Func:
    def __init__(self, name): self.name = name; self.params = []; self.ret = None; self.blocks = None; self.lines = None; self.order = None; self.entry = None; self.retattrs = {}; self.dem = name; self.sub = None

class Module:
    def __init__(self, text):
        self.types = {}; self.funcs = {}; self.decls = {}; self.globals = {}; self.md = {}
        self._parse(text)
        self._demangle()

    def _parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                if rest.strip() == 'opaque': self.types[name] = ('opaque',)
                else: self.types[name] = parse_type(TS(tokenize(rest)))
            elif l.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', l)
                self.globals[m.group(1)[1:].strip('"')] = m.group(2)
            elif l.startswith('define '):
                hdr = l; body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f = self._header(hdr)
                f.lines = body
                m = re.search(r'!dbg !(\d+)', hdr)
                f.sub = int(m.group(1)) if m else None
                self.funcs[f.name] = f
            elif l.startswith('declare '):
                f = self._header(l)
                self.decls[f.name] = f
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!(\w+)\((.*)\)', l)
                if m: self.md[int(m.group(1))] = (m.group(2), m.group(3))
            i += 1

    def _header(self, hdr):
        m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', hdr)
        name = m.group(1)[1:].strip('"')
        f = Func(name)
        pre = hdr[:m.start()]
        pt = TS(tokenize(pre))
        pt.next()
        # skip linkage words until a type
        while True:
            w = pt.peek()
            if w in ('linkonce_odr','internal','dso_local','weak','weak_odr','private','available_externally','external','hidden','local_unnamed_addr','noundef','linkonce','comdat','fastcc','extern_weak','signext','zeroext','nonnull','noalias'):
                pt.next()
            elif w in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'): skip_attrs(pt)
            else: break
        f.ret = parse_type(pt)
        rest = hdr[m.end()-1:]
        # find matching paren
        d = 0
        for j, c in enumerate(rest):
            if c == '(': d += 1
            elif c == ')':
                d -= 1
                if d == 0: break
        ps = TS(tokenize(rest[1:j]))
        f.vararg = False
        idx = 0
        while not ps.eof():
            if ps.accept('...'): f.vararg = True; break
            t = parse_type(ps); a = skip_attrs(ps)
            nm = None
            if ps.kind() == 'lid': nm = ps.next()
            f.params.append((t, nm, a))
            ps.accept(',')
        return f

    def _demangle(self):
        names = list(self.funcs) + list(self.decls)
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for nm, d in zip(names, out):
            f = self.funcs.get(nm) or self.decls.get(nm)
            # undo .N suffixes added by linking
            f.dem = re.sub(r' \(\.\d+\)$', '', d)
        self.by_dem = {}
        for f in self.funcs.values(): self.by_dem.setdefault(f.dem, []).append(f)

    def find(self, pattern):
        """Defined functions whose demangled name fully matches the regex."""
        r = re.compile(pattern)
        return [f for f in self.funcs.values() if r.fullmatch(f.dem)]

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.types: raise IRError('unknown type ' + t[1])
            t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], 8 if t[1] <= 64 else 16)
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'arr': return self.align(t[2])
        if k == 'struct': return 1 if t[1] else max([self.align(x) for x in t[2]] or [1])
        raise IRError('align %r' % (t,))
    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i': return (t[1] + 7) // 8 if t[1] in (1, 8, 16, 32, 64, 128) else _pow2((t[1] + 7) // 8)
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'struct': return self.struct_layout(t)[1]
        raise IRError('size %r' % (t,))
    def struct_layout(self, t):
        t = self.resolve(t)
        off = 0; offs = []; al = 1
        for f in t[2]:
            a = 1 if t[1] else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.size(f)
        off = (off + al - 1) // al * al
        return offs, off

    # ------------------------------------------------------------ bodies
    def body(self, f):
        if f.blocks is not None: return f
        blocks = {}; order = []
        nparams = len(f.params)
        # implicit entry label
        cur = None
        # unnamed values: entry block label is the next number after params
        first = str(nparams) if all(p[1] is None or re.fullmatch(r'%\d+', p[1]) for p in f.params) else 'entry'
        cur = '%' + first; blocks[cur] = []; order.append(cur)
        j = 0; lines = f.lines
        started = False
        while j < len(lines):
            l = lines[j]; j += 1
            if not l.strip() or l.lstrip().startswith(';'): continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                lab = '%' + m.group(1)
                if not started:
                    del blocks[cur]; order.pop()
                cur = lab; blocks[cur] = []; order.append(cur); started = True
                continue
            started = True
            s = l.strip()
            if s.startswith('switch') and s.rstrip().endswith('['):
                while not lines[j].strip().startswith(']'):
                    s += ' ' + lines[j].strip(); j += 1
                s += ' ] ' + lines[j].strip()[1:]; j += 1
            blocks[cur].append(parse_inst(s))
        f.blocks = blocks; f.order = order; f.entry = order[0]
        return f

    def loc(self, inst):
        """source line of an instruction: (line, scope file) when known"""
        if inst is None or inst.dbg is None: return None
        x = self.md.get(inst.dbg)
        if not x: return None
        m = re.search(r'line: (\d+)', x[1])
        ln = int(m.group(1)) if m else 0
        m = re.search(r'scope: !(\d+)', x[1])
        fn = self._file(int(m.group(1))) if m else None
        return (fn, ln)
    def _file(self, sc):
        seen = 0
        while sc in self.md and seen < 10:
            k, b = self.md[sc]
            m = re.search(r'\bfile: !(\d+)', b)
            if m:
                k2, b2 = self.md.get(int(m.group(1)), (None, ''))
                m2 = re.search(r'filename: "([^"]*)"', b2)
                return m2.group(1) if m2 else None
            m = re.search(r'scope: !(\d+)', b)
            if not m: return None
            sc = int(m.group(1)); seen += 1
        return None

def _pow2(n):
    p = 1
    while p < n: p *= 2
    return p

BINOPS = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
CASTS = {'zext','sext','trunc','bitcast','ptrtoint','inttoptr','sitofp','uitofp','fptoui','fptosi','fpext','fptrunc'}
FLAGS = {'nsw','nuw','exact','inbounds','disjoint','nneg','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign'}

def parse_inst(s):
    inst = Inst(); inst.text = s; inst.x = {}; inst.res = None; inst.args = []; inst.ty = None
    m = re.search(r', !dbg !(\d+)', s)
    inst.dbg = int(m.group(1)) if m else None
    # strip trailing metadata
    core = re.sub(r'(, ![\w.]+ ![\d{}]+)+\s*$', '', s)
    ts = TS(tokenize(core))
    if ts.kind() == 'lid' and ts.peek(1) == '=':
        inst.res = ts.next(); ts.next()
    op = ts.next()
    if op in ('tail', 'musttail', 'notail'): op = ts.next()
    inst.op = op
    if op in BINOPS or op in FBIN:
        fl = set()
        while ts.peek() in FLAGS: fl.add(ts.next())
        inst.ty = parse_type(ts); a = parse_value(ts, inst.ty); ts.expect(','); b = parse_value(ts, inst.ty)
        inst.args = [a, b]; inst.x['flags'] = fl
    elif op == 'fneg':
        while ts.peek() in FLAGS: ts.next()
        inst.ty = parse_type(ts); inst.args = [parse_value(ts, inst.ty)]
    elif op in ('icmp', 'fcmp'):
        while ts.peek() in FLAGS: ts.next()
        inst.x['pred'] = ts.next(); inst.ty = parse_type(ts)
        a = parse_value(ts, inst.ty); ts.expect(','); inst.args = [a, parse_value(ts, inst.ty)]
    elif op in CASTS:
        fl = set()
        while ts.peek() in FLAGS: fl.add(ts.next())
        inst.x['flags'] = fl
        t = parse_type(ts); v = parse_value(ts, t); ts.expect('to'); inst.ty = parse_type(ts)
        inst.args = [v]; inst.x['from'] = t
    elif op == 'alloca':
        inst.ty = parse_type(ts)
        inst.x['n'] = None
        if ts.accept(','):
            if ts.peek() != 'align':
                t = parse_type(ts); inst.x['n'] = (t, parse_value(ts, t))
    elif op == 'load':
        ts.accept('volatile'); 
        if ts.accept('atomic'): inst.x['atomic'] = True
        inst.ty = parse_type(ts); ts.expect(','); parse_type(ts); inst.args = [parse_value(ts, ('ptr',))]
    elif op == 'store':
        ts.accept('volatile')
        if ts.accept('atomic'): inst.x['atomic'] = True
        inst.ty = parse_type(ts); v = parse_value(ts, inst.ty); ts.expect(','); parse_type(ts); p = parse_value(ts, ('ptr',))
        inst.args = [v, p]
    elif op == 'getelementptr':
        while ts.peek() in FLAGS: ts.next()
        inst.ty = parse_type(ts); ops = []
        while ts.accept(','):
            t = parse_type(ts); ops.append((t, parse_value(ts, t)))
        inst.args = ops
    elif op in ('call', 'invoke'):
        while ts.peek() in FLAGS or ts.peek() in ('fastcc', 'ccc'): ts.next()
        inst.x['rattrs'] = skip_attrs(ts)
        inst.ty = parse_type(ts)
        if ts.peek() == '(':   # function type
            d = 0
            while True:
                w = ts.next()
                if w == '(': d += 1
                elif w == ')':
                    d -= 1
                    if d == 0: break
        if ts.peek() == 'asm': raise IRError('inline asm')
        callee = parse_value(ts, ('ptr',)); ts.expect('(')
        args = []
        while not ts.accept(')'):
            t = parse_type(ts)
            a = skip_attrs(ts)
            if t == ('metadata',):
                while ts.peek() not in (',', ')'): ts.next()
                args.append((t, None, a))
            else: args.append((t, parse_value(ts, t), a))
            ts.accept(',')
        inst.x['callee'] = callee; inst.args = args
        if op == 'invoke':
            while ts.peek() != 'to': ts.next()
            ts.next(); ts.expect('label'); inst.x['normal'] = ts.next()
    elif op == 'br':
        if ts.accept('label'): inst.args = [ts.next()]; inst.x['cond'] = None
        else:
            t = parse_type(ts); inst.x['cond'] = parse_value(ts, t); ts.expect(','); ts.expect('label'); a = ts.next(); ts.expect(','); ts.expect('label'); inst.args = [a, ts.next()]
    elif op == 'switch':
        t = parse_type(ts); v = parse_value(ts, t); ts.expect(','); ts.expect('label'); d = ts.next(); ts.expect('[')
        cases = []
        while not ts.accept(']'):
            t2 = parse_type(ts); c = parse_value(ts, t2); ts.expect(','); ts.expect('label'); cases.append((c[1], ts.next()))
        inst.ty = t; inst.x.update(v=v, default=d, cases=cases)
    elif op == 'ret':
        inst.ty = parse_type(ts)
        inst.args = [] if inst.ty == ('void',) else [parse_value(ts, inst.ty)]
    elif op == 'unreachable': pass
    elif op == 'phi':
        while ts.peek() in FLAGS: ts.next()
        inst.ty = parse_type(ts); inc = []
        while True:
            ts.expect('['); v = parse_value(ts, inst.ty); ts.expect(','); b = ts.next(); ts.expect(']'); inc.append((v, b))
            if not ts.accept(','): break
        inst.x['inc'] = inc
    elif op == 'select':
        while ts.peek() in FLAGS: ts.next()
        t = parse_type(ts); c = parse_value(ts, t); ts.expect(','); inst.ty = parse_type(ts); a = parse_value(ts, inst.ty); ts.expect(','); t3 = parse_type(ts); b = parse_value(ts, t3)
        inst.args = [c, a, b]
    elif op == 'extractvalue':
        t = parse_type(ts); v = parse_value(ts, t); idx = []
        while ts.accept(','): idx.append(int(ts.next()))
        inst.x['t'] = t; inst.args = [v]; inst.x['idx'] = idx
    elif op == 'insertvalue':
        t = parse_type(ts); v = parse_value(ts, t); ts.expect(','); t2 = parse_type(ts); e = parse_value(ts, t2); idx = []
        while ts.accept(','): idx.append(int(ts.next()))
        inst.ty = t; inst.args = [v, e]; inst.x['idx'] = idx; inst.x['et'] = t2
    elif op == 'freeze':
        inst.ty = parse_type(ts); inst.args = [parse_value(ts, inst.ty)]
    else:
        inst.x['unsupported'] = True
    return inst

# ---------------------------------------------------------------- CFG
def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br': return list(t.args)
    if t.op == 'switch': return [t.x['default']] + [l for _, l in t.x['cases']]
    if t.op == 'invoke': return [t.x['normal']]
    return []

def loops(f):
    """natural loops: header -> set(body)"""
    if hasattr(f, '_loops'): return f._loops
    blocks = f.order
    S = {b: succs(f, b) for b in blocks}
    preds = {b: [] for b in blocks}
    # reachable only
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st.extend(S[b])
    for b in seen:
        for s in S[b]: preds[s].append(b)
    dom = {b: set(seen) for b in seen}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in blocks:
            if b not in seen or b == f.entry: continue
            nd = None
            for p in preds[b]: nd = set(dom[p]) if nd is None else nd & dom[p]
            nd = (nd or set()) | {b}
            if nd != dom[b]: dom[b] = nd; ch = True
    L = {}
    for b in seen:
        for s in S[b]:
            if s in dom[b]:
                body = L.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    f._loops = L
    return L
