"""Parser for the textual LLVM IR (clang-18 -O0) of the functions under contract.

Functions are split textually when the module is loaded and parsed only when they are executed.
Anything the parser does not know raises Unsupported: it is never skipped silently.
"""
import re, struct, subprocess
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i',bits) ('d',) ('f',) ('p',) ('a',n,t) ('s',[t..],packed) ('n',name) ('v',n,t) ('void',) ('fn',) ('label',) ('meta',)
I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
PTR, DBL, FLT, VOID = ('p',), ('d',), ('f',), ('void',)

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c"(?:[^"])*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<attr>\#\d+)
 | (?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<q>"[^"]*")
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*|:])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('lex: ' + s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)))

    # ---- types
    def type(self):
        t = self.base_type()
        while True:
            if self.peek() == '(':      # function type: ret (args)
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                t = ('fn', t)
            elif self.peek() == '*':
                self.next()
                t = PTR
            else:
                return t

    def base_type(self):
        k, v = self.t[self.i]
        self.i += 1
        if v == 'ptr':
            return PTR
        if v == 'double':
            return DBL
        if v == 'float':
            return FLT
        if v == 'void':
            return VOID
        if v == 'label':
            return ('label',)
        if v == 'metadata':
            return ('meta',)
        if v == 'x86_fp80':
            return ('x80',)
        if k == 'word' and re.fullmatch(r'i\d+', v):
            return ('i', int(v[1:]))
        if v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('a', n, t)
        if v == '<':
            if self.peek() == '{':
                self.next()
                ts = self.typelist('}')
                self.expect('>')
                return ('s', ts, True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('v', n, t)
        if v == '{':
            return ('s', self.typelist('}'), False)
        if k == 'loc':
            return ('n', v)
        raise Unsupported('type ' + v)

    def typelist(self, end):
        ts = []
        if self.accept(end):
            return ts
        while True:
            if self.peek() == '...':
                self.next()
            else:
                ts.append(self.type())
            if self.accept(end):
                return ts
            self.expect(',')

    # ---- values
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if v == 'true':
            return ('c', True)
        if v == 'false':
            return ('c', False)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef', ty)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if v == 'none':
            return ('null',)
        if k == 'hex':
            return ('c', hexfp(v))
        if k == 'num':
            if ty in (DBL, FLT):
                return ('c', Fraction(float(v)))
            return ('c', int(v))
        if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'trunc'):
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'inrange'):
                    self.next()
                self.expect('(')
                bt = self.type()
                ops = []
                while self.accept(','):
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return ('cegep', bt, ops)
            while self.peek() in ('nsw', 'nuw', 'exact'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            if v in ('sub', 'add'):
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('cebin', v, a, b)
            self.expect('to')
            self.type()
            self.expect(')')
            return a
        if v in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next()
                vals = self.vallist('}')
                self.expect('>')
                return ('agg', vals)
            return ('agg', self.vallist(end))
        if k == 'str':
            return ('str', v)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.value(ty)
        raise Unsupported('value %s' % v)

    def vallist(self, end):
        vs = []
        if self.accept(end):
            return vs
        while True:
            t = self.type()
            vs.append((t, self.value(t)))
            if self.accept(end):
                return vs
            self.expect(',')


def hexfp(v):
    if v[2] in 'KLMHR':
        return ('special', v)
    b = int(v, 16)
    f = struct.unpack('>d', struct.pack('>Q', b))[0]
    if f != f or f in (float('inf'), float('-inf')):
        return ('special', v)
    return Fraction(f)


PATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
          'immarg', 'nofree', 'readnone', 'writable', 'dead_on_unwind', 'nest', 'swiftself', 'allocalign', 'allocptr', 'noundef,'}


def skip_attrs(p):
    """skip parameter/return attributes; returns the set of interesting ones (byval/sret with type)"""
    got = {}
    while True:
        v = p.peek()
        if v in PATTRS:
            p.next()
            got[v] = True
        elif v == 'align':
            p.next()
            if p.peek() == '(':
                p.next(); p.next(); p.expect(')')
            else:
                p.next()
        elif v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'nofpclass', 'allocsize', 'memory'):
            p.next()
            p.expect('(')
            d = 1
            while d:
                x = p.next()
                d += (x == '(') - (x == ')')
        elif v in ('byval', 'sret', 'byref', 'elementtype', 'preallocated', 'inalloca'):
            p.next()
            p.expect('(')
            got[v] = p.type()
            p.expect(')')
        else:
            return got


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, dst, ty, a, dbg, text):
        self.op, self.dst, self.ty, self.a, self.dbg, self.text = op, dst, ty, a, dbg, text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, mod, name, header, body_lines):
        self.mod, self.name = mod, name
        self.header, self.lines = header, body_lines
        self._parsed = False

    @property
    def demangled(self):
        return self.mod.demangled.get(self.name, self.name)

    def parse(self):
        if self._parsed:
            return self
        h = self.header
        toks = tokenize(h[:h.rindex('{')])
        p = P(toks, self.mod)
        while p.peek() != '@' + self.name and p.t[p.i][1] != '@"%s"' % self.name:
            p.next()
        p.next()
        p.expect('(')
        self.params = []
        if not p.accept(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                else:
                    t = p.type()
                    at = skip_attrs(p)
                    nm = p.next() if p.kind() == 'loc' else '%%%d' % len(self.params)
                    self.params.append((nm, t, at))
                if p.accept(')'):
                    break
                p.expect(',')
        self.blocks, self.order = {}, []
        cur = None
        n = len(self.lines)
        i = 0
        while i < n:
            ln = self.lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                nm = '%' + m.group(1)
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                nm = '%' + str(len(self.params))
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
            txt = ln.strip()
            if txt.startswith('switch') or ' switch ' in txt[:20]:
                while ']' not in txt:
                    txt += ' ' + self.lines[i].strip()
                    i += 1
            if ('invoke ' in txt) and ' unwind label ' not in txt:
                txt += ' ' + self.lines[i].strip()
                i += 1
            if 'landingpad' in txt:
                while i < n and re.match(r'^\s+(cleanup|catch|filter)', self.lines[i]):
                    txt += ' ' + self.lines[i].strip()
                    i += 1
            cur.append(self.parse_instr(txt))
        self.entry = self.order[0]
        self._loops()
        self._parsed = True
        return self

    # ---- instruction
    def parse_instr(self, txt):
        mod = self.mod
        dbg = None
        m = re.search(r', !dbg !(\d+)', txt)
        if m:
            dbg = int(m.group(1))
        m = re.search(r'call void @llvm\.dbg\.(declare|value)\(metadata (?:ptr|\S+) (\S+), metadata !(\d+)', txt)
        if m:
            return Instr('dbgdecl', None, None, (m.group(2), int(m.group(3))), dbg, txt)
        if '@llvm.dbg' in txt:
            return Instr('nop', None, None, None, dbg, txt)
        cut = txt
        j = txt.find(', !')
        if j >= 0:
            cut = txt[:j]
        toks = tokenize(cut)
        p = P(toks, mod)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()

        def I(o, ty, a):
            return Instr(o, dst, ty, a, dbg, txt)
        if op == 'alloca':
            t = p.type()
            cnt = ('c', 1)
            if p.accept(','):
                if p.peek() != 'align':
                    tt = p.type()
                    cnt = p.value(tt)
            return I('alloca', t, cnt)
        if op == 'load':
            p.accept('atomic'); p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            return I('load', t, p.value(PTR))
        if op == 'store':
            p.accept('atomic'); p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return I('store', t, (v, p.value(PTR)))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            ops = []
            while p.accept(','):
                t = p.type()
                ops.append((t, p.value(t)))
            return I('gep', bt, ops)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I('bin', t, (op, a, b, fl))
        if op == 'fneg':
            t = p.type()
            return I('fneg', t, p.value(t))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                p.next()
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(op, t, (pr, a, b))
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            t2 = t
            if op != 'freeze':
                p.expect('to')
                t2 = p.type()
            return I('cast', t2, (op, t, v))
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return I('br', None, (None, p.next(), None))
            p.type()
            c = p.value(I1)
            p.expect(','); p.expect('label')
            a = p.next()
            p.expect(','); p.expect('label')
            return I('br', None, (c, a, p.next()))
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(','); p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t2 = p.type()
                c = p.value(t2)
                p.expect(','); p.expect('label')
                cs.append((c[1], p.next()))
            return I('switch', t, (v, d, cs))
        if op == 'ret':
            t = p.type()
            return I('ret', t, None if t == VOID else p.value(t))
        if op == 'unreachable':
            return I('unreachable', None, None)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not p.accept(','):
                    break
            return I('phi', t, inc)
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            return I('select', t, (c, a, p.value(t)))
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return I('extractvalue', t, (v, ix))
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return I('insertvalue', t, (v, t2, e, ix))
        if op in ('call', 'invoke', 'tail', 'musttail', 'notail'):
            if op in ('tail', 'musttail', 'notail'):
                p.next()
                op = 'call'
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'):
                p.next()
            skip_attrs(p)
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at_t = p.type()
                    at = skip_attrs(p)
                    if at_t == ('meta',):
                        while p.peek() not in (',', ')'):
                            p.next()
                        args.append((at_t, None, at))
                    else:
                        args.append((at_t, p.value(at_t), at))
                    if p.accept(')'):
                        break
                    p.expect(',')
            norm = unw = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.expect('label')
                norm = p.next()
                p.expect('unwind'); p.expect('label')
                unw = p.next()
            return I('call', t, (callee, args, norm, unw))
        if op == 'landingpad':
            return I('landingpad', p.type(), 'cleanup' if 'catch' not in txt else 'catch')
        if op == 'resume':
            t = p.type()
            return I('resume', t, p.value(t))
        if op == 'fence':
            return I('nop', None, None)
        if op == 'atomicrmw':
            p.accept('volatile')
            sub = p.next()
            p.type()
            ptr = p.value(PTR)
            p.expect(',')
            t = p.type()
            return I('atomicrmw', t, (sub, ptr, p.value(t)))
        if op == 'cmpxchg':
            raise Unsupported('cmpxchg')
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            if op == 'extractelement':
                return I('extractvalue', t, (v, [e[1]]))
            if op == 'insertelement':
                p.expect(',')
                t3 = p.type()
                ix = p.value(t3)
                return I('insertvalue', t, (v, t2, e, [ix[1]]))
        raise Unsupported('instr ' + txt)

    def _succ(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [x for x in t.a[1:] if x]
        if t.op == 'switch':
            return [t.a[1]] + [x for _, x in t.a[2]]
        if t.op == 'call' and t.a[2]:
            return [t.a[2], t.a[3]]
        return []

    def _loops(self):
        """natural loops: header -> set of blocks; ordered by appearance in source"""
        succ = {b: self._succ(b) for b in self.order}
        color, back = {}, []
        st = [(self.entry, iter(succ[self.entry]))]
        color[self.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                st.pop()
        pred = {b: [] for b in self.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        self.loops = {}
        for b, h in back:
            body = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(pred[x])
        self.loop_headers = [b for b in self.order if b in self.loops]


class Module:
    def __init__(self, path):
        self.funcs, self.globals, self.structs, self.meta, self.decls = {}, {}, {}, {}, set()
        hdr, body = None, None
        with open(path) as f:
            for ln in f:
                ln = ln.rstrip('\n')
                if hdr is not None:
                    if ln == '}':
                        nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr).group(1).strip('"')
                        self.funcs[nm] = Function(self, nm, hdr, body)
                        hdr = None
                    else:
                        body.append(ln)
                    continue
                if ln.startswith('define '):
                    hdr, body = ln, []
                elif ln.startswith('%'):
                    m = re.match(r'^(%"[^"]*"|%\S+) = type (.*)$', ln)
                    self.structs[m.group(1)] = m.group(2)
                elif ln.startswith('@'):
                    m = re.match(r'^@("[^"]*"|\S+) = (.*)$', ln)
                    self.globals[m.group(1).strip('"')] = m.group(2)
                elif ln.startswith('!'):
                    m = re.match(r'^!(\d+) = (.*)$', ln)
                    if m:
                        self.meta[int(m.group(1))] = m.group(2)
                elif ln.startswith('declare '):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    self.decls.add(m.group(1).strip('"'))
        names = list(self.funcs) + list(self.decls)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.demangled = dict(zip(names, out))
        self._st, self._sz, self._gl = {}, {}, {}

    def find(self, demangled_re):
        r = re.compile(demangled_re)
        return [self.funcs[n] for n in self.funcs if r.search(self.demangled.get(n, n))]

    # ---- layout
    def struct(self, name):
        if name not in self._st:
            s = self.structs[name]
            if s == 'opaque':
                raise Unsupported('opaque ' + name)
            self._st[name] = P(tokenize(s), self).type()
        return self._st[name]

    def layout(self, t):
        """(size, align)"""
        k = t[0]
        if k == 'i':
            n = max(1, (t[1] + 7) // 8)
            if n in (1, 2, 4, 8):
                return n, n
            if n == 16:
                return 16, 16
            return n, 8
        if k in ('p', 'd'):
            return 8, 8
        if k == 'f':
            return 4, 4
        if k == 'x80':
            return 16, 16
        if k == 'a':
            s, a = self.layout(t[2])
            return s * t[1], a
        if k == 'v':
            s, a = self.layout(t[2])
            return s * t[1], s * t[1]
        if k == 'n':
            if t[1] not in self._sz:
                self._sz[t[1]] = self.layout(self.struct(t[1]))
            return self._sz[t[1]]
        if k == 's':
            o, al = 0, 1
            for x in t[1]:
                s, a = self.layout(x)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        raise Unsupported('layout %r' % (t,))

    def size(self, t):
        return self.layout(t)[0]

    def field(self, t, i):
        """(offset,type) of field i of struct type"""
        if t[0] == 'n':
            t = self.struct(t[1])
        if t[0] in ('a', 'v'):
            return self.size(t[2]) * i, t[2]
        o = 0
        for j, x in enumerate(t[1]):
            s, a = self.layout(x)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += s
        raise Unsupported('field')

    def flat(self, t, base=0):
        """[(offset, scalar type)]"""
        k = t[0]
        if k == 'n':
            return self.flat(self.struct(t[1]), base)
        if k in ('a', 'v'):
            s = self.size(t[2])
            r = []
            for i in range(t[1]):
                r += self.flat(t[2], base + i * s)
            return r
        if k == 's':
            r, o = [], 0
            for x in t[1]:
                s, a = self.layout(x)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a
                r += self.flat(x, base + o)
                o += s
            return r
        return [(base, t)]

    def line(self, dbg):
        m = self.meta.get(dbg)
        if not m:
            return 0
        r = re.search(r'line: (\d+)', m)
        return int(r.group(1)) if r else 0

    def varname(self, n):
        r = re.search(r'name: "([^"]*)"', self.meta.get(n, ''))
        return r.group(1) if r else None
