"""Parser for textual LLVM IR (opaque pointers, as printed by llvm-dis 18)."""
import re, struct

TOK = re.compile(r'''
  (?P<ws>\s+|;[^\n]*)
 |(?P<id>[%@](?:"[^"]*"|[\w.$-]+))
 |(?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:[eE][+-]?\d+)?)?)
 |(?P<md>!(?:[\w.$-]+|"[^"]*")?)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_$.][\w.$-]*)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        pos = k.end()
        if k.lastgroup != 'ws':
            out.append(k.group())
    return out


VOID = ('void',)
PTR = ('p',)
LABEL = ('label',)
I1 = ('i', 1)
I8 = ('i', 8)
I64 = ('i', 64)

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
         'afn', 'reassoc', 'disjoint', 'nneg', 'samesign', 'volatile'}
PARAM_ATTRS = {'zeroext', 'signext', 'inreg', 'byval', 'noalias', 'nocapture', 'nonnull', 'readonly',
               'readnone', 'writeonly', 'noundef', 'immarg', 'returned', 'nofree', 'nest', 'swiftself',
               'swifterror', 'sret', 'align', 'dereferenceable', 'dereferenceable_or_null', 'elementtype',
               'allocalign', 'allocptr', 'writable', 'preallocated', 'inalloca', 'range', 'dead_on_unwind',
               'nofpclass'}
CCS = {'ccc', 'fastcc', 'coldcc', 'tail', 'musttail', 'notail', 'x86_stdcallcc', 'win64cc',
       'x86_64_sysvcc', 'tailcc', 'swiftcc'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def unquote(name):
    """'%"a b"' -> 'a b'; keeps no sigil"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
        if '\\' in n:
            n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n


class P:
    """token stream parser bound to a module"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if self.next() != x:
            raise IRError('expected %r near %r' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    # ---- types
    def type(self):
        t = self.next()
        c = t[0]
        if t == 'ptr':
            ty = PTR
            if self.peek() == 'addrspace':
                self.next(); self.need('('); self.next(); self.need(')')
        elif c == 'i' and t[1:].isdigit():
            ty = ('i', int(t[1:]))
        elif t == 'void':
            ty = VOID
        elif t == 'float':
            ty = ('f', 32)
        elif t == 'double':
            ty = ('f', 64)
        elif t == 'label':
            ty = LABEL
        elif t in ('metadata', 'token', 'x86_mmx', 'half', 'x86_fp80', 'fp128'):
            ty = (t,)
        elif c == '%':
            ty = ('n', unquote(t))
        elif t == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']')
            ty = ('a', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                ty = ('s', tuple(self.typelist('}')), True)
                self.need('>')
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>')
                ty = ('v', n, e)
        elif t == '{':
            ty = ('s', tuple(self.typelist('}')), False)
        else:
            raise IRError('type? %r in %r' % (t, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))
        while True:
            if self.peek() == '(':       # function type
                self.next()
                args = []
                while not self.eat(')'):
                    if self.eat('...'):
                        continue
                    args.append(self.type())
                    self.eat(',')
                ty = ('fn', ty, tuple(args))
            elif self.peek() == '*':
                self.next()
                ty = PTR
            else:
                return ty

    def typelist(self, end):
        out = []
        while not self.eat(end):
            out.append(self.type())
            self.eat(',')
        return out

    # ---- values
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('r', unquote(t))
        if c == '@':
            return ('g', unquote(t))
        if t in ('undef', 'poison'):
            return ('u', ty)
        if t == 'zeroinitializer':
            return ('c', zero_of(ty, self.mod))
        if t == 'null' or t == 'none':
            return ('c', 0)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t.startswith('c"'):
            s = t[2:-1]
            b = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ('c', b)
        if t == '<':
            if self.peek() == '{':
                self.next()
                v = self.vallist('}')
                self.need('>')
                return v
            return self.vallist('>')
        if t == '[':
            return self.vallist(']')
        if t == '{':
            return self.vallist('}')
        if ty[0] == 'i':
            return ('c', int(t) & ((1 << ty[1]) - 1))
        if ty[0] == 'f':
            if t.startswith('0x'):
                d = struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0]
                raw = int(t, 16)
            else:
                d = float(t)
                raw = struct.unpack('<Q', struct.pack('<d', d))[0]
            if ty[1] == 64:
                return ('fc', raw, 64, d)
            if d != d:
                # NaN: keep sign and top mantissa bits
                b = ((raw >> 63) << 31) | (0xff << 23) | ((raw >> 29) & 0x7fffff)
            else:
                b = struct.unpack('<I', struct.pack('<f', d))[0]
            return ('fc', b, 32, d)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
                self.need('(')
                while not self.eat(')'):
                    self.next()
            self.need('(')
            sty = self.type(); self.need(',')
            args = []
            while True:
                self.eat('inrange')
                aty = self.type()
                args.append((aty, self.value(aty)))
                if self.eat(')'):
                    break
                self.need(',')
            return ('e', 'gep', sty, args)
        if t in CASTS:
            self.need('(')
            a = self.type(); v = self.value(a); self.need('to'); b = self.type(); self.need(')')
            return ('e', 'cast', t, a, v, b)
        if t in BINOPS:
            while self.peek() in FLAGS:
                self.next()
            self.need('(')
            a = self.type(); x = self.value(a); self.need(','); self.type(); y = self.value(a); self.need(')')
            return ('e', 'bin', t, a, x, y)
        if t == 'icmp':
            pred = self.next()
            self.need('(')
            a = self.type(); x = self.value(a); self.need(','); self.type(); y = self.value(a); self.need(')')
            return ('e', 'icmp', pred, a, x, y)
        if t == 'select':
            self.need('(')
            a0 = self.type(); x = self.value(a0); self.need(',')
            a1 = self.type(); y = self.value(a1); self.need(',')
            self.type(); z = self.value(a1); self.need(')')
            return ('e', 'select', a0, x, y, z)
        if t == 'asm':
            return ('asm',)
        raise IRError('value? %r : %r in %r' % (t, ty, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))

    def vallist(self, end):
        vals = []
        while not self.eat(end):
            ty = self.type()
            vals.append(self.value(ty))
            self.eat(',')
        if all(v[0] == 'c' for v in vals):
            return ('c', [v[1] for v in vals])
        return ('agg', vals)

    def skip_attrs(self):
        """skip parameter/return attributes; returns byval type if present"""
        byval = None
        while True:
            t = self.peek()
            if t is None:
                return byval
            if t in PARAM_ATTRS:
                self.next()
                if t == 'align' and self.peek() and self.peek().isdigit():
                    self.next()
                elif self.peek() == '(':
                    self.next()
                    if t == 'byval':
                        byval = self.type()
                        self.need(')')
                        continue
                    depth = 1
                    while depth:
                        x = self.next()
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
            elif t[0] == '"':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return byval


def zero_of(ty, mod):
    k = ty[0]
    if k in 'ifp':
        return 0
    if k in 'va':
        z = zero_of(ty[2], mod)
        if isinstance(z, list):
            return [zero_of(ty[2], mod) for _ in range(ty[1])]
        return [z] * ty[1]
    if k == 's':
        return [zero_of(e, mod) for e in ty[1]]
    if k == 'n':
        return zero_of(mod.resolve(ty), mod)
    raise IRError('zero of %r' % (ty,))


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'mod', 'ipdom', 'order', 'attrs')


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.globals = {}      # name -> (type, init token text or None, align, const)
        self.defs = {}         # name -> (start,end) line idx
        self.decls = {}        # name -> decl line
        self.aliases = {}
        self._funcs = {}
        self._size = {}
        self.attrgroups = {}
        self.lines = lines = text.split('\n')
        i = 0
        n = len(lines)
        nameRe = re.compile(r'@("[^"]*"|[\w.$-]+)\(')
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                nm = unquote('@' + nameRe.search(l).group(1))
                j = i
                while lines[j] != '}':
                    j += 1
                self.defs[nm] = (i, j)
                i = j
            elif l.startswith('declare '):
                nm = unquote('@' + nameRe.search(l).group(1))
                self.decls[nm] = l
            elif l.startswith('%'):
                k = l.index(' = type ')
                self.types[unquote(l[:k])] = l[k + 8:]
            elif l.startswith('@'):
                k = l.index(' = ')
                self.globals[unquote(l[:k])] = l[k + 3:]
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrgroups[m.group(1)] = m.group(2)
            i += 1

    def resolve(self, ty):
        while ty[0] == 'n':
            d = self.types[ty[1]]
            if isinstance(d, str):
                d = d.strip()
                d = ('opaque',) if d == 'opaque' else P(tokenize(d), self).type()
                self.types[ty[1]] = d
            ty = d
        return ty

    def size_align(self, ty):
        r = self._size.get(ty)
        if r is not None:
            return r
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            r = (p, min(p, 8)) if ty[1] != 128 else (16, 8)
        elif k == 'f':
            r = (ty[1] // 8, ty[1] // 8)
        elif k == 'p':
            r = (8, 8)
        elif k == 'a':
            s, a = self.size_align(ty[2])
            r = (s * ty[1], a)
        elif k == 'v':
            if ty[2] == I1:
                s = (ty[1] + 7) // 8
            else:
                s = self.size_align(ty[2])[0] * ty[1]
            p = 1
            while p < s:
                p *= 2
            r = (p, p)
        elif k == 's':
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == 'n':
            r = self.size_align(self.resolve(ty))
        else:
            raise IRError('size of %r' % (ty,))
        self._size[ty] = r
        return r

    def field_off(self, ty, idx):
        off = 0
        for i, e in enumerate(ty[1]):
            s, a = self.size_align(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off
            off += s
        raise IRError('field')

    def func(self, name):
        f = self._funcs.get(name)
        if f is None and name in self.defs:
            f = self._funcs[name] = self._parse_func(name)
        return f

    def decl_attrs(self, name):
        l = self.decls.get(name)
        if l is None:
            return ''
        out = ''
        for g in re.findall(r'#\d+', l):
            out += self.attrgroups.get(g, '')
        return out + l

    def global_def(self, name):
        """-> (type, init operand or None, align)"""
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, str):
            p = P(tokenize(g), self)
            ext = False
            while p.peek() in ('private', 'internal', 'external', 'unnamed_addr', 'local_unnamed_addr', 'global',
                               'constant', 'linkonce_odr', 'weak', 'hidden', 'dso_local', 'thread_local',
                               'extern_weak', 'appending', 'common', 'linkonce', 'weak_odr'):
                t = p.next()
                if t in ('external', 'extern_weak'):
                    ext = True
                if t == 'thread_local' and p.peek() == '(':
                    p.next(); p.next(); p.need(')')
            ty = p.type()
            init = None
            if not ext:
                init = p.value(ty)
            al = 1
            if 'align' in p.t[p.i:]:
                al = int(p.t[p.t.index('align', p.i) + 1])
            g = self.globals[name] = (ty, init, al)
        return g

    def _parse_func(self, name):
        s, e = self.defs[name]
        f = Function()
        f.mod = self
        f.name = name
        f.attrs = ''
        for g in re.findall(r'#\d+', self.lines[s]):
            f.attrs += self.attrgroups.get(g, '')
        hdr = tokenize(self.lines[s])
        p = P(hdr, self)
        p.need('define')
        while True:
            t = p.peek()
            if t in ('internal', 'private', 'hidden', 'dso_local', 'unnamed_addr', 'linkonce_odr', 'weak',
                     'external', 'local_unnamed_addr', 'protected', 'weak_odr', 'linkonce') or t in CCS:
                p.next()
            elif t in PARAM_ATTRS:
                p.skip_attrs()
            else:
                break
        f.ret = p.type()
        p.next()
        p.need('(')
        f.params = []
        nameless = 0
        while not p.eat(')'):
            if p.eat('...'):
                continue
            ty = p.type()
            byval = p.skip_attrs()
            if p.peek()[0] == '%':
                nm = unquote(p.next())
            else:
                nm = str(nameless)
                nameless += 1
            f.params.append((nm, ty, byval))
            p.eat(',')
        f.blocks = {}
        f.order = []
        cur = None
        lines = self.lines
        i = s + 1
        first = True
        while i < e:
            l = lines[i]
            if not l or l.startswith(';'):
                i += 1
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                lab = unquote('%' + m.group(1))
                cur = []
                f.blocks[lab] = cur
                f.order.append(lab)
                if first:
                    f.entry = lab
                    first = False
                i += 1
                continue
            if first:
                lab = str(nameless)
                f.entry = lab
                cur = f.blocks[lab] = []
                f.order.append(lab)
                first = False
            txt = l
            # multi-line: switch [ ... ], invoke ... to, landingpad clauses
            st = l.lstrip()
            if st.startswith('switch ') and not l.rstrip().endswith(']'):
                while not lines[i].strip().startswith(']'):
                    i += 1
                    txt += ' ' + lines[i]
            else:
                while i + 1 < e and lines[i + 1].startswith('          '):
                    i += 1
                    txt += ' ' + lines[i]
            cur.append(self._parse_instr(txt))
            i += 1
        f.ipdom = None
        return f

    def _parse_instr(self, txt):
        toks = tokenize(txt)
        p = P(toks, self)
        dest = None
        if toks[0][0] == '%' and toks[1] == '=':
            dest = unquote(toks[0])
            p.i = 2
        op = p.next()
        while op in CCS:
            op = p.next()
        if op in BINOPS:
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
            return ('bin', dest, op, ty, a, b, fl)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            a = p.type(); v = p.value(a); p.need('to'); b = p.type()
            return ('cast', dest, op, a, v, b)
        if op == 'load':
            if p.peek() in ('volatile', 'atomic'):
                p.next()
            p.eat('volatile')
            ty = p.type(); p.need(','); p.type(); a = p.value(PTR)
            return ('load', dest, ty, a, self._align(p))
        if op == 'store':
            if p.peek() in ('volatile', 'atomic'):
                p.next()
            p.eat('volatile')
            ty = p.type(); v = p.value(ty); p.need(','); p.type(); a = p.value(PTR)
            return ('store', None, ty, v, a, self._align(p))
        if op == 'getelementptr':
            while p.peek() in FLAGS or p.peek() == 'nusw':
                p.next()
            sty = p.type(); p.need(',')
            args = []
            while True:
                aty = p.type()
                args.append((aty, p.value(aty)))
                if not p.eat(','):
                    break
                if p.peek() and p.peek()[0] == '!':
                    break
            return ('gep', dest, sty, args)
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.type()
            cnt = ('c', 1)
            al = None
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                elif p.peek()[0] == '!':
                    break
                else:
                    cty = p.type()
                    cnt = p.value(cty)
            return ('alloca', dest, ty, cnt, al)
        if op == 'br':
            if p.eat('label'):
                return ('br', None, unquote(p.next()))
            p.type(); c = p.value(I1); p.need(','); p.need('label'); a = unquote(p.next()); p.need(',')
            p.need('label'); b = unquote(p.next())
            return ('cbr', None, c, a, b)
        if op == 'switch':
            ty = p.type(); v = p.value(ty); p.need(','); p.need('label'); d = unquote(p.next()); p.need('[')
            cases = []
            while not p.eat(']'):
                p.type(); cv = p.value(ty)[1]; p.need(','); p.need('label'); cases.append((cv, unquote(p.next())))
            return ('switch', None, ty, v, d, cases)
        if op == 'ret':
            if p.peek() == 'void':
                return ('ret', None, VOID, None)
            ty = p.type()
            return ('ret', None, ty, p.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'resume':
            return ('resume', None)
        if op == 'phi':
            while p.peek() in FLAGS:
                p.next()
            ty = p.type()
            inc = {}
            while True:
                p.need('['); v = p.value(ty); p.need(','); b = unquote(p.next()); p.need(']')
                inc[b] = v
                if not p.eat(','):
                    break
                if p.peek()[0] == '!':
                    break
            return ('phi', dest, ty, inc)
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
            return (op, dest, pred, ty, a, b)
        if op == 'select':
            while p.peek() in FLAGS:
                p.next()
            ct = p.type(); c = p.value(ct); p.need(','); t = p.type(); a = p.value(t); p.need(',')
            p.type(); b = p.value(t)
            return ('select', dest, ct, c, t, a, b)
        if op == 'fneg':
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); a = p.value(t)
            return ('fneg', dest, t, a)
        if op == 'freeze':
            t = p.type(); a = p.value(t)
            return ('freeze', dest, t, a)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t)
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return ('extractvalue', dest, t, a, idx)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.need(','); vt = p.type(); v = p.value(vt)
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return ('insertvalue', dest, t, a, vt, v, idx)
        if op == 'extractelement':
            t = p.type(); a = p.value(t); p.need(','); it = p.type(); i = p.value(it)
            return ('extractelement', dest, t, a, it, i)
        if op == 'insertelement':
            t = p.type(); a = p.value(t); p.need(','); vt = p.type(); v = p.value(vt); p.need(',')
            it = p.type(); i = p.value(it)
            return ('insertelement', dest, t, a, v, it, i)
        if op == 'shufflevector':
            t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); b = p.value(t2); p.need(',')
            mt = p.type(); m = p.value(mt)
            return ('shufflevector', dest, t, a, b, mt, m)
        if op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in CCS:
                p.next()
            p.skip_attrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            callee = p.value(PTR)
            if callee[0] == 'asm':
                return ('unsupported', dest, txt)
            p.need('(')
            args = []
            while not p.eat(')'):
                t = p.type()
                byval = p.skip_attrs()
                if t == ('metadata',):
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        depth += x in '([{'
                        depth -= x in ')]}'
                    p.eat(',')
                    continue
                args.append((t, p.value(t), byval))
                p.eat(',')
            nr = False
            normal = None
            unwind = None
            while p.peek() is not None:
                x = p.next()
                if x == 'to':
                    p.need('label'); normal = unquote(p.next())
                    p.need('unwind'); p.need('label'); unwind = unquote(p.next())
                elif x[0] == '#':
                    nr = nr or 'noreturn' in self.attrgroups.get(x, '')
            return ('call', dest, rt, callee, args, normal, unwind, nr)
        if op == 'landingpad':
            return ('landingpad', dest)
        if op == 'fence':
            return ('nop', None)
        if op in ('cmpxchg', 'atomicrmw', 'va_arg', 'indirectbr', 'callbr', 'cleanupret'):
            return ('unsupported', dest, txt)
        raise IRError('instr? %s' % txt)

    def _align(self, p):
        al = 1
        while p.peek() is not None:
            x = p.next()
            if x == 'align':
                return int(p.next())
        return al


def terminators(ins):
    k = ins[0]
    if k == 'br':
        return [ins[2]]
    if k == 'cbr':
        return [ins[3], ins[4]]
    if k == 'switch':
        return [ins[4]] + [c[1] for c in ins[5]]
    if k == 'call' and ins[5] is not None:
        return [ins[5]]        # unwind edges are never taken (panics end the path)
    return []


def compute_ipdom(f):
    """Immediate post-dominators w.r.t. blocks that reach a 'ret'. Returns dict block->block or None
    (None: only the virtual exit post-dominates). Blocks that cannot reach a ret map to themselves."""
    succ = {}
    for b, ins in f.blocks.items():
        t = ins[-1]
        succ[b] = terminators(t)
        if t[0] == 'call' and t[5] is None:
            succ[b] = []
    exits = [b for b, ins in f.blocks.items() if ins[-1][0] == 'ret']
    pred = {b: [] for b in f.blocks}
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    reach = set(exits)
    wl = list(exits)
    while wl:
        b = wl.pop()
        for q in pred[b]:
            if q not in reach:
                reach.add(q)
                wl.append(q)
    # reverse postorder on the reverse graph from virtual exit
    order = []
    seen = set()
    EXIT = object()

    def rsucc(b):
        return exits if b is EXIT else [q for q in pred[b] if q in reach]
    stack = [(EXIT, iter(rsucc(EXIT)))]
    seen.add(EXIT)
    while stack:
        b, it = stack[-1]
        for q in it:
            if q not in seen:
                seen.add(q)
                stack.append((q, iter(rsucc(q))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {EXIT: EXIT}

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            ss = [s for s in succ[b] if s in reach]
            if b in exits:
                ss = ss + [EXIT]
            new = None
            for s in ss:
                if s in idom:
                    new = s if new is None else inter(s, new)
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return {b: (None if (b not in idom or idom[b] is EXIT) else idom[b]) for b in f.blocks}
