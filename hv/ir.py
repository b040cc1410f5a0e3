"""Textual LLVM IR (LLVM 18, opaque pointers) reader.

Only what the verifier executes is decoded; a function body is decoded the first
time it is entered.  Everything that is not understood raises Unsupported, which
the driver turns into "undecided", never into a pass.
"""
import re
import struct
from fractions import Fraction


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   c"(?:[^"])*"            | # c-string
   [%@!$]?"(?:[^"])*"      | # quoted
   [%@][-\w.$]+            |
   ![-\w.$]*               |
   \#\d+                   |
   0x[KLMHR]?[0-9A-Fa-f]+  |
   -?\d+\.\d*(?:e[+-]?\d+)? |
   -?\d+                   |
   [A-Za-z_$][\w.$]*       |
   \.\.\.                  |
   [()\[\]{}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---------------------------------------------------------------- types
VOID = ('void',)
PTR = ('ptr',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
DBL = ('f', 64)
FLT = ('f', 32)

ATTR_WORDS = {
    'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
    'signext', 'zeroext', 'inreg', 'returned', 'nofree', 'nest', 'immarg', 'swiftself',
    'swifterror', 'writable', 'dead_on_unwind', 'allocptr', 'allocalign', 'noext'}
ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align',
              'byref', 'inalloca', 'preallocated', 'elementtype', 'range', 'nofpclass',
              'captures', 'initializes'}


class Glob:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '@' + self.name


class CGep:
    """constant expression over globals"""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


class Zero:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class UndefC:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class FConst:
    """floating literal; payload is the python float"""
    __slots__ = ('v', 'bits')

    def __init__(self, v, bits=64):
        self.v = v
        self.bits = bits


class Null:
    pass


NULL = Null()


def parse_float(tok, ty):
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            if tok[2] == 'K':  # x86 80 bit
                h = tok[3:].rjust(20, '0')
                se = int(h[:4], 16)
                man = int(h[4:], 16)
                sign = -1.0 if se & 0x8000 else 1.0
                e = se & 0x7fff
                if e == 0x7fff:
                    return FConst(float('inf') * sign if (man & (2**63 - 1)) == 0 else float('nan'))
                if man == 0:
                    return FConst(0.0)
                fr = Fraction(man) * (Fraction(2) ** (e - 16383 - 63))
                try:
                    return FConst(sign * float(fr))
                except OverflowError:
                    return FConst(sign * float('inf'))
            raise Unsupported('float literal ' + tok)
        v = struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
        return FConst(v)
    return FConst(float(tok))


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}   # name -> source line
        self.func_src = {}  # name -> (header, [lines])
        self.decl = set()
        self.aliases = {}
        self.funcs = {}
        self.md = {}
        self.size_cache = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == 'd' and ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                name = m.group(1).strip('"')
                self.func_src[name] = (ln, lines[i + 1:j])
                i = j + 1
                continue
            if c == '%':
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', ln)
                if m:
                    self.type_src[m.group(1).strip('"')] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    if re.search(r'\balias\b', m.group(2).split('"')[0]) and ' alias ' in ' ' + m.group(2):
                        am = re.search(r', ptr @("[^"]*"|[-\w.$]+)', m.group(2))
                        if am:
                            self.aliases[nm] = am.group(1).strip('"')
                    self.globals[nm] = m.group(2)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
            i += 1

    # ------------------------------------------------------------ debug info
    def loc(self, mdid):
        """'file:line' of a !dbg id (innermost inlined position)."""
        s = self.md.get(mdid)
        if not s or 'DILocation' not in s:
            return '?'
        line = re.search(r'line: (\d+)', s)
        f = self._scope_file(re.search(r'scope: !(\d+)', s))
        return '%s:%s' % (f, line.group(1) if line else '?')

    def func_file(self, name):
        """source file in which a function is defined"""
        hdr = self.func_src.get(name, ('',))[0]
        return self._scope_file(re.search(r'!dbg !(\d+)', hdr))

    def _scope_file(self, m):
        seen = 0
        while m and seen < 50:
            seen += 1
            s = self.md.get(m.group(1), '')
            fm = re.search(r'file: !(\d+)', s)
            if fm:
                fs = self.md.get(fm.group(1), '')
                nm = re.search(r'filename: "([^"]*)"', fs)
                if nm:
                    return nm.group(1)
            m = re.search(r'scope: !(\d+)', s)
        return '?'

    # ------------------------------------------------------------ types
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            src = self.type_src.get(name)
            if src is None or src == 'opaque':
                t = ('opaque', name)
            else:
                p = P(self, tokenize(src))
                t = p.type()
            self.types[name] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def sizealign(self, t):
        r = self.size_cache.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == 'i':
            w = t[1]
            b = (w + 7) // 8
            p = 1
            while p < b:
                p *= 2
            r = (p, min(p, 16))
        elif k == 'f':
            r = {32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16), 16: (2, 2)}[t[1]]
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'arr':
            s, a = self.sizealign(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.sizealign(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'named':
            r = self.sizealign(self.named(t[1]))
        elif k == 'st':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.sizealign(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == 'opaque':
            r = (1, 1)
        else:
            raise Unsupported('sizeof %r' % (t,))
        self.size_cache[t] = r
        return r

    def sizeof(self, t):
        return self.sizealign(t)[0]

    def field_off(self, t, idx):
        t = self.resolve(t)
        off = 0
        for i, e in enumerate(t[1]):
            s, a = self.sizealign(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, e
            off += s
        raise Unsupported('field')

    # ------------------------------------------------------------ functions
    def has(self, name):
        return name in self.func_src

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            hdr, lines = self.func_src[name]
            f = Function(self, name, hdr, lines)
            self.funcs[name] = f
        return f


class P:
    """recursive-descent parser over a token list"""
    __slots__ = ('m', 't', 'i')

    def __init__(self, m, toks):
        self.m = m
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise Unsupported('expected %r at %r' % (x, self.t[self.i:self.i + 6]))

    def skip_paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        if x == 'void':
            t = VOID
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
        elif x == 'double':
            t = DBL
        elif x == 'float':
            t = FLT
        elif x == 'x86_fp80':
            t = ('f', 80)
        elif x == 'half':
            t = ('f', 16)
        elif x == 'fp128':
            t = ('f', 128)
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x[0] == '%':
            t = ('named', x[1:].strip('"'))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                el = []
                if not self.accept('}'):
                    el.append(self.type())
                    while self.accept(','):
                        el.append(self.type())
                    self.expect('}')
                self.expect('>')
                t = ('st', tuple(el), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            el = []
            if not self.accept('}'):
                el.append(self.type())
                while self.accept(','):
                    el.append(self.type())
                self.expect('}')
            t = ('st', tuple(el), False)
        elif x in ('metadata', 'token', 'label'):
            t = (x,)
        else:
            raise Unsupported('type token %r' % x)
        # function type
        while self.peek() == '(':
            save = self.i
            self.skip_paren()
            t = ('fn', t)
        return t

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTR_WORDS:
                self.next()
            elif x in ATTR_PAREN:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                elif x == 'align':
                    self.next()
            else:
                return

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return x[1:].strip('"') if x[1] != '"' else x[2:-1]
        if c == '@':
            return Glob(x[1:].strip('"'))
        if c == '!':
            return None
        k = ty[0]
        if x == 'null':
            return NULL
        if x in ('undef', 'poison'):
            return UndefC(ty)
        if x == 'zeroinitializer':
            return Zero(ty)
        if x == 'none':
            return Zero(ty)
        if k == 'i':
            if x == 'true':
                return 1
            if x == 'false':
                return 0
            if c.isdigit() or c == '-':
                return int(x) & ((1 << ty[1]) - 1)
        if k == 'f' and (c.isdigit() or c == '-'):
            return parse_float(x, ty)
        if c == 'c' and x[1:2] == '"':
            s = x[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]) & 255)
                    i += 1
            return Agg([(I8, b) for b in out])
        if x in '[{' or x == '<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            else:
                packed = False
            vals = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    vals.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(close)
            if packed:
                self.expect('>')
            return Agg(vals)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if self.next() == 'inrange' and self.peek() == '(':
                    self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(':
                        self.skip_paren()
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.accept(','):
                    break
            self.expect(')')
            return CGep('gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return CGep(x, t, v, t2)
        if x in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return CGep(x, t, a, b)
        if x == 'blockaddress' or x == 'dso_local_equivalent' or x == 'no_cfi':
            raise Unsupported(x)
        raise Unsupported('value token %r of %r' % (x, ty))


DBG = re.compile(r', !dbg !(\d+)')
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
          'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}


class Instr:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'text')

    def __init__(self, op, dst, a, dbg, text):
        self.op = op
        self.dst = dst
        self.a = a
        self.dbg = dbg
        self.text = text


class Function:
    def __init__(self, m, name, hdr, lines):
        self.m = m
        self.name = name
        # parameters
        k = hdr.index('(', hdr.index('@'))
        if '@"' in hdr:
            q = hdr.index('@"')
            k = hdr.index('(', hdr.index('"', q + 2))
        p = P(m, tokenize(hdr[k:]))
        p.expect('(')
        self.params = []
        self.byval = []
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    t = p.type()
                    p.attrs()
                    x = p.peek()
                    if x and x[0] == '%':
                        p.next()
                        nm = x[1:].strip('"')
                    else:
                        nm = str(len(self.params))
                    self.params.append((t, nm))
                if not p.accept(','):
                    break
        self.blocks = {}
        self.entry = None
        self._decode(lines)

    def _decode(self, lines):
        cur = None
        curname = None
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln.strip():
                continue
            if ln[0] not in ' \t':
                m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
                curname = m.group(1).strip('"')
                cur = []
                self.blocks[curname] = cur
                if self.entry is None:
                    self.entry = curname
                continue
            if cur is None:
                # entry block with implicit label: number after params
                curname = '__entry'
                cur = []
                self.blocks[curname] = cur
                self.entry = curname
            s = ln.strip()
            if s.startswith(('switch', 'indirectbr')) or ' switch ' in s[:10]:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' invoke ' in ' ' + s[:60] and (s.startswith('invoke') or re.match(r'%\S+ = invoke', s)):
                s += ' ' + lines[i].strip()
                i += 1
            elif 'landingpad' in s[:60]:
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            cur.append(s)
        # decode lazily per block
        self.decoded = {}

    def block(self, name):
        b = self.decoded.get(name)
        if b is None:
            b = [self._instr(s) for s in self.blocks[name]]
            self.decoded[name] = b
        return b

    def _instr(self, s):
        dbg = None
        m = DBG.search(s)
        if m:
            dbg = m.group(1)
            s2 = s[:m.start()]
            rest = s[m.end():]
            # landingpad clauses / invoke labels come after !dbg? keep both sides
            s2 = s2 + ' ' + re.sub(r', ![\w.]+ !\d+', '', rest)
        else:
            s2 = s
        s2 = re.sub(r', !(?!dbg)[\w.]+ !\d+', '', s2)
        k = s2.find(' ;')
        if k >= 0 and '"' not in s2[k:]:
            s2 = s2[:k]
        toks = tokenize(s2)
        dst = None
        if len(toks) > 1 and toks[1] == '=':
            dst = toks[0][1:].strip('"')
            toks = toks[2:]
        p = P(self.m, toks)
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        a = None
        if op in BINOPS:
            while p.peek() in FMF or p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t = p.type()
            x = p.value(t)
            p.expect(',')
            y = p.value(t)
            a = (t, x, y)
        elif op == 'fneg':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            a = (t, p.value(t))
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FMF:
                p.next()
            pred = p.next()
            t = p.type()
            x = p.value(t)
            p.expect(',')
            y = p.value(t)
            a = (pred, t, x, y)
        elif op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF:
                p.next()
            t = p.type()
            x = p.value(t)
            p.expect('to')
            a = (t, x, p.type())
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = (t, p.value(pt))
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            a = (t, v, p.value(pt))
        elif op == 'alloca':
            if p.peek() == 'inalloca':
                p.next()
            t = p.type()
            cnt = 1
            if p.accept(','):
                if p.peek() not in ('align', 'addrspace'):
                    ct = p.type()
                    cnt = p.value(ct)
            a = (t, cnt)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.accept(','):
                t = p.type()
                idx.append((t, p.value(t)))
            a = (bt, base, idx)
        elif op == 'phi':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()
                inc[b[1:].strip('"')] = v
                p.expect(']')
                if not p.accept(','):
                    break
            a = (t, inc)
        elif op == 'select':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t1 = p.type()
            x = p.value(t1)
            p.expect(',')
            t2 = p.type()
            y = p.value(t2)
            a = (t, c, t1, x, y)
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                a = (p.next()[1:].strip('"'),)
            else:
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                x = p.next()[1:].strip('"')
                p.expect(',')
                p.expect('label')
                y = p.next()[1:].strip('"')
                a = (c, x, y)
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()[1:].strip('"')))
            a = (t, v, d, cases)
        elif op == 'ret':
            if p.peek() == 'void':
                a = (VOID, None)
            else:
                t = p.type()
                a = (t, p.value(t))
        elif op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            if p.peek() == 'asm':
                a = (rt, 'ASM', [], None, None)
            else:
                callee = p.value(PTR)
                p.expect('(')
                args = []
                if not p.accept(')'):
                    while True:
                        t = p.type()
                        if t[0] == 'metadata':
                            # skip the metadata operand
                            d = 0
                            while True:
                                x = p.peek()
                                if d == 0 and x in (',', ')'):
                                    break
                                if x == '(':
                                    d += 1
                                elif x == ')':
                                    d -= 1
                                p.next()
                            args.append((t, None))
                        else:
                            byval = None
                            while True:
                                if p.peek() == 'byval':
                                    p.next()
                                    p.expect('(')
                                    byval = p.type()
                                    p.expect(')')
                                    continue
                                if p.peek() in ATTR_WORDS:
                                    p.next()
                                elif p.peek() in ATTR_PAREN and p.peek() != 'byval':
                                    w = p.next()
                                    if p.peek() == '(':
                                        p.skip_paren()
                                    elif w == 'align':
                                        p.next()
                                else:
                                    break
                            v = p.value(t)
                            args.append((t, v) if byval is None else (t, v, byval))
                        if not p.accept(','):
                            break
                    p.expect(')')
                if op == 'invoke':
                    while p.peek() != 'to':
                        p.next()
                    p.next()
                    p.expect('label')
                    nl = p.next()[1:].strip('"')
                    p.expect('unwind')
                    p.expect('label')
                    ul = p.next()[1:].strip('"')
                    a = (rt, callee, args, nl, ul)
                else:
                    a = (rt, callee, args, None, None)
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            a = (t, v, idx)
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            a = (t, v, t2, e, idx)
        elif op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup':
                    cleanup = True
                elif x == 'catch':
                    ct = p.type()
                    clauses.append(('catch', p.value(ct)))
                elif x == 'filter':
                    ct = p.type()
                    clauses.append(('filter', p.value(ct)))
            a = (t, cleanup, clauses)
        elif op == 'resume':
            t = p.type()
            a = (t, p.value(t))
        elif op == 'unreachable':
            a = ()
        elif op == 'freeze':
            t = p.type()
            a = (t, p.value(t))
        elif op in ('extractelement', 'insertelement', 'shufflevector'):
            t = p.type()
            ops = [(t, p.value(t))]
            while p.accept(','):
                t = p.type()
                ops.append((t, p.value(t)))
            a = ops
        elif op in ('fence',):
            a = ()
        elif op == 'atomicrmw':
            p.accept('volatile')
            k = p.next()
            pt = p.type()
            ptr = p.value(pt)
            p.expect(',')
            t = p.type()
            a = (k, ptr, t, p.value(t))
        elif op == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'):
                p.next()
            pt = p.type()
            ptr = p.value(pt)
            p.expect(',')
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t = p.type()
            a = (ptr, t, c, p.value(t))
        else:
            a = None
            return Instr('unsupported:' + op, dst, None, dbg, s)
        return Instr(op, dst, a, dbg, s)
