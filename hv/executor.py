import os
"""Symbolic executor over LLVM IR: generates the proof obligations of a spec."""
import struct
import sys
from fractions import Fraction
import time
import ir
from ir import Glob, CGep, Agg, Zero, UndefC, FConst, NULL, Unsupported, PTR, I1, I8, I32, I64, DBL
import expr as X
from expr import E, R
import smt

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Part:
    # an integer some bits of which are not initialised (bit fields)
    __slots__ = ('um', 'val')

    def __init__(self, um, val):
        self.um = um
        self.val = val & ~um

    @staticmethod
    def of(um, val):
        return Part(um, val) if um else val



class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULLP = Ptr(0, 0)


class PInt:
    """pointer converted to an integer (plus an offset already inside the Ptr)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FBits:
    """bit pattern of a symbolic double, only ever moved around"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class Packed:
    """several cells read at once as one integer; only moved around or taken apart again"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts  # ((byte offset, size, value), ...)

    def shifted(self, nbytes):
        r = tuple((o - nbytes, s, v) for o, s, v in self.parts if o >= nbytes)
        if any(o < nbytes < o + s for o, s, v in self.parts):
            raise Unsupported('shift inside a packed cell')
        return Packed(r)

    def low(self, nbytes):
        """the value of the lowest bytes"""
        for o, s, v in self.parts:
            if o == 0 and s == nbytes:
                return v
        r = tuple(q for q in self.parts if q[0] < nbytes)
        if r and all(q[1] == 1 for q in r):
            if all(q[2] is UNDEF for q in r):
                return UNDEF
            if len(r) == nbytes and all(q[2].__class__ is int for q in r):
                return sum(v << (8 * o) for o, _, v in r)
        if any(o + s > nbytes for o, s, v in r):
            raise Unsupported('part of a packed cell')
        if not r:
            return 0
        return Packed(r)


class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'name', 'alive', 'fill', 'const', 'sym', 'writes')

    def __init__(self, id, size, kind, name):
        self.id = id
        self.size = size
        self.cells = {}
        self.kind = kind
        self.name = name
        self.alive = True
        self.fill = None
        self.const = False
        self.sym = None      # symbolic array: (element size, function name)
        self.writes = None

    def copy(self):
        o = Obj(self.id, self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.fill = self.fill
        o.const = self.const
        o.sym = self.sym
        o.writes = self.writes
        return o


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'code', 'idx', 'regs', 'dst', 'inv', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.code = fn.block(fn.entry)
        self.idx = 0
        self.regs = {}
        self.dst = None
        self.inv = None
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.block = self.block
        f.prev = self.prev
        f.code = self.code
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.dst = self.dst
        f.inv = self.inv
        f.allocas = list(self.allocas)
        return f


def flag(e):
    """the condition under which an integer that is zero or one is one"""
    if e.__class__ is int:
        return bool(e) if e in (0, 1) else None
    if e.op == 'ite' and e.a[1].__class__ is int and e.a[2].__class__ is int and e.a[1] in (0, 1) and e.a[2] in (0, 1):
        c, t, f = e.a
        return (True if t else False) if t == f else c if t else X.bnot(c)
    if e.op == 'ite':
        t, f = flag(X.unI(e.a[1])), flag(X.unI(e.a[2]))
        if t is not None and f is not None:
            c = e.a[0]
            return X.bor(X.band(c, t), X.band(X.bnot(c), f))
    return None


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.frames = []
        self.pc = []
        self.globs = {}
        self.nextobj = 1
        self.draws = 0
        self.inputs = []
        self.exc = None
        self.caught = []
        self.steps = 0
        self.done = None
        self.covers = []
        self.trace = []

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.globs = dict(self.globs)
        s.nextobj = self.nextobj
        s.draws = self.draws
        s.inputs = list(self.inputs)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.steps = self.steps
        s.covers = list(self.covers)
        s.trace = list(self.trace)
        return s


class PathEnd(Exception):
    pass


class Fork(Exception):
    """alternatives: list of (condition, callback(state) or None)"""

    def __init__(self, alts):
        self.alts = alts


class Obligation:
    __slots__ = ('label', 'kind', 'pc', 'a', 'b', 'loc', 'inputs', 'extra')

    def __init__(self, label, kind, pc, a, b, loc, inputs):
        self.label = label
        self.kind = kind
        self.pc = pc
        self.a = a
        self.b = b
        self.loc = loc
        self.inputs = inputs
        self.extra = None


MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}


def mask(w):
    m = MASK.get(w)
    if m is None:
        m = (1 << w) - 1
        MASK[w] = m
    return m


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


class Exec:
    def __init__(self, module, max_steps=3000000, max_paths=4000, deadline=None, opts=None):
        self.m = module
        self.obls = []
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.paths = 0
        self.covers = {}
        self.functions = set()
        self.lines = set() if os.environ.get('HV_LINES') else None
        self.externals = {}
        self.assumed = set()
        self.errors = []
        self.opts = opts or {}
        self.divs = 0
        import builtin_models
        self.bm = builtin_models
        self.models = builtin_models.TABLE

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name):
        i = st.nextobj
        st.nextobj += 1
        o = Obj(i, size, kind, name)
        st.mem[i] = o
        st.owned.add(i)
        return Ptr(i, 0)

    def wobj(self, st, i):
        o = st.mem[i]
        if i not in st.owned:
            o = o.copy()
            st.mem[i] = o
            st.owned.add(i)
        return o

    def obj(self, st, p, size, what):
        if p.__class__ is not Ptr:
            if p is UNDEF:
                self.fail(st, 'memory-safety', 'use of an uninitialised pointer (%s)' % what)
            raise Unsupported('deref of %r' % (p,))
        if p.obj == 0:
            self.fail(st, 'memory-safety', 'null pointer %s' % what)
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('unknown object')
        if not o.alive:
            self.fail(st, 'memory-safety', '%s after free/scope end of %s' % (what, o.name))
        if p.off.__class__ is int and o.size is not None and o.size.__class__ is int:
            if p.off < 0 or p.off + size > o.size:
                self.fail(st, 'memory-safety', '%s out of bounds of %s (offset %d size %d object size %d)'
                          % (what, o.name, p.off, size, o.size))
        return o

    def stack(self, st):
        import os
        if os.environ.get('HV_STACK'):
            import sys
            import builtin_models as BM
            for f in reversed(st.frames):
                ins = f.code[f.idx - 1] if f.idx > 0 else None
                sys.stderr.write('    at %s %s\n' % (BM.demangle(f.fn.name)[:150], self.m.loc(ins.dbg) if ins is not None and ins.dbg else '?'))

    def fail(self, st, label, msg):
        """a definite violation on the current path (if the path is feasible)"""
        self.stack(st)
        ob = Obligation(label + ': ' + msg, 'false', list(st.pc), False, None, self.curloc(st), list(st.inputs))
        self.obls.append(ob)
        raise PathEnd()

    def curloc(self, st):
        for f in reversed(st.frames):
            if f.idx > 0:
                ins = f.code[f.idx - 1]
                if ins.dbg:
                    return self.m.loc(ins.dbg)
        return '?'

    def load(self, st, ty, p):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k in ('st', 'arr', 'vec'):
            if k == 'st':
                out = []
                for i, t in enumerate(ty[1]):
                    off, _ = self.m.field_off(ty, i)
                    out.append(self.load(st, t, self.padd(p, off)))
                return out
            s = self.m.sizeof(ty[2])
            return [self.load(st, ty[2], self.padd(p, i * s)) for i in range(ty[1])]
        size = self.m.sizeof(ty)
        if p.__class__ is Ptr and p.off.__class__ is not int:
            p = self.symoff(st, p, size)
            if p.__class__ is not Ptr:
                return self.symload(st, p, ty)
        o = self.obj(st, p, size, 'read')
        if o.sym is not None:
            return self.symarr_load(st, o, p.off, ty)
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            return self.conv(c[1], ty, st)
        return self.conv(self.load_slow(st, o, p.off, size, ty), ty, st)

    def load_byte(self, st, o, off):
        c = o.cells.get(off)
        v = c[1] if c is not None and c[0] == 1 else self.load_slow(st, o, off, 1, ('i', 8))
        return int(v) if v.__class__ is bool else v

    def load_slow(self, st, o, off, size, ty):
        # gather bytes
        cells = o.cells
        out = []
        b = off
        end = off + size
        # wholly inside a larger cell
        for d in range(0, 17):
            c = cells.get(off - d)
            if c is not None:
                if c[0] >= d + size:
                    v = c[1]
                    if v.__class__ is int or v.__class__ is bool:
                        return (int(v) >> (8 * d)) & ((1 << (8 * size)) - 1)
                    if v is UNDEF:
                        return UNDEF
                    if v.__class__ is E and v.op == 'c' and v.sort == 'R':
                        bits = struct.unpack('<Q', struct.pack('<d', float(v.a[0])))[0] if c[0] == 8 else None
                        if bits is not None:
                            return (bits >> (8 * d)) & ((1 << (8 * size)) - 1)
                    if d == 0 and v.__class__ is E and v.sort == 'I':
                        iv = X.interval(v)
                        if iv[0] is not None and iv[0] >= 0 and iv[1] is not None and iv[1] < (1 << (8 * size - 1)):
                            return v
                    raise Unsupported('partial read of a symbolic cell in %s' % o.name)
                break
        val = 0
        undef = False
        while b < end:
            c = cells.get(b)
            if c is not None and b + c[0] <= end:
                v = c[1]
                if v.__class__ is bool:
                    v = int(v)
                if v.__class__ is Ptr and v.obj == 0 and v.off == 0:
                    v = 0
                if v.__class__ is int:
                    val |= v << (8 * (b - off))
                elif v is UNDEF:
                    undef = True
                elif v.__class__ is E and v.op == 'c' and v.sort == 'R' and v.a[0] == 0:
                    pass
                elif v.__class__ is E and v.op == 'c' and v.sort == 'R' and c[0] == 8:
                    val |= struct.unpack('<Q', struct.pack('<d', float(v.a[0])))[0] << (8 * (b - off))
                else:
                    # a wide integer copy of several symbolic cells
                    return self.wide(o, off, size)
                b += c[0]
            else:
                if c is not None:
                    return self.wide(o, off, size)
                # inside an earlier cell?
                inner = None
                for d in range(1, 17):
                    c2 = cells.get(b - d)
                    if c2 is not None:
                        if c2[0] > d:
                            inner = (d, c2)
                        break
                if inner:
                    d, c2 = inner
                    v = c2[1]
                    if v.__class__ is not int:
                        if v is UNDEF:
                            undef = True
                            b += 1
                            continue
                        return self.wide(o, off, size)
                    n = min(c2[0] - d, end - b)
                    val |= ((v >> (8 * d)) & ((1 << (8 * n)) - 1)) << (8 * (b - off))
                    b += n
                elif o.fill is not None:
                    val |= o.fill << (8 * (b - off))
                    b += 1
                else:
                    undef = True
                    b += 1
        if undef:
            if o.name.startswith('extern '):
                raise Unsupported('read of ' + o.name)
            if size > 1 and size <= 8:
                parts = tuple((i, 1, self.load_byte(st, o, off + i)) for i in range(size))
                if any(q[2] is not UNDEF for q in parts) and all(q[2] is UNDEF or q[2].__class__ is int for q in parts):
                    return Packed(parts)
            return UNDEF
        return val

    def wide(self, o, off, size):
        parts = []
        b = off
        while b < off + size:
            c = o.cells.get(b)
            if c is None or b + c[0] > off + size:
                raise Unsupported('wide mixed read in %s' % o.name)
            parts.append((b - off, c[0], c[1]))
            b += c[0]
        return Packed(tuple(parts))

    def conv(self, v, ty, st=None):
        """value as stored -> value of type ty"""
        k = ty[0]
        if v is UNDEF:
            return v
        c = v.__class__
        if k == 'f':
            if c is E:
                if v.sort == 'R':
                    return v
                raise Unsupported('int cell read as double')
            if c is FBits:
                return v.e
            if c is int:
                if v == 0:
                    return X.ZERO
                if ty[1] == 64:
                    return self.fval(struct.unpack('<d', struct.pack('<Q', v))[0])
                if ty[1] == 32:
                    return self.fval(struct.unpack('<f', struct.pack('<I', v))[0])
            raise Unsupported('read %r as double' % (v,))
        if k == 'ptr':
            if c is Ptr:
                return v
            if c is int and v == 0:
                return NULLP
            if c is PInt:
                return v.p
            if c is int:
                return Ptr(-1, v)
            raise Unsupported('read %r as ptr' % (v,))
        if k == 'i':
            if c is int:
                if ty[1] == 1:
                    return bool(v & 1)
                return v & mask(ty[1])
            if c is bool:
                return v if ty[1] == 1 else int(v)
            if c is E:
                if v.sort == 'R':
                    if v.op == 'c' and ty[1] == 64:
                        return struct.unpack('<Q', struct.pack('<d', float(v.a[0])))[0]
                    return FBits(v)
                if v.sort == 'B' and ty[1] != 1:
                    return X.ite(v, 1, 0)
                if v.sort == 'I' and ty[1] == 1:
                    return X.bnot(X.ieq(v, 0))
                return v
            if c is Ptr:
                if v.obj <= 0 and v.off.__class__ is int and (v.obj == -1 or v.obj == 0):
                    return v.off & mask(ty[1])
                return PInt(v)
            return v
        raise Unsupported('conv to %r' % (ty,))

    def fval(self, f):
        if f != f:
            return X.NAN
        if f == float('inf'):
            return X.PINF
        if f == float('-inf'):
            return X.NINF
        return R(X.ideal(f))

    def store(self, st, ty, v, p):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k in ('st', 'arr', 'vec'):
            if v is UNDEF:
                v = [UNDEF] * (len(ty[1]) if k == 'st' else ty[1])
            if k == 'st':
                for i, t in enumerate(ty[1]):
                    off, _ = self.m.field_off(ty, i)
                    self.store(st, t, v[i], self.padd(p, off))
            else:
                s = self.m.sizeof(ty[2])
                for i in range(ty[1]):
                    self.store(st, ty[2], v[i], self.padd(p, i * s))
            return
        size = self.m.sizeof(ty)
        if p.__class__ is Ptr and p.off.__class__ is not int:
            p = self.symoff(st, p, size)
            if p.__class__ is not Ptr:
                raise Unsupported('store at a symbolic offset')
        o = self.obj(st, p, size, 'write')
        if o.const:
            self.fail(st, 'memory-safety', 'write to constant %s' % o.name)
        o = self.wobj(st, p.obj)
        if o.sym is not None:
            raise Unsupported('store to symbolic array')
        if v.__class__ is Packed:
            self.putcell(o, p.off, size, 0)
            self.clear(o, p.off, size)
            for d, s, u in v.parts:
                self.putcell(o, p.off + d, s, u)
            return
        self.putcell(o, p.off, size, v)

    def putcell(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear(o, off, size)
        cells[off] = (size, v)

    def clear(self, o, off, size):
        """remove [off, off+size), splitting overlapped integer cells"""
        cells = o.cells
        if not cells:
            return
        end = off + size
        lo = off - 16
        if size <= 64:
            rng = [k for k in range(lo, end) if k in cells]
        else:
            rng = [k for k in cells if lo <= k < end]
        for k in rng:
            s, v = cells[k]
            if k + s <= off:
                continue
            del cells[k]
            if k < off:
                self._keep(cells, k, s, v, k, off)
            if k + s > end:
                self._keep(cells, k, s, v, end, k + s)

    def _keep(self, cells, k, s, v, b, e):
        if v.__class__ is bool:
            v = int(v)
        if v.__class__ is Ptr and v.obj == 0:
            v = v.off
        if v.__class__ is E and v.op == 'c' and v.sort == 'R' and v.a[0] == 0:
            v = 0
        for i in range(b, e):
            if v.__class__ is int:
                cells[i] = (1, (v >> (8 * (i - k))) & 255)
            else:
                cells[i] = (1, UNDEF)

    def padd(self, p, off):
        if p is UNDEF:
            return p
        return Ptr(p.obj, X.iadd(p.off, off)) if off != 0 else p

    def symoff(self, st, p, size):
        """symbolic offset: enumerate the feasible values and fork"""
        o = st.mem.get(p.obj)
        if o is not None and o.sym is not None:
            return p
        vals = self.concretize(st, p.off)
        return Ptr(p.obj, vals)

    def concretize(self, st, e, limit=24):
        """single concrete value for symbolic int e on this path; forks if several"""
        e = X.unI(e)
        if e.__class__ is int:
            return e
        vals = []
        rel = smt.slice_pc(st.pc, [e])
        conds = list(rel)
        v = X.var('conc!', 'I')
        conds.append(X.mk('=', (v, e) if v.id < e.id else (e, v), 'B'))
        while True:
            r, md = smt.solve(conds, 4000, want_model=True)
            if r == 'unsat':
                break
            if r == 'unknown' or md is None:
                if os.environ.get('HV_STACK'):
                    import traceback
                    traceback.print_stack(limit=6)
                    print(X.show(e)[:300])
                raise Unsupported('cannot enumerate a symbolic index')
            val = md['conc!']
            vals.append(val)
            conds.append(X.bnot(X.ieq(v, val)))
            if len(vals) > limit:
                raise Unsupported('too many values for a symbolic index')
        if not vals:
            raise PathEnd()
        if len(vals) == 1:
            return vals[0]
        vals.sort()
        raise Fork([(X.ieq(e, x), e, x) for x in vals])

    # ------------------------------------------------------------ globals
    def glob(self, st, name):
        name = self.m.aliases.get(name, name)
        p = st.globs.get(name)
        if p is not None:
            return p
        if name in self.m.func_src or name not in self.m.globals:
            p = self.alloc(st, 1, 'fn', name)
            st.globs[name] = p
            return p
        src = self.m.globals[name]
        toks = ir.tokenize(src)
        i = 0
        ext = False
        const = False
        while toks[i] not in ('global', 'constant'):
            if toks[i] in ('external', 'extern_weak'):
                ext = True
            i += 1
        const = toks[i] == 'constant'
        i += 1
        ps = ir.P(self.m, toks)
        ps.i = i
        ty = ps.type()
        size = self.m.sizeof(ty) if self.m.resolve(ty)[0] != 'opaque' else 8
        p = self.alloc(st, size, 'global', name)
        st.globs[name] = p
        o = st.mem[p.obj]
        if ext:
            o.name = 'extern ' + name
            o.size = None
            if name == '__libc_single_threaded':
                o.cells[0] = (1, 1)
            return p
        v = ps.value(ty)
        self.init(st, o, 0, ty, v)
        o.const = const
        return p

    def init(self, st, o, off, ty, v):
        ty = self.m.resolve(ty)
        if v.__class__ is Zero:
            n = self.m.sizeof(ty)
            if off == 0 and n == o.size:
                o.fill = 0
                return
            b = off
            while b < off + n:
                s = 8 if b % 8 == 0 and b + 8 <= off + n else 1
                o.cells[b] = (s, 0)
                b += s
            return
        if v.__class__ is UndefC:
            return
        if v.__class__ is Agg:
            k = ty[0]
            b = off
            for i, (t, x) in enumerate(v.vals):
                if k == 'st':
                    fo, _ = self.m.field_off(ty, i)
                    self.init(st, o, off + fo, t, x)
                else:
                    self.init(st, o, b, t, x)
                    b += self.m.sizeof(t)
            return
        val = self.const(st, v, ty)
        o.cells[off] = (self.m.sizeof(ty), val)

    def const(self, st, v, ty=None):
        c = v.__class__
        if c is int:
            if ty is not None and ty == I1:
                return bool(v)
            return v
        if c is Glob:
            return self.glob(st, v.name)
        if c is FConst:
            return self.fval(v.v)
        if v is NULL:
            return NULLP
        if c is Zero:
            t = self.m.resolve(v.ty)
            return self.zero(t)
        if c is UndefC:
            t = self.m.resolve(v.ty)
            if t[0] == 'st':
                return [UNDEF] * len(t[1])
            if t[0] in ('arr', 'vec'):
                return [UNDEF] * t[1]
            return UNDEF
        if c is Agg:
            return [self.const(st, x, t) for t, x in v.vals]
        if c is CGep:
            if v.op == 'gep':
                bt, ops = v.args
                return self.gep(st, bt, self.const(st, ops[0][1], PTR), [(t, self.const(st, x, t)) for t, x in ops[1:]])
            if v.op == 'ptrtoint':
                return PInt(self.const(st, v.args[1], PTR))
            if v.op == 'inttoptr':
                x = self.const(st, v.args[1], v.args[0])
                if x.__class__ is PInt:
                    return x.p
                return Ptr(0, 0) if x == 0 else Ptr(-1, x)
            if v.op in ('bitcast', 'addrspacecast'):
                return self.const(st, v.args[1], v.args[0])
            if v.op == 'sub':
                a, b = self.const(st, v.args[1], v.args[0]), self.const(st, v.args[2], v.args[0])
                return self.bin_int('sub', a, b, 64, st)
            if v.op == 'trunc':
                return self.const(st, v.args[1], v.args[0])
        raise Unsupported('constant %r' % (v,))

    def zero(self, t):
        k = t[0]
        if k == 'i':
            return False if t[1] == 1 else 0
        if k == 'f':
            return X.ZERO
        if k == 'ptr':
            return NULLP
        if k == 'st':
            return [self.zero(self.m.resolve(x)) for x in t[1]]
        if k in ('arr', 'vec'):
            return [self.zero(self.m.resolve(t[2])) for _ in range(t[1])]
        raise Unsupported('zero %r' % (t,))

    # ------------------------------------------------------------ running
    def run(self, fname, setup=None):
        st = State()
        fn = self.m.func(fname)
        self.functions.add(fname)
        st.frames.append(Frame(fn))
        work = [st]
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('path budget')
            try:
                self.go(st, work)
            except Exception:
                self.stack(st)
                raise

    def go(self, st, work):
        disp = self.DISPATCH
        n = 0
        while True:
            fr = st.frames[-1]
            ins = fr.code[fr.idx]
            fr.idx += 1
            n += 1
            if self.lines is not None:
                self.lines.add(ins.dbg)
            if n & 1023 == 0:
                st.steps += 1024
                if st.steps > self.max_steps:
                    raise Unsupported('step budget (%s)' % self.curloc(st))
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget (%s)' % self.curloc(st))
            h = disp.get(ins.op)
            if h is None:
                raise Unsupported('instruction %s: %s' % (ins.op, ins.text[:100]))
            try:
                h(self, st, fr, ins)
            except PathEnd:
                return
            except Fork as f:
                fr.idx -= 1  # re-execute the instruction in each alternative
                alts = f.alts
                live = []
                for alt in alts:
                    c = alt[0]
                    if self.feas(st, c):
                        live.append(alt)
                if not live:
                    return
                for alt in live[1:]:
                    s2 = st.fork()
                    self.take(s2, alt)
                    work.append(s2)
                self.take(st, live[0])
            if st.done:
                return

    def take(self, st, alt):
        """assume alt[0]; remember the decision so that re-execution does not fork again"""
        self.assume(st, alt[0])
        if len(alt) >= 3:
            e, val = alt[1], alt[2]
            # record the binding e -> val for this path
            st.trace.append((e.id, val))

    def bound(self, st, e):
        for i, v in st.trace:
            if i == e.id:
                return v
        return None

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if c.op == 'and':
            for x in c.a:
                self.assume(st, x)
            return
        if all(c is not x for x in st.pc):
            st.pc.append(c)

    def feas(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        nc = X.bnot(c)
        for p in st.pc:
            if p is c:
                return True
            if p is nc:
                return False
        return smt.feasible(st.pc, c)

    def decide(self, st, c):
        """True/False for a branch condition, forking when both are feasible"""
        if c is True or c is False:
            return c
        if c is UNDEF or c.__class__ is Part:
            self.fail(st, 'memory-safety', 'branch on an uninitialised value')
        if c.__class__ is int:
            return bool(c)
        nc = X.bnot(c)
        for p in st.pc:
            if p is c:
                return True
            if p is nc:
                return False
        t = self.feas(st, c)
        f = self.feas(st, nc)
        if t and f:
            raise Fork([(c,), (nc,)])
        if t:
            return True
        if f:
            return False
        raise PathEnd()

    # ------------------------------------------------------------ operands
    def val(self, st, fr, v, ty=None):
        c = v.__class__
        if c is str:
            return fr.regs[v]
        if c is int:
            if ty is not None and ty[0] == 'i' and ty[1] == 1:
                return bool(v)
            return v
        return self.const(st, v, ty)

    # ------------------------------------------------------------ instructions
    def i_alloca(self, st, fr, ins):
        t, cnt = ins.a
        n = self.val(st, fr, cnt, I64) if cnt != 1 else 1
        n = self.conc(st, n)
        p = self.alloc(st, self.m.sizeof(t) * n, 'stack', fr.fn.name + ':' + str(ins.dst))
        fr.allocas.append(p.obj)
        fr.regs[ins.dst] = p

    def conc(self, st, v):
        if v.__class__ is int:
            return v
        if v is UNDEF or v.__class__ is Part:
            self.fail(st, 'memory-safety', 'use of an uninitialised value')
        if v.__class__ is E:
            b = self.bound(st, v)
            if b is not None:
                return b
            return self.concretize(st, v)
        raise Unsupported('concretise %r' % (v,))

    def i_load(self, st, fr, ins):
        ty, p = ins.a
        fr.regs[ins.dst] = self.load(st, ty, self.ptr(st, fr, p))

    def ptr(self, st, fr, v):
        p = fr.regs[v] if v.__class__ is str else self.const(st, v, PTR)
        if p.__class__ is Ptr and p.off.__class__ is E:
            o = st.mem.get(p.obj)
            if o is None or o.sym is None:
                p = Ptr(p.obj, self.conc(st, p.off))
        return p

    def i_store(self, st, fr, ins):
        ty, v, p = ins.a
        self.store(st, ty, self.val(st, fr, v, ty), self.ptr(st, fr, p))

    def gep(self, st, bt, base, idx):
        if base is UNDEF:
            return UNDEF
        if base.__class__ is not Ptr:
            raise Unsupported('gep on %r' % (base,))
        m = self.m
        off = base.off
        t = bt
        first = True
        for ity, iv in idx:
            if iv is UNDEF:
                return UNDEF
            if iv.__class__ is int:
                iv = sgn(iv, ity[1]) if ity[0] == 'i' else iv
            elif iv.__class__ is bool:
                iv = int(iv)
            if first:
                if iv.__class__ is int and off.__class__ is int:
                    off += iv * m.sizeof(t)
                else:
                    off = X.iadd(off, X.imul(iv, m.sizeof(t)))
                first = False
            else:
                t = m.resolve(t)
                if t[0] == 'st':
                    fo, t = m.field_off(t, iv)
                    off = X.iadd(off, fo)
                else:
                    t = t[2]
                    off = X.iadd(off, X.imul(iv, m.sizeof(t)))
        return Ptr(base.obj, off)

    def i_gep(self, st, fr, ins):
        bt, b, idx = ins.a
        base = fr.regs[b] if b.__class__ is str else self.const(st, b, PTR)
        fr.regs[ins.dst] = self.gep(st, bt, base, [(t, self.val(st, fr, x, t)) for t, x in idx])

    def i_binint(self, st, fr, ins):
        t, a, b = ins.a
        if t[0] == 'vec':
            x, y = self.val(st, fr, a, t), self.val(st, fr, b, t)
            fr.regs[ins.dst] = [self.bin_int(ins.op, u, v, t[2][1], st) for u, v in zip(x, y)]
            return
        fr.regs[ins.dst] = self.bin_int(ins.op, self.val(st, fr, a, t), self.val(st, fr, b, t), t[1], st)

    def bits_undef(self, op, a, b, w):
        full = (1 << w) - 1
        a, b = [Part(full, 0) if x is UNDEF else Part(0, int(x)) if x.__class__ in (int, bool) else x for x in (a, b)]
        if a.__class__ is not Part or b.__class__ is not Part:
            return UNDEF
        if op == 'and':
            um = (a.um | b.um) & (a.um | a.val) & (b.um | b.val)
            r = Part.of(um, a.val & b.val)
        elif op == 'or':
            um = (a.um | b.um) & ~(a.val | b.val)
            r = Part.of(um, a.val | b.val)
        elif op in ('shl', 'lshr') and not b.um and b.val < w:
            r = Part.of((a.um << b.val) & full, (a.val << b.val) & full) if op == 'shl' else Part.of(a.um >> b.val, a.val >> b.val)
        else:
            return UNDEF
        if r.__class__ is Part and r.um == full:
            return UNDEF
        return bool(r) if w == 1 and r.__class__ is int else r

    def bin_int(self, op, a, b, w, st):
        if a is UNDEF or b is UNDEF or a.__class__ is Part or b.__class__ is Part:
            return self.bits_undef(op, a, b, w)
        ca, cb = a.__class__, b.__class__
        if ca is Packed or cb is Packed:
            if op == 'lshr' and cb is int and b % 8 == 0:
                a = a.shifted(b // 8)
                return a.parts[0][2] if len(a.parts) == 1 and a.parts[0][0] == 0 else a
            raise Unsupported('%s on a packed value' % op)
        if w == 1:
            a = bool(a) if ca is int else a
            b = bool(b) if cb is int else b
            if op == 'and' or op == 'mul':
                return X.band(a, b)
            if op == 'or':
                return X.bor(a, b)
            if op in ('xor', 'add', 'sub'):
                if a is True:
                    return X.bnot(b)
                if b is True:
                    return X.bnot(a)
                if a is False:
                    return b
                if b is False:
                    return a
                return X.ite(a, X.bnot(b), b)
            raise Unsupported('i1 ' + op)
        if ca is int and cb is int:
            if op == 'add':
                return (a + b) & mask(w)
            if op == 'sub':
                return (a - b) & mask(w)
            if op == 'mul':
                return (a * b) & mask(w)
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask(w) if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (sgn(a, w) >> b) & mask(w) if b < w else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.fail(st, 'arithmetic', 'integer division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                if op == 'sdiv':
                    return X.idiv(sgn(a, w), sgn(b, w)) & mask(w)
                return X.imod(sgn(a, w), sgn(b, w)) & mask(w)
        # pointers as integers
        if ca is PInt or cb is PInt:
            return self.bin_pint(op, a, b, w, st)
        if ca is bool:
            a = int(a)
            return self.bin_int(op, a, b, w, st)
        if cb is bool:
            return self.bin_int(op, a, int(b), w, st)
        if (ca is E or ca is int) and (cb is E or cb is int):
            if ca is E and a.sort == 'B':
                a = X.ite(a, 1, 0)
            if cb is E and b.sort == 'B':
                b = X.ite(b, 1, 0)
            if op in ('add', 'sub', 'mul', 'sdiv', 'srem'):
                if ca is int:
                    a = sgn(a, w)
                if cb is int:
                    b = sgn(b, w)
                if op == 'add':
                    return self.icanon(X.iadd(a, b), w)
                if op == 'sub':
                    return self.icanon(X.isub(a, b), w)
                if op == 'mul':
                    return self.icanon(X.imul(a, b), w)
                if op == 'sdiv':
                    return self.icanon(X.idiv(a, b), w)
                return self.icanon(X.imod(a, b), w)
            if op in ('udiv', 'urem'):
                a2, b2 = self.unsigned(a, w, st), self.unsigned(b, w, st)
                return X.idiv(a2, b2) if op == 'udiv' else X.imod(a2, b2)
            if op == 'shl' and cb is int:
                return X.imul(a, 1 << b)
            if op == 'lshr' and cb is int:
                return X.idiv(self.unsigned(a, w, st), 1 << b)
            if op == 'ashr' and cb is int:
                iv = X.interval(a)
                if iv[0] is not None and iv[0] >= 0:
                    return X.idiv(a, 1 << b)
            if op == 'and' and cb is int and (b & (b + 1)) == 0:
                if b == mask(w) or flag(a) is not None:
                    return a if b else 0
                return X.imod(self.unsigned(a, w, st), b + 1)
            if op == 'and' and ca is int:
                return self.bin_int(op, b, a, w, st)
            if op in ('and', 'or', 'xor'):
                p, q = flag(a), flag(b)
                if p is not None and q is not None:
                    if op == 'and':
                        return X.ite(X.band(p, q), 1, 0)
                    if op == 'or':
                        return X.ite(X.bor(p, q), 1, 0)
                    return X.ite(X.bor(X.band(p, X.bnot(q)), X.band(X.bnot(p), q)), 1, 0)
            # fall back to enumeration
            if ca is E:
                return self.bin_int(op, self.conc(st, a) & mask(w), b, w, st)
            return self.bin_int(op, a, self.conc(st, b) & mask(w), w, st)
        raise Unsupported('int op %s on %r %r' % (op, a, b))

    def icanon(self, v, w):
        if v.__class__ is int:
            return v & mask(w)
        return v

    def unsigned(self, a, w, st):
        if a.__class__ is int:
            return a & mask(w)
        lo, hi = X.interval(a)
        if lo is not None and lo >= 0:
            return a
        neg = X.ilt(a, 0)
        if neg is False or not self.feas(st, neg):
            return a
        return X.ite(neg, X.iadd(a, 1 << w), a)

    def bin_pint(self, op, a, b, w, st):
        if a.__class__ is PInt and b.__class__ is PInt:
            if op == 'sub':
                if a.p.obj == b.p.obj:
                    r = X.isub(a.p.off, b.p.off)
                    return r & mask(w) if r.__class__ is int else r
                if a.p.obj == 0 or b.p.obj == 0:
                    raise Unsupported('null pointer difference')
                # distance of unrelated objects: arbitrary, far apart
                return ((a.p.obj - b.p.obj) * (1 << 40) + 16) & mask(w)
            if op == 'xor' and a.p.obj == b.p.obj and a.p.off == b.p.off:
                return 0
        if a.__class__ is PInt and b.__class__ is int:
            if op == 'add':
                return PInt(Ptr(a.p.obj, X.iadd(a.p.off, sgn(b, w))))
            if op == 'sub':
                return PInt(Ptr(a.p.obj, X.iadd(a.p.off, -sgn(b, w))))
            if op == 'and':
                if b <= 15:
                    if a.p.off.__class__ is int:
                        return a.p.off & b
                nb = (~b) & mask(w)
                if nb <= 4095 and a.p.off.__class__ is int:
                    return PInt(Ptr(a.p.obj, a.p.off & ~nb))
            if op == 'or' and b <= 15 and a.p.off.__class__ is int:
                return PInt(Ptr(a.p.obj, a.p.off | b))
            if op in ('lshr', 'urem', 'mul', 'xor', 'udiv', 'ashr', 'shl', 'srem'):
                # hashing an address: use an arbitrary fixed address
                return self.bin_int(op, self.fakeaddr(a.p), b, w, st)
        if a.__class__ is int and b.__class__ is PInt:
            if op in ('add', 'or', 'xor', 'mul'):
                return self.bin_int(op, self.fakeaddr(b.p), a, w, st) if op != 'add' else self.bin_pint(op, b, a, w, st)
            return self.bin_int(op, a, self.fakeaddr(b.p), w, st)
        if op == 'sub' and b.__class__ is E and a.__class__ is PInt:
            return PInt(Ptr(a.p.obj, X.isub(a.p.off, b)))
        if op == 'add' and b.__class__ is E and a.__class__ is PInt:
            return PInt(Ptr(a.p.obj, X.iadd(a.p.off, b)))
        raise Unsupported('pointer arithmetic %s' % op)

    def fakeaddr(self, p):
        off = p.off if p.off.__class__ is int else 0
        return (0x500000000000 + p.obj * 0x100000 + off) if p.obj else off

    def i_binfp(self, st, fr, ins):
        t, a, b = ins.a
        x, y = self.val(st, fr, a, t), self.val(st, fr, b, t)
        if t[0] == 'vec':
            fr.regs[ins.dst] = [self.fop(ins.op, u, v, st) for u, v in zip(x, y)]
        else:
            fr.regs[ins.dst] = self.fop(ins.op, x, y, st)

    def fop(self, op, x, y, st):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if op == 'fadd':
            return X.add(x, y)
        if op == 'fsub':
            return X.sub(x, y)
        if op == 'fmul':
            return X.mul(x, y)
        if op == 'fdiv':
            if y.op != 'c':
                self.divs += 1
            return X.div(x, y)
        raise Unsupported(op)

    def i_fneg(self, st, fr, ins):
        t, a = ins.a
        x = self.val(st, fr, a, t)
        if t[0] == 'vec':
            fr.regs[ins.dst] = [X.neg(u) for u in x]
        else:
            fr.regs[ins.dst] = UNDEF if x is UNDEF else X.neg(x)

    def i_icmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        x, y = self.val(st, fr, a, t), self.val(st, fr, b, t)
        if t[0] == 'vec':
            fr.regs[ins.dst] = [self.icmp(pred, t[2], u, v, st) for u, v in zip(x, y)]
        else:
            fr.regs[ins.dst] = self.icmp(pred, t, x, y, st)

    def icmp(self, pred, t, x, y, st):
        if x is UNDEF or y is UNDEF or x.__class__ is Part or y.__class__ is Part:
            return UNDEF
        cx, cy = x.__class__, y.__class__
        if cx is PInt and cy is PInt:
            x, y = x.p, y.p
            cx = cy = Ptr
        if cx is PInt and cy is int:
            x, cx = x.p, Ptr
            y = NULLP if y == 0 else Ptr(-1, y)
            cy = Ptr
        if cy is PInt and cx is int:
            y, cy = y.p, Ptr
            x = NULLP if x == 0 else Ptr(-1, x)
            cx = Ptr
        if cx is Ptr and cy is Ptr:
            return self.pcmp(pred, x, y, st)
        w = t[1] if t[0] == 'i' else 64
        if w == 1:
            x = bool(x) if x.__class__ is int else x
            y = bool(y) if y.__class__ is int else y
            if pred in ('eq', 'ne'):
                r = X.bor(X.band(x, y), X.band(X.bnot(x), X.bnot(y)))
                return r if pred == 'eq' else X.bnot(r)
            if pred == 'ult':
                return X.band(X.bnot(x), y)
            if pred == 'ugt':
                return X.band(x, X.bnot(y))
            raise Unsupported('icmp i1')
        if cx is int and cy is int:
            if pred == 'eq':
                return x == y
            if pred == 'ne':
                return x != y
            if pred[0] == 's':
                x, y = sgn(x, w), sgn(y, w)
            p = pred[1:]
            return x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y
        if cx is bool:
            x = int(x)
        if cy is bool:
            y = int(y)
        if (cx is E and x.sort == 'R') or (cy is E and y.sort == 'R') or cx is FBits or cy is FBits:
            raise Unsupported('icmp on float bits')
        if x.__class__ not in (E, int) or y.__class__ not in (E, int):
            raise Unsupported('icmp %r %r' % (x, y))
        if x.__class__ is E and x.sort == 'B':
            x = X.ite(x, 1, 0)
        if y.__class__ is E and y.sort == 'B':
            y = X.ite(y, 1, 0)
        if pred in ('eq', 'ne'):
            if x.__class__ is int:
                x = self.matchconst(x, y, w)
            if y.__class__ is int:
                y = self.matchconst(y, x, w)
            r = self.ieq2(x, y)
            return r if pred == 'eq' else X.bnot(r)
        if pred[0] == 's':
            x = sgn(x, w) if x.__class__ is int else x
            y = sgn(y, w) if y.__class__ is int else y
        else:
            x, y = self.unsigned(x, w, st), self.unsigned(y, w, st)
        p = pred[1:]
        if p == 'lt':
            return X.ilt(x, y)
        if p == 'le':
            return X.ile(x, y)
        if p == 'gt':
            return X.ilt(y, x)
        return X.ile(y, x)

    def matchconst(self, c, e, w):
        """constant in the range in which the symbolic side lives"""
        lo, hi = X.interval(e)
        if lo is not None and lo >= 0:
            return c & mask(w)
        return sgn(c, w)

    def ieq2(self, x, y):
        for u, v in ((x, y), (y, x)):
            if u.__class__ is E and u.op == 'ite' and v.__class__ is int:
                a, b = X.unI(u.a[1]), X.unI(u.a[2])
                if a.__class__ is int or b.__class__ is int:
                    return X.ite(u.a[0], self.ieq2(a, v), self.ieq2(b, v))
        return X.ieq(x, y)

    def pcmp(self, pred, x, y, st):
        if x.obj == y.obj:
            a, b = x.off, y.off
            if pred == 'eq':
                return X.ieq(a, b)
            if pred == 'ne':
                return X.bnot(X.ieq(a, b))
            p = pred[1:]
            return X.ilt(a, b) if p == 'lt' else X.ile(a, b) if p == 'le' else X.ilt(b, a) if p == 'gt' else X.ile(b, a)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        p = pred[1:]
        return x.obj < y.obj if p in ('lt', 'le') else x.obj > y.obj

    def i_fcmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        x, y = self.val(st, fr, a, t), self.val(st, fr, b, t)
        if t[0] == 'vec':
            fr.regs[ins.dst] = [self.fcmp(pred, u, v) for u, v in zip(x, y)]
        else:
            fr.regs[ins.dst] = self.fcmp(pred, x, y)

    def fcmp(self, pred, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        nan = x is X.NAN or y is X.NAN
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'ord':
            return not nan
        if pred == 'uno':
            return nan
        if nan:
            return pred[0] == 'u'
        p = pred[1:]
        if p == 'eq':
            return X.eq(x, y)
        if p == 'ne':
            return X.bnot(X.eq(x, y))
        if p == 'lt':
            return X.lt(x, y)
        if p == 'le':
            return X.le(x, y)
        if p == 'gt':
            return X.lt(y, x)
        return X.le(y, x)

    def i_cast(self, st, fr, ins):
        t, a, t2 = ins.a
        x = self.val(st, fr, a, t)
        if t[0] == 'vec':
            fr.regs[ins.dst] = [self.cast(ins.op, u, t[2], t2[2], st) for u in x] if t2[0] == 'vec' else UNDEF
            return
        fr.regs[ins.dst] = self.cast(ins.op, x, t, t2, st)

    def cast(self, op, x, t, t2, st):
        if x is UNDEF:
            return UNDEF
        if x.__class__ is Part:
            if op == 'zext':
                return x
            if op == 'trunc':
                m = (1 << t2[1]) - 1
                x = Part.of(x.um & m, x.val & m)
                return x if x.__class__ is not Part or x.um != m else UNDEF
            return UNDEF
        if op == 'zext':
            if x.__class__ is int:
                return x
            if x.__class__ is bool:
                return int(x)
            if x.__class__ is E and x.sort == 'B':
                return X.ite(x, 1, 0)
            if x.__class__ is E:
                return self.unsigned(x, t[1], st)
            return x
        if op == 'sext':
            if x.__class__ is bool:
                return mask(t2[1]) if x else 0
            if x.__class__ is int:
                return sgn(x, t[1]) & mask(t2[1])
            if x.__class__ is E and x.sort == 'B':
                return X.ite(x, -1, 0)
            return x
        if x.__class__ is Packed:
            if op == 'trunc' and t2[1] % 8 == 0:
                return x.low(t2[1] // 8)
            raise Unsupported('%s of a packed value' % op)
        if op == 'trunc':
            if t2[1] == 1:
                if x.__class__ is int:
                    return bool(x & 1)
                if x.__class__ is E:
                    if x.sort == 'B':
                        return x
                    if x.op == 'ite' and X.unI(x.a[1]) == 1 and X.unI(x.a[2]) == 0:
                        return x.a[0]
                    lo, hi = X.interval(x)
                    if lo == 0 and hi == 1:
                        return X.ieq(x, 1)
                    return X.bnot(X.ieq(X.imod(x, 2), 0))
                return x
            if x.__class__ is int:
                return x & mask(t2[1])
            if x.__class__ is E:
                if x.sort == 'B':
                    return X.ite(x, 1, 0)
                lo, hi = X.interval(x)
                if lo is not None and hi is not None and lo >= 0 and hi <= mask(t2[1]):
                    return x
                # keep as mathematical value if it provably fits, else enumerate
                fits = X.band(X.ile(0, x), X.ile(x, mask(t2[1] - 1)))
                if fits is True or not self.feas(st, X.bnot(fits)):
                    return x
                return self.conc(st, x) & mask(t2[1])
            if x.__class__ is PInt:
                return self.fakeaddr(x.p) & mask(t2[1])
            raise Unsupported('trunc %r' % (x,))
        if op in ('fpext',):
            return x
        if op == 'fptrunc':
            if x.op == 'c':
                self.assumed.add('single precision treated as real')
            return x
        if op in ('sitofp', 'uitofp'):
            if x.__class__ is bool:
                return R(int(x) if op == 'uitofp' else -int(x))
            if x.__class__ is int:
                return R(sgn(x, t[1]) if op == 'sitofp' else x)
            if x.sort == 'B':
                x = X.ite(x, 1, 0)
            return X.toreal(x if op == 'sitofp' else self.unsigned(x, t[1], st))
        if op in ('fptosi', 'fptoui'):
            if x.op in ('inf', 'nan'):
                self.fail(st, 'arithmetic', 'conversion of a non-finite value to an integer')
            r = X.toint(x)
            if r.__class__ is int:
                lo = -(1 << (t2[1] - 1)) if op == 'fptosi' else 0
                if r < lo or r > mask(t2[1]):
                    return UNDEF  # poison: an obligation fails where it is used
                return r & mask(t2[1])
            return r
        if op == 'ptrtoint':
            if x.__class__ is Ptr and (x.obj == 0 or x.obj == -1) and x.off.__class__ is int:
                return x.off & mask(t2[1])
            return PInt(x)
        if op == 'inttoptr':
            if x.__class__ is PInt:
                return x.p
            if x.__class__ is int:
                return NULLP if x == 0 else Ptr(-1, x)
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if t2[0] == t[0]:
                return x
            return self.conv(x, t2, st)
        raise Unsupported('cast ' + op)

    def i_select(self, st, fr, ins):
        t, c, t1, a, b = ins.a
        cc = self.val(st, fr, c, t)
        x, y = self.val(st, fr, a, t1), self.val(st, fr, b, t1)
        if t[0] == 'vec':
            fr.regs[ins.dst] = [self.sel(st, u, v, w) for u, v, w in zip(cc, x, y)]
        else:
            fr.regs[ins.dst] = self.sel(st, cc, x, y)

    def sel(self, st, c, x, y):
        if c is True or (c.__class__ is int and c):
            return x
        if c is False or c.__class__ is int:
            return y
        if c is UNDEF or c.__class__ is Part:
            return UNDEF
        ok = (E, int, bool)
        if x.__class__ in ok and y.__class__ in ok:
            sx = x.sort if x.__class__ is E else ('B' if x.__class__ is bool else 'I')
            sy = y.sort if y.__class__ is E else ('B' if y.__class__ is bool else 'I')
            if sx == sy:
                if sx == 'R' and (x.op in ('inf', 'nan') or y.op in ('inf', 'nan')):
                    return x if self.decide(st, c) else y
                if sx == 'I':
                    if x.__class__ is int and x >> 31:
                        return x if self.decide(st, c) else y
                    if y.__class__ is int and y >> 31:
                        return x if self.decide(st, c) else y
                return X.ite(c, x, y)
        if x.__class__ is Ptr and y.__class__ is Ptr and x.obj == y.obj and x.off == y.off:
            return x
        return x if self.decide(st, c) else y

    def jump(self, st, fr, label):
        fr.prev = fr.block
        fr.block = label
        code = fr.fn.block(label)
        fr.code = code
        # parallel phis
        i = 0
        n = len(code)
        if code[0].op == 'phi':
            new = []
            prev = fr.prev
            while i < n and code[i].op == 'phi':
                ins = code[i]
                t, inc = ins.a
                v = inc[prev]
                new.append((ins.dst, self.val(st, fr, v, t)))
                i += 1
            for d, v in new:
                fr.regs[d] = v
        fr.idx = i

    def i_br(self, st, fr, ins):
        a = ins.a
        if len(a) == 1:
            self.jump(st, fr, a[0])
            return
        c = self.val(st, fr, a[0], I1)
        if self.opts.get('loops') and c.__class__ is E:
            if self.opts['loops'](self, st, fr, ins, c):
                return
        if self.decide(st, c):
            self.jump(st, fr, a[1])
        else:
            self.jump(st, fr, a[2])

    def i_switch(self, st, fr, ins):
        t, v, d, cases = ins.a
        x = self.val(st, fr, v, t)
        if x.__class__ is E and x.sort == 'B':
            x = X.ite(x, 1, 0)
        if x.__class__ is bool:
            x = int(x)
        if x is UNDEF or x.__class__ is Part:
            self.fail(st, 'memory-safety', 'switch on an uninitialised value')
        if x.__class__ is E:
            x = self.conc(st, x) & mask(t[1])
        for cv, l in cases:
            if cv == x:
                self.jump(st, fr, l)
                return
        self.jump(st, fr, d)

    def i_phi(self, st, fr, ins):
        raise Unsupported('phi out of place')

    def i_ret(self, st, fr, ins):
        t, v = ins.a
        x = self.val(st, fr, v, t) if v is not None else None
        self.pop(st)
        if not st.frames:
            self.finish(st)
            return
        c = st.frames[-1]
        ci = c.code[c.idx - 1]
        if ci.dst is not None:
            c.regs[ci.dst] = x
        if ci.op == 'invoke':
            self.jump(st, c, ci.a[3])

    def pop(self, st):
        fr = st.frames.pop()
        for o in fr.allocas:
            ob = self.wobj(st, o)
            ob.alive = False
            ob.cells = {}

    def finish(self, st):
        st.done = True
        for c in st.covers:
            self.covers[c] = self.covers.get(c, 0) + 1
        self.covers['__path__'] = self.covers.get('__path__', 0) + 1

    def i_call(self, st, fr, ins):
        rt, callee, args, nl, ul = ins.a
        if callee == 'ASM':
            if ins.dst is None:
                return
            raise Unsupported('inline asm')
        if callee.__class__ is Glob:
            name = callee.name
            name = self.m.aliases.get(name, name)
        else:
            p = self.val(st, fr, callee, PTR)
            if p.__class__ is not Ptr:
                raise Unsupported('indirect call through %r' % (p,))
            if p.obj == 0:
                self.fail(st, 'memory-safety', 'call through a null function pointer')
            o = st.mem.get(p.obj)
            if o is None or o.kind != 'fn':
                raise Unsupported('indirect call to a non-function')
            name = o.name
        if name.startswith('llvm.'):
            self.bm.intrinsic(self, st, fr, ins, name, args)
            return
        vals = []
        for a in args:
            v = self.val(st, fr, a[1], a[0]) if a[0][0] != 'metadata' else None
            if len(a) == 3 and v.__class__ is Ptr:  # byval copy
                n = self.m.sizeof(a[2])
                q = self.alloc(st, n, 'stack', 'byval')
                self.bm.copy(self, st, q, v, n)
                fr.allocas.append(q.obj)
                v = q
            vals.append(v)
        h = self.models.get(name)
        if h is None and not self.m.has(name):
            h = self.bm.lookup(self, name)
            if h is None:
                raise Unsupported('external function %s' % self.bm.demangle(name))
            self.externals[name] = self.externals.get(name, 0) + 1
        if h is not None:
            r = h(self, st, fr, ins, vals, args)
            if r is self.bm.NORET:
                return
            if ins.dst is not None:
                fr.regs[ins.dst] = r
            if ins.op == 'invoke':
                self.jump(st, fr, nl)
            return
        self.enter(st, name, vals)

    def enter(self, st, name, vals):
        fn = self.m.func(name)
        self.functions.add(name)
        if len(st.frames) > 400:
            raise Unsupported('recursion depth')
        nf = Frame(fn)
        for (t, nm), v in zip(fn.params, vals):
            nf.regs[nm] = v
        st.frames.append(nf)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, ptr, ti):
        st.exc = (ptr, ti)
        self.unwind(st)

    def unwind(self, st):
        first = True
        while True:
            if not st.frames:
                st.done = True
                ob = Obligation('exception escapes: %s' % (st.exc[1],), 'false', list(st.pc), False, None, '?', list(st.inputs))
                self.obls.append(ob)
                raise PathEnd()
            fr = st.frames[-1]
            ci = fr.code[fr.idx - 1]
            if ci.op == 'invoke':
                label = ci.a[4]
                blk = fr.fn.block(label)
                lp = next(i for i in blk if i.op != 'phi')
                if lp.op == 'landingpad':
                    t, cleanup, clauses = lp.a
                    sel = None
                    for k, c in clauses:
                        if k == 'catch':
                            if c is NULL:
                                sel = 1000000
                            else:
                                nm = c.name if c.__class__ is Glob else None
                                if nm and self.ti_match(st, st.exc[1], nm):
                                    sel = self.ti_id(nm)
                        if sel is not None:
                            break
                    if sel is not None or cleanup:
                        self.jump(st, fr, label)
                        # the landingpad instruction itself
                        while fr.code[fr.idx].op != 'landingpad':
                            fr.idx += 1
                        fr.regs[fr.code[fr.idx].dst] = [st.exc[0], sel or 0]
                        fr.idx += 1
                        return
            self.pop(st)

    _ti = {}

    def ti_id(self, nm):
        return self._ti.setdefault(nm, len(self._ti) + 1)

    def ti_match(self, st, thrown, want):
        if thrown == want:
            return True
        if thrown is None:
            return False
        # hierarchy of well-known types, then through the typeinfo objects
        seen = set()
        todo = [thrown]
        while todo:
            x = todo.pop()
            if x == want:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += self.bm.STD_BASES.get(x, [])
            src = self.m.globals.get(x)
            if src and 'class_type_info' in src:
                import re
                for b in re.findall(r'ptr @(_ZTI\w+)', src):
                    if b != x:
                        todo.append(b)
        return False

    def i_landingpad(self, st, fr, ins):
        raise Unsupported('landingpad reached directly')

    def i_resume(self, st, fr, ins):
        self.pop(st)
        self.unwind(st)

    def i_unreachable(self, st, fr, ins):
        self.fail(st, 'unreachable', 'undefined behaviour: unreachable code reached')

    def i_extractvalue(self, st, fr, ins):
        t, v, idx = ins.a
        x = self.val(st, fr, v, t)
        for i in idx:
            if x is UNDEF:
                break
            x = x[i]
        fr.regs[ins.dst] = x

    def i_insertvalue(self, st, fr, ins):
        t, v, t2, e, idx = ins.a
        x = self.val(st, fr, v, t)
        y = self.val(st, fr, e, t2)

        def put(x, idx, t):
            t = self.m.resolve(t)
            n = len(t[1]) if t[0] == 'st' else t[1]
            x = [UNDEF] * n if x is UNDEF else list(x)
            if len(idx) == 1:
                x[idx[0]] = y
            else:
                x[idx[0]] = put(x[idx[0]], idx[1:], t[1][idx[0]] if t[0] == 'st' else t[2])
            return x
        fr.regs[ins.dst] = put(x, idx, t)

    def i_freeze(self, st, fr, ins):
        t, v = ins.a
        fr.regs[ins.dst] = self.val(st, fr, v, t)

    def i_extractelement(self, st, fr, ins):
        (t, v), (t2, i) = ins.a
        x = self.val(st, fr, v, t)
        k = self.val(st, fr, i, t2)
        fr.regs[ins.dst] = UNDEF if x is UNDEF else x[self.conc(st, k)]

    def i_insertelement(self, st, fr, ins):
        (t, v), (t1, e), (t2, i) = ins.a
        x = self.val(st, fr, v, t)
        x = [UNDEF] * t[1] if x is UNDEF else list(x)
        x[self.conc(st, self.val(st, fr, i, t2))] = self.val(st, fr, e, t1)
        fr.regs[ins.dst] = x

    def i_shufflevector(self, st, fr, ins):
        (t, a), (t1, b), (t2, mk) = ins.a
        x = self.val(st, fr, a, t)
        y = self.val(st, fr, b, t1)
        n = t[1]
        x = [UNDEF] * n if x is UNDEF else x
        y = [UNDEF] * n if y is UNDEF else y
        m = self.val(st, fr, mk, t2)
        z = list(x) + list(y)
        fr.regs[ins.dst] = [UNDEF if k is UNDEF else z[k] for k in m]

    def i_nop(self, st, fr, ins):
        pass

    def i_atomicrmw(self, st, fr, ins):
        k, p, t, v = ins.a
        q = self.ptr(st, fr, p)
        old = self.load(st, t, q)
        x = self.val(st, fr, v, t)
        if k == 'xchg':
            new = x
        else:
            new = self.bin_int(k, old, x, t[1], st)
        self.store(st, t, new, q)
        fr.regs[ins.dst] = old

    def i_cmpxchg(self, st, fr, ins):
        p, t, c, n = ins.a
        q = self.ptr(st, fr, p)
        old = self.load(st, t, q)
        same = self.decide(st, self.icmp('eq', t, old, self.val(st, fr, c, t), st))
        if same:
            self.store(st, t, self.val(st, fr, n, t), q)
        fr.regs[ins.dst] = [old, same]

    DISPATCH = {
        'alloca': i_alloca, 'load': i_load, 'store': i_store, 'getelementptr': i_gep,
        'fneg': i_fneg, 'icmp': i_icmp, 'fcmp': i_fcmp, 'select': i_select, 'br': i_br,
        'switch': i_switch, 'phi': i_phi, 'ret': i_ret, 'call': i_call, 'invoke': i_call,
        'extractvalue': i_extractvalue, 'insertvalue': i_insertvalue, 'freeze': i_freeze,
        'landingpad': i_landingpad, 'resume': i_resume, 'unreachable': i_unreachable,
        'extractelement': i_extractelement, 'insertelement': i_insertelement,
        'shufflevector': i_shufflevector, 'fence': i_nop, 'atomicrmw': i_atomicrmw,
        'cmpxchg': i_cmpxchg,
    }
    for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        DISPATCH[_o] = i_binint
    for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        DISPATCH[_o] = i_binfp
    for _o in ir.CASTS:
        DISPATCH[_o] = i_cast
