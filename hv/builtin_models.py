"""Models of functions whose bodies are not in the verified translation unit:
compiler intrinsics, the C library, the non-template part of libstdc++ and the
hv_* specification interface.  These are the assumed contracts of the verifier."""
import re
import subprocess
from fractions import Fraction
import expr as X
from expr import E, R
import executor as EX
from ir import Unsupported, PTR, I1, I8, I32, I64, DBL, Glob, NULL
import ir


class _N:
    pass


NORET = _N()
TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


_dem = {}


def demangle(n):
    r = _dem.get(n)
    if r is None:
        try:
            r = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
        except OSError:
            r = n
        _dem[n] = r
    return r


# ------------------------------------------------------------------ helpers
def cstr(x, st, p):
    out = []
    o = st.mem[p.obj]
    off = p.off
    for _ in range(4096):
        v = x.load(st, I8, EX.Ptr(p.obj, off))
        if v.__class__ is not int:
            raise Unsupported('symbolic string')
        if v == 0:
            break
        out.append(chr(v))
        off += 1
    return ''.join(out)


def copy(x, st, d, s, n):
    if n == 0:
        return
    so = x.obj(st, s, n, 'read')
    do = x.obj(st, d, n, 'write')
    if so.sym is not None or do.sym is not None:
        raise Unsupported('memcpy of a symbolic array')
    if d.off.__class__ is not int or s.off.__class__ is not int:
        raise Unsupported('memcpy at symbolic offset')
    a, b = s.off, s.off + n
    items = []
    cells = so.cells
    if n <= 256:
        for k in range(a - 16, b):
            c = cells.get(k)
            if c is not None and k + c[0] > a:
                items.append((k, c))
    else:
        for k, c in cells.items():
            if k < b and k + c[0] > a:
                items.append((k, c))
    new = []
    cov = set()
    for k, (sz, v) in items:
        lo, hi = max(k, a), min(k + sz, b)
        if lo == k and hi == k + sz:
            new.append((k - a + d.off, sz, v))
        else:
            if v.__class__ is bool:
                v = int(v)
            if v.__class__ is EX.Ptr and v.obj == 0 and v.off == 0:
                v = 0
            if v.__class__ is E and v.op == 'c' and v.sort == 'R':
                v = x.conv(v, I64)
            for i in range(lo, hi):
                if v.__class__ is int:
                    new.append((i - a + d.off, 1, (v >> (8 * (i - k))) & 255))
                elif v is EX.UNDEF:
                    pass
                else:
                    raise Unsupported('partial copy of a symbolic value')
    if so.fill is not None:
        for k, sz, v in new:
            cov.update(range(k, k + sz))
        i = d.off
        end = d.off + n
        while i < end:
            if i in cov:
                i += 1
                continue
            if i % 8 == 0 and i + 8 <= end and so.fill == 0 and not any(j in cov for j in range(i, i + 8)):
                new.append((i, 8, 0))
                i += 8
            else:
                new.append((i, 1, so.fill))
                i += 1
    do = x.wobj(st, d.obj)
    x.clear(do, d.off, n)
    if do.fill is not None:
        cov = set()
        for k, sz, v in new:
            cov.update(range(k, k + sz))
        for i in range(d.off, d.off + n):
            if i not in cov:
                do.cells[i] = (1, EX.UNDEF)
    for k, sz, v in new:
        do.cells[k] = (sz, v)


def setmem(x, st, d, v, n):
    if n == 0:
        return
    o = x.obj(st, d, n, 'write')
    if v.__class__ is not int:
        raise Unsupported('memset with a symbolic byte')
    v &= 255
    o = x.wobj(st, d.obj)
    if d.off == 0 and o.size == n:
        o.cells = {}
        o.fill = v
        return
    x.clear(o, d.off, n)
    i, end = d.off, d.off + n
    w = v * 0x0101010101010101
    while i < end:
        if i % 8 == 0 and i + 8 <= end:
            o.cells[i] = (8, w)
            i += 8
        else:
            o.cells[i] = (1, v)
            i += 1


# ------------------------------------------------------------------ intrinsics
NOPS = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.prefetch',
        'llvm.invariant', 'llvm.stackrestore', 'llvm.donothing', 'llvm.var.annotation')


def intrinsic(x, st, fr, ins, name, args):
    if name.startswith(NOPS):
        if ins.op == 'invoke':
            x.jump(st, fr, ins.a[3])
        return
    v = [x.val(st, fr, a[1], a[0]) if a[0][0] != 'metadata' else None for a in args]
    base = name.split('.')[1]
    r = None
    if base in ('memcpy', 'memmove'):
        copy(x, st, v[0], v[1], x.conc(st, v[2]))
    elif base == 'memset':
        setmem(x, st, v[0], v[1], x.conc(st, v[2]))
    elif base in ('fabs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'pow', 'maxnum', 'minnum', 'fmuladd', 'fma',
                  'maximum', 'minimum', 'floor', 'ceil', 'powi', 'copysign', 'trunc', 'round', 'rint', 'nearbyint'):
        if any(a is EX.UNDEF for a in v):
            r = EX.UNDEF
        elif args[0][0][0] == 'vec':
            r = [fmath(x, st, base, [a[i] if a.__class__ is list else a for a in v]) for i in range(args[0][0][1])]
        else:
            r = fmath(x, st, base, v)
    elif base in ('umax', 'umin', 'smax', 'smin'):
        w = args[0][0][1]
        c = x.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base], args[0][0], v[0], v[1], st)
        r = x.sel(st, c, v[0], v[1])
    elif base == 'abs':
        w = args[0][0][1]
        a = v[0]
        if a.__class__ is int:
            r = abs(EX.sgn(a, w)) & EX.mask(w)
        else:
            r = X.ite(X.ilt(a, 0), X.imul(a, -1), a)
    elif base in ('ctlz', 'cttz', 'ctpop', 'bswap', 'bitreverse'):
        w = args[0][0][1]
        a = x.conc(st, v[0])
        if base == 'ctlz':
            r = w - a.bit_length()
        elif base == 'cttz':
            r = w if a == 0 else (a & -a).bit_length() - 1
        elif base == 'ctpop':
            r = bin(a).count('1')
        elif base == 'bswap':
            r = int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        else:
            raise Unsupported(name)
    elif base == 'expect' or base == 'launder' or base == 'strip' or base == 'ssa' or base == 'annotation':
        r = v[0]
    elif base == 'is' and name.startswith('llvm.is.constant'):
        r = False
    elif name.startswith('llvm.is.fpclass'):
        m = v[1]
        if v[0] is X.NAN:
            r = bool(m & 3)
        elif v[0].op == 'inf':
            r = bool(m & (4 if v[0] is X.NINF else 512))
        elif m & ~0x207 == 0:
            r = False
        else:
            raise Unsupported(name)
    elif base == 'objectsize':
        r = EX.mask(64)
    elif base == 'stacksave':
        r = EX.NULLP
    elif name.startswith('llvm.eh.typeid.for'):
        a = args[0][1]
        r = x.ti_id(a.name) if a.__class__ is Glob else 1000000
    elif base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and '.with.overflow' in name:
        w = args[0][0][1]
        a, b = x.conc(st, v[0]), x.conc(st, v[1])
        if base[0] == 's':
            a, b = EX.sgn(a, w), EX.sgn(b, w)
        f = base[1:]
        t = a + b if f == 'add' else a - b if f == 'sub' else a * b
        if base[0] == 'u':
            ov = not (0 <= t <= EX.mask(w))
        else:
            ov = not (-(1 << (w - 1)) <= t < (1 << (w - 1)))
        r = [t & EX.mask(w), ov]
    elif base in ('usub', 'uadd') and '.sat' in name:
        w = args[0][0][1]
        a, b = x.conc(st, v[0]), x.conc(st, v[1])
        r = max(0, a - b) if base == 'usub' else min(EX.mask(w), a + b)
    elif base in ('fshl', 'fshr'):
        w = args[0][0][1]
        a, b, c = [x.conc(st, z) for z in v]
        c %= w
        t = (a << w) | b
        r = (t >> (w - c)) & EX.mask(w) if base == 'fshl' else (t >> c) & EX.mask(w)
    elif base == 'trap' or base == 'ubsantrap' or base == 'debugtrap':
        x.fail(st, 'abort', 'trap reached')
    elif base == 'vector' and name.startswith('llvm.vector.reduce'):
        k = name.split('.')[3]
        if k == 'fadd':
            r = v[0]
            for z in v[1]:
                r = X.add(r, z)
        else:
            raise Unsupported(name)
    elif base == 'threadlocal':
        r = v[0]
    else:
        raise Unsupported('intrinsic ' + name)
    if ins.dst is not None:
        fr.regs[ins.dst] = r
    if ins.op == 'invoke':
        x.jump(st, fr, ins.a[3])


def ilog2(q):
    """floor of log2 of a positive rational"""
    k = q.numerator.bit_length() - q.denominator.bit_length()
    return k if Fraction(2) ** k <= q else k - 1


def fmath(x, st, f, v):
    a = v[0]
    if f == 'fabs':
        return X.absr(a)
    if f == 'sqrt':
        if a.op == 'c' and a.a[0] < 0:
            return X.NAN
        return X.sqrt(a)
    if f in ('exp', 'log', 'sin', 'cos', 'tanh', 'atan', 'acos', 'asin', 'sinh', 'cosh', 'cbrt'):
        return X.fn(f, a)
    if f == 'pow':
        b = v[1]
        if b.op == 'c':
            q = Fraction(b.a[0])
            if q.denominator == 1 and abs(q) <= 64:
                return X.powi(a, int(q))
            if q.denominator == 2 and abs(q) <= 64:
                return X.powi(X.sqrt(a), int(q * 2))
        k = X.integral(b)
        if k.__class__ is E:
            # a symbolic integer exponent: one case for every value it can take
            return X.powi(a, x.concretize(st, k))
        return X.fn('pow', a, b)
    if f == 'powi':
        return X.powi(a, EX.sgn(x.conc(st, v[1]), 32))
    if f in ('maxnum', 'maximum', 'fmax'):
        return x.sel(st, X.lt(a, v[1]), v[1], a)
    if f in ('minnum', 'minimum', 'fmin'):
        return x.sel(st, X.lt(v[1], a), v[1], a)
    if f in ('fmuladd', 'fma'):
        return X.add(X.mul(a, v[1]), v[2])
    if f == 'copysign':
        m = X.absr(a)
        return X.ite(X.lt(v[1], X.ZERO), X.neg(m), m)
    if f in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
        if a.op == 'c':
            import math
            q = Fraction(a.a[0])
            if f == 'floor':
                return R(math.floor(q))
            if f == 'ceil':
                return R(math.ceil(q))
            if f == 'trunc':
                return R(math.trunc(q))
            if f == 'round':
                return R(math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1))
            return R(round(q))
        if a.op in ('inf', 'nan'):
            return a
        if a.op == 'f' and a.a[0] == 'log2' and a.a[1].op == 'c' and f != 'round':
            k = ilog2(Fraction(a.a[1].a[0]))  # not a power of two, so the logarithm is strictly between k and k+1
            return R(k if f == 'floor' else k + 1 if f == 'ceil' else k if k >= 0 else k + 1)
        a = X.simp(a)
        t = X.toint(a)
        if t.__class__ is int:
            return R(t)
        tr = X.toreal(t)
        if f == 'round':
            h = X.toreal(X.toint(X.add(X.absr(a), X.R(Fraction(1, 2)))))
            return X.ite(X.lt(a, X.ZERO), X.neg(h), h)
        if f == 'trunc':
            return tr
        if f == 'floor':
            return X.ite(X.lt(a, tr), X.sub(tr, X.ONE), tr)
        if f == 'ceil':
            return X.ite(X.lt(tr, a), X.add(tr, X.ONE), tr)
        raise Unsupported(f)
    if f == 'hypot':
        return X.sqrt(X.add(X.mul(a, a), X.mul(v[1], v[1])))
    if f == 'atan2':
        return X.fn('atan2', a, v[1])
    if f == 'log2':
        if a.op == 'c' and a.a[0] > 0:
            q = Fraction(a.a[0])
            k = ilog2(q)
            if Fraction(2) ** k == q:
                return R(k)
        if a.op == 'c' and a.a[0] == 0:
            return X.NINF
        return X.fn('log2', a)
    if f == 'log10':
        return X.div(X.fn('log', a), X.fn('log', R(10)))
    if f == 'fmod':
        raise Unsupported('fmod')
    raise Unsupported(f)


def _mk(f):
    def h(x, st, fr, ins, v, args):
        if any(a is EX.UNDEF for a in v):
            return EX.UNDEF
        return fmath(x, st, f, v)
    return h


for _f in ('fabs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tanh', 'pow', 'fmax', 'fmin', 'floor', 'ceil', 'trunc',
           'round', 'hypot', 'atan2', 'acos', 'asin', 'atan', 'cbrt', 'log2', 'log10', 'sinh', 'cosh'):
    TABLE[_f] = _mk(_f)


# ------------------------------------------------------------------ allocation
@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
def m_new(x, st, fr, ins, v, args):
    n = x.conc(st, v[0])
    if n > (1 << 40):
        raise Unsupported('huge allocation')
    p = x.alloc(st, n, 'heap', 'heap block')
    for f in st.frames[-4:]:
        if '13_Bvector_base' in f.fn.name:
            # std::vector<bool> masks bits of words whose other bits are never read
            st.mem[p.obj].fill = 0
            break
    return p


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def m_new_al(x, st, fr, ins, v, args):
    n = x.conc(st, v[0])
    return x.alloc(st, n, 'heap', 'heap block')


@model('aligned_alloc')
def m_al_alloc(x, st, fr, ins, v, args):
    n = x.conc(st, v[1])
    return x.alloc(st, n, 'heap', 'heap block')


@model('posix_memalign', '_ZN6dealii9Utilities6System14posix_memalignEPPvmm')
def m_posix(x, st, fr, ins, v, args):
    n = x.conc(st, v[2])
    p = x.alloc(st, n, 'heap', 'heap block')
    x.store(st, PTR, p, v[0])
    return 0


@model('calloc')
def m_calloc(x, st, fr, ins, v, args):
    n = x.conc(st, v[0]) * x.conc(st, v[1])
    p = x.alloc(st, n, 'heap', 'heap block')
    st.mem[p.obj].fill = 0
    return p


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t',
       '_ZdaPvSt11align_val_t')
def m_del(x, st, fr, ins, v, args):
    p = v[0]
    if p is EX.UNDEF:
        x.fail(st, 'memory-safety', 'free of an uninitialised pointer')
    if p.obj == 0:
        return None
    o = st.mem.get(p.obj)
    if o is None:
        raise Unsupported('free of an unknown object')
    if not o.alive:
        x.fail(st, 'memory-safety', 'double free')
    if p.off != 0 or o.kind != 'heap':
        x.fail(st, 'memory-safety', 'free of a pointer that was not allocated')
    o = x.wobj(st, p.obj)
    o.alive = False
    o.cells = {}
    return None


@model('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def m_memcpy(x, st, fr, ins, v, args):
    copy(x, st, v[0], v[1], x.conc(st, v[2]))
    return v[0]


@model('memset')
def m_memset(x, st, fr, ins, v, args):
    setmem(x, st, v[0], v[1], x.conc(st, v[2]))
    return v[0]


@model('memcmp', 'bcmp')
def m_memcmp(x, st, fr, ins, v, args):
    n = x.conc(st, v[2])
    for i in range(n):
        a = x.load(st, I8, EX.Ptr(v[0].obj, v[0].off + i))
        b = x.load(st, I8, EX.Ptr(v[1].obj, v[1].off + i))
        if a.__class__ is not int or b.__class__ is not int:
            raise Unsupported('memcmp on symbolic data')
        if a != b:
            return (1 if a > b else -1) & EX.mask(32)
    return 0


@model('strlen')
def m_strlen(x, st, fr, ins, v, args):
    return len(cstr(x, st, v[0]))


@model('strcmp')
def m_strcmp(x, st, fr, ins, v, args):
    a, b = cstr(x, st, v[0]), cstr(x, st, v[1])
    return 0 if a == b else (1 if a > b else -1) & EX.mask(32)


@model('memchr')
def m_memchr(x, st, fr, ins, v, args):
    n = x.conc(st, v[2])
    for i in range(n):
        a = x.load(st, I8, EX.Ptr(v[0].obj, v[0].off + i))
        if a == (v[1] & 255):
            return EX.Ptr(v[0].obj, v[0].off + i)
    return EX.NULLP


# ------------------------------------------------------------------ C++ runtime
@model('__cxa_atexit', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_free_exception',
       '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def m_nop(x, st, fr, ins, v, args):
    return 0


@model('__cxa_guard_acquire')
def m_guard(x, st, fr, ins, v, args):
    a = x.load(st, I8, v[0])
    if a == 0:
        x.store(st, I8, 1, v[0])
        return 1
    return 0


@model('__cxa_allocate_exception')
def m_allocexc(x, st, fr, ins, v, args):
    return x.alloc(st, max(8, x.conc(st, v[0])), 'exc', 'exception object')


@model('_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z')
def m_to_xstring(x, st, fr, ins, v, args):
    # std::to_string(double): the text of a number is only used in messages; it is left empty
    s = v[0]
    x.store(st, PTR, EX.Ptr(s.obj, s.off + 16), s)
    x.store(st, I64, 0, EX.Ptr(s.obj, s.off + 8))
    x.store(st, I8, 0, EX.Ptr(s.obj, s.off + 16))


@model('__cxa_throw')
def m_throw(x, st, fr, ins, v, args):
    a = args[1][1]
    ti = a.name if a.__class__ is Glob else st.mem[v[1].obj].name.replace('extern ', '')
    x.throw(st, v[0], ti)
    return NORET


@model('__cxa_begin_catch')
def m_bcatch(x, st, fr, ins, v, args):
    st.caught.append(st.exc)
    return v[0]


@model('__cxa_get_exception_ptr')
def m_getexc(x, st, fr, ins, v, args):
    return v[0]


@model('__cxa_rethrow')
def m_rethrow(x, st, fr, ins, v, args):
    st.exc = st.caught[-1]
    x.unwind(st)
    return NORET


@model('abort', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual', '__assert_fail', 'exit',
       '__cxa_throw_bad_array_new_length', '_ZSt10unexpectedv', '__stack_chk_fail')
def m_abort(x, st, fr, ins, v, args):
    x.fail(st, 'abort', 'program termination reached')


STD_BASES = {
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTIN6dealii13ExceptionBaseE': ['_ZTISt9exception'],
    '_ZTIN6dealii18StandardExceptions10ExcMessageE': ['_ZTIN6dealii13ExceptionBaseE'],
}


def thrower(ti):
    def h(x, st, fr, ins, v, args):
        p = x.alloc(st, 16, 'exc', 'exception object')
        x.throw(st, p, ti)
        return NORET
    return h


for _n, _t in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
               ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
               ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error')):
    TABLE[_n] = thrower(_t)


@model('__dynamic_cast')
def m_dyncast(x, st, fr, ins, v, args):
    p = v[0]
    if p.obj == 0:
        return EX.NULLP
    vt = x.load(st, PTR, p)
    tio = x.load(st, PTR, EX.Ptr(vt.obj, vt.off - 8))
    top = x.load(st, I64, EX.Ptr(vt.obj, vt.off - 16))
    have = st.mem[tio.obj].name.replace('extern ', '')
    want = st.mem[v[2].obj].name.replace('extern ', '')
    if x.ti_match(st, have, want):
        if isinstance(top, EX.PInt):
            top = top.p.off  # inttoptr constant in the virtual table
        return EX.Ptr(p.obj, p.off + EX.sgn(top, 64))
    return EX.NULLP


# ------------------------------------------------------------------ red-black tree (shape only)
def _rp(x, st, p, o):
    return x.load(st, PTR, EX.Ptr(p.obj, p.off + o))


def _wp(x, st, p, o, q):
    x.store(st, PTR, q, EX.Ptr(p.obj, p.off + o))


def _same(a, b):
    return a.obj == b.obj and a.off == b.off


PAR, LEFT, RIGHT = 8, 16, 24


@model('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def m_rbins(x, st, fr, ins, v, args):
    left, n, p, h = v
    left = x.decide(st, left)
    _wp(x, st, n, PAR, p)
    _wp(x, st, n, LEFT, EX.NULLP)
    _wp(x, st, n, RIGHT, EX.NULLP)
    root = _same(p, h)
    x.store(st, I32, 1 if root else 0, n)
    if left:
        # also sets leftmost when p is the header
        lm = _rp(x, st, h, LEFT)
        _wp(x, st, p, LEFT, n)
        if root:
            _wp(x, st, h, PAR, n)
            _wp(x, st, h, RIGHT, n)
        elif _same(p, lm):
            _wp(x, st, h, LEFT, n)
    else:
        _wp(x, st, p, RIGHT, n)
        if _same(p, _rp(x, st, h, RIGHT)) and not root:
            _wp(x, st, h, RIGHT, n)
    return None


@model('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def m_rbinc(x, st, fr, ins, v, args):
    n = v[0]
    r = _rp(x, st, n, RIGHT)
    if r.obj:
        n = r
        while True:
            l = _rp(x, st, n, LEFT)
            if not l.obj:
                return n
            n = l
    y = _rp(x, st, n, PAR)
    while _same(n, _rp(x, st, y, RIGHT)):
        n = y
        y = _rp(x, st, y, PAR)
    if not _same(_rp(x, st, n, RIGHT), y):
        n = y
    return n


@model('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def m_rbdec(x, st, fr, ins, v, args):
    n = v[0]
    col = x.load(st, I32, n)
    par = _rp(x, st, n, PAR)
    if col == 0 and par.obj and _same(_rp(x, st, par, PAR), n):
        return _rp(x, st, n, RIGHT)
    l = _rp(x, st, n, LEFT)
    if l.obj:
        n = l
        while True:
            r = _rp(x, st, n, RIGHT)
            if not r.obj:
                return n
            n = r
    y = par
    while _same(n, _rp(x, st, y, LEFT)):
        n = y
        y = _rp(x, st, y, PAR)
    return y


@model('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def m_rberase(x, st, fr, ins, v, args):
    z, h = v
    l, r, p = _rp(x, st, z, LEFT), _rp(x, st, z, RIGHT), _rp(x, st, z, PAR)

    def repl(old, new):
        op = _rp(x, st, old, PAR)
        if _same(_rp(x, st, h, PAR), old):
            _wp(x, st, h, PAR, new)
        elif _same(_rp(x, st, op, LEFT), old):
            _wp(x, st, op, LEFT, new)
        else:
            _wp(x, st, op, RIGHT, new)
        if new.obj:
            _wp(x, st, new, PAR, op)

    lm, rm = _rp(x, st, h, LEFT), _rp(x, st, h, RIGHT)
    if _same(lm, z):
        _wp(x, st, h, LEFT, m_rbinc(x, st, fr, ins, [z], None))
    if _same(rm, z):
        _wp(x, st, h, RIGHT, m_rbdec(x, st, fr, ins, [z], None) if not _same(lm, z) or l.obj else (
            h if not l.obj and _same(_rp(x, st, h, PAR), z) else p))
    if l.obj and r.obj:
        y = r
        while _rp(x, st, y, LEFT).obj:
            y = _rp(x, st, y, LEFT)
        if not _same(_rp(x, st, y, PAR), z):
            repl(y, _rp(x, st, y, RIGHT))
            _wp(x, st, y, RIGHT, r)
            _wp(x, st, r, PAR, y)
        repl(z, y)
        _wp(x, st, y, LEFT, l)
        _wp(x, st, l, PAR, y)
    elif l.obj:
        repl(z, l)
    else:
        repl(z, r)
    root = _rp(x, st, h, PAR)
    if root.obj:
        x.store(st, I32, 1, root)
    else:
        _wp(x, st, h, LEFT, h)
        _wp(x, st, h, RIGHT, h)
    return z


# ------------------------------------------------------------------ list / hashtable
@model('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def m_hook(x, st, fr, ins, v, args):
    n, pos = v
    prev = _rp(x, st, pos, 8)
    _wp(x, st, n, 0, pos)
    _wp(x, st, n, 8, prev)
    _wp(x, st, prev, 0, n)
    _wp(x, st, pos, 8, n)


@model('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def m_unhook(x, st, fr, ins, v, args):
    n = v[0]
    nx, pv = _rp(x, st, n, 0), _rp(x, st, n, 8)
    _wp(x, st, pv, 0, nx)
    _wp(x, st, nx, 8, pv)


@model('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def m_transfer(x, st, fr, ins, v, args):
    t, f, l = v
    if _same(t, l):
        return
    _wp(x, st, _rp(x, st, l, 8), 0, t)
    _wp(x, st, _rp(x, st, f, 8), 0, l)
    _wp(x, st, _rp(x, st, t, 8), 0, f)
    tmp = _rp(x, st, t, 8)
    _wp(x, st, t, 8, _rp(x, st, l, 8))
    _wp(x, st, l, 8, _rp(x, st, f, 8))
    _wp(x, st, f, 8, tmp)


def _prime(n):
    n = max(2, n)
    while any(n % d == 0 for d in range(2, int(n ** 0.5) + 1)):
        n += 1
    return n


@model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def m_nextbkt(x, st, fr, ins, v, args):
    n = x.conc(st, v[1])
    b = 1 if n <= 1 else _prime(max(n, 13 if n < 13 else n))
    x.store(st, I64, b, EX.Ptr(v[0].obj, v[0].off + 8))
    return b


@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def m_needrehash(x, st, fr, ins, v, args):
    nxt = x.load(st, I64, EX.Ptr(v[0].obj, v[0].off + 8))
    b, e, i = [x.conc(st, q) for q in v[1:]]
    if e + i > nxt or (b == 1 and e + i >= 1 and nxt == 0):
        nb = _prime(max(e + i + 1, 2 * b, 11))
        x.store(st, I64, nb, EX.Ptr(v[0].obj, v[0].off + 8))
        return [True, nb]
    return [False, 0]


@model('_ZSt11_Hash_bytesPKvmm')
def m_hash(x, st, fr, ins, v, args):
    n = x.conc(st, v[1])
    h = 1469598103934665603
    for i in range(n):
        a = x.load(st, I8, EX.Ptr(v[0].obj, v[0].off + i))
        if a.__class__ is not int:
            raise Unsupported('hash of symbolic data')
        h = ((h ^ a) * 1099511628211) & EX.mask(64)
    return h


# ------------------------------------------------------------------ spec interface
def drawname(st, nm):
    n = '%s@%d' % (nm, st.draws)
    st.draws += 1
    return n


@model('hv_real')
def hv_real(x, st, fr, ins, v, args):
    e = X.var(drawname(st, cstr(x, st, v[0])), 'R')
    st.inputs.append(e)
    return e


@model('hv_int')
def hv_int(x, st, fr, ins, v, args):
    lo, hi = EX.sgn(v[1], 64), EX.sgn(v[2], 64)
    e = X.mk('v', (drawname(st, cstr(x, st, v[0])),), 'I')
    e.iv = (lo, hi)
    st.inputs.append(e)
    if lo == hi:
        x.assume(st, X.ieq(e, lo)) if False else None
        return lo & EX.mask(64)
    return e


@model('hv_pick')
def hv_pick(x, st, fr, ins, v, args):
    lo, hi = EX.sgn(v[1], 64), EX.sgn(v[2], 64)
    nm = '%s@%d' % (cstr(x, st, v[0]), st.draws)
    e = X.mk('v', (nm,), 'I')
    e.iv = (lo, hi)
    b = x.bound(st, e)
    if b is None:
        if lo == hi:
            b = lo
        else:
            raise EX.Fork([(X.ieq(e, k), e, k) for k in range(lo, hi + 1)])
    st.draws += 1
    st.inputs.append(e)
    return b & EX.mask(64)


@model('hv_bool')
def hv_bool(x, st, fr, ins, v, args):
    e = X.var(drawname(st, cstr(x, st, v[0])), 'B')
    st.inputs.append(e)
    return e


def tobool(x, st, c):
    if c is EX.UNDEF:
        x.fail(st, 'memory-safety', 'specification depends on an uninitialised value')
    if c.__class__ is int:
        return bool(c)
    if c.__class__ is E and c.sort == 'I':
        return X.bnot(X.ieq(c, 0))
    return c


@model('hv_assume')
def hv_assume(x, st, fr, ins, v, args):
    c = tobool(x, st, v[0])
    if c is True:
        return None
    if c is False or not x.feas(st, c):
        raise EX.PathEnd()
    x.assume(st, c)
    return None


def oblige(x, st, kind, label, a, b):
    o = EX.Obligation(label, kind, list(st.pc), a, b, x.curloc(st), list(st.inputs))
    x.obls.append(o)


@model('hv_check')
def hv_check(x, st, fr, ins, v, args):
    c = tobool(x, st, v[0])
    oblige(x, st, 'bool', cstr(x, st, v[1]), c, None)
    return None


@model('hv_lemma')
def hv_lemma(x, st, fr, ins, v, args):
    c = tobool(x, st, v[0])
    oblige(x, st, 'bool', cstr(x, st, v[1]), c, None)
    x.assume(st, c)
    return None


@model('hv_check_eq')
def hv_check_eq(x, st, fr, ins, v, args):
    lab = cstr(x, st, v[2])
    if v[0] is EX.UNDEF or v[1] is EX.UNDEF:
        x.fail(st, 'memory-safety', 'uninitialised result in: ' + lab)
    oblige(x, st, 'eq', lab, v[0], v[1])
    return None


@model('hv_check_le')
def hv_check_le(x, st, fr, ins, v, args):
    lab = cstr(x, st, v[2])
    if v[0] is EX.UNDEF or v[1] is EX.UNDEF:
        x.fail(st, 'memory-safety', 'uninitialised result in: ' + lab)
    oblige(x, st, 'bool', lab, X.le(v[0], v[1]), None)
    return None


@model('hv_check_ieq')
def hv_check_ieq(x, st, fr, ins, v, args):
    lab = cstr(x, st, v[2])
    if v[0] is EX.UNDEF or v[1] is EX.UNDEF:
        x.fail(st, 'memory-safety', 'uninitialised result in: ' + lab)
    oblige(x, st, 'bool', lab, x.icmp('eq', I64, v[0], v[1], st), None)
    return None


@model('hv_diff')
def hv_diff(x, st, fr, ins, v, args):
    if v[0] is EX.UNDEF or v[1] is EX.UNDEF:
        x.fail(st, 'memory-safety', 'uninitialised result differentiated')
    if v[1].op != 'v':
        raise Unsupported('derivative with respect to a non-variable')
    try:
        return X.diff(v[0], v[1])
    except NotImplementedError as ex:
        raise Unsupported(str(ex))


@model('hv_cover')
def hv_cover(x, st, fr, ins, v, args):
    st.covers.append(cstr(x, st, v[0]))
    return None


@model('hv_symbolic')
def hv_symbolic(x, st, fr, ins, v, args):
    return 1


@model('hv_fail')
def hv_fail(x, st, fr, ins, v, args):
    x.fail(st, 'contract', cstr(x, st, v[0]))


# real-number predicates evaluated without rounding slack
@model('hv_close')
def hv_close(x, st, fr, ins, v, args):
    return X.eq(v[0], v[1])


# ------------------------------------------------------------------ text of numbers
TEXTS = []
_num = re.compile(r'[ \t\n\v\f\r]*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?))')
_tok = re.compile(r'[ \t\n\v\f\r]*([+-]?)#(\d+);')


@model('hv_text')
def hv_text(x, st, fr, ins, v, args):
    # the text of a real number: a token that only strtod gives a meaning to
    TEXTS.append(v[1])
    for i, c in enumerate('#%d;' % (len(TEXTS) - 1)):
        x.store(st, I8, ord(c), EX.Ptr(v[0].obj, v[0].off + i))
    x.store(st, I8, 0, EX.Ptr(v[0].obj, v[0].off + i + 1))


@model('strtod')
def m_strtod(x, st, fr, ins, v, args):
    t = cstr(x, st, v[0])
    m = _tok.match(t)
    if m:
        r = TEXTS[int(m.group(2))]
        if m.group(1) == '-':
            r = X.neg(r)
    else:
        m = _num.match(t)
        r = X.R(Fraction(m.group(1)) if m else Fraction(0))
    if v[1] is not None and v[1] != EX.NULLP:
        x.store(st, PTR, EX.Ptr(v[0].obj, v[0].off + (m.end() if m else 0)), v[1])
    return r


@model('rand')
def m_rand(x, st, fr, ins, v, args):
    # any value in [0, RAND_MAX]
    e = X.mk('v', (drawname(st, 'rand'),), 'I')
    e.iv = (0, 2147483647)
    st.inputs.append(e)
    return e


@model('__errno_location')
def m_errno(x, st, fr, ins, v, args):
    p = st.globs.get(' errno')
    if p is None:
        p = st.globs[' errno'] = x.alloc(st, 4, 'global', 'errno')
        x.store(st, I32, 0, p)
    return p


# ------------------------------------------------------------------ fallbacks
PATTERNS = [
    (re.compile(r'dealii::StandardExceptions::\w+::(\w+)\(|dealii::ExceptionBase::|dealii::Subscriptor::~Subscriptor|dealii::deal_II_exceptions::(disable|internals::set)'), 'nop'),
    (re.compile(r'^std::exception::|^std::(logic_error|runtime_error|bad_alloc|length_error|out_of_range|invalid_argument)::'), 'nop'),
]


def lookup(x, name):
    d = demangle(name)
    for rx, k in PATTERNS:
        if rx.search(d):
            if k == 'nop':
                return lambda x, st, fr, ins, v, args: (v[0] if v else None)
    return None
