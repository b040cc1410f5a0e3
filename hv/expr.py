"""Hash-consed expressions over the reals / integers / booleans, differentiation,
numeric evaluation and the rational-function normal form used to decide identities.

Doubles are interpreted as real numbers (this is the declared idealisation).
"""
from fractions import Fraction
import math

_tab = {}
_next = [0]


class E:
    __slots__ = ('op', 'a', 'sort', 'id', 'hasite', 'iv')

    def __repr__(self):
        return show(self)


def mk(op, a, sort):
    key = (op, sort) + tuple((x.id, 'E') if x.__class__ is E else x for x in a)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        e.sort = sort
        e.id = _next[0]
        e.iv = None
        _next[0] += 1
        h = (op == 'ite')
        if not h:
            for x in a:
                if x.__class__ is E and x.hasite:
                    h = True
                    break
        e.hasite = h
        _tab[key] = e
    return e


def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    if e.op == 'c':
        v = e.a[0]
        return str(v)
    if e.op == 'v':
        return e.a[0]
    if d > 8:
        return '...'
    s = [show(x, d + 1) for x in e.a]
    if e.op in ('+', '*', '/', '<', '<=', '='):
        return '(' + (' ' + e.op + ' ').join(s) + ')'
    return e.op + '(' + ', '.join(s) + ')'


# ------------------------------------------------------------------ reals
def R(x):
    if x.__class__ is E:
        return x
    if isinstance(x, Fraction):
        if x.denominator == 1:
            x = x.numerator
        return mk('c', (x,), 'R')
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return mk('c', (x,), 'R')
    if isinstance(x, float):
        return R(ideal(x))
    raise TypeError(x)


def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


_ideal = {}


def ideal(v):
    """The real number a double literal stands for: the simplest fraction with a
    denominator up to 1000 that rounds to it, else its shortest decimal."""
    r = _ideal.get(v)
    if r is None:
        if v != v or v in (float('inf'), float('-inf')):
            r = v
            raise ValueError('non-finite')
        f = Fraction(v)
        if f.denominator <= 4096 or abs(v) >= 2.0 ** 53:
            r = f
        else:
            c = f.limit_denominator(1000)
            if c != 0 and float(c) == v:
                r = c
            else:
                r = Fraction(repr(v))
        _ideal[v] = r
    return r


ZERO = R(0)
ONE = R(1)
PINF = mk('inf', ('+',), 'R')
NINF = mk('inf', ('-',), 'R')
NAN = mk('nan', (), 'R')


def var(name, sort='R'):
    return mk('v', (name,), sort)


def isc(e):
    return e.op == 'c'


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return R(Fraction(a.a[0] + b.a[0]))
        if a.a[0] == 0:
            return b
    elif b.op == 'c' and b.a[0] == 0:
        return a
    if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if a.op == 'inf' and b.op == 'inf':
            return a if a is b else NAN
        return a if a.op == 'inf' else b
    if a.op == '*' and b.op == '*' and a.a[0].op == 'c' and b.a[0].op == 'c' and a.a[1] is b.a[1]:
        return mul(R(Fraction(a.a[0].a[0] + b.a[0].a[0])), a.a[1])
    if b.op == '*' and b.a[0].op == 'c' and b.a[1] is a:
        return mul(R(Fraction(b.a[0].a[0] + 1)), a)
    if a.op == '*' and a.a[0].op == 'c' and a.a[1] is b:
        return mul(R(Fraction(a.a[0].a[0] + 1)), b)
    if a.id > b.id:
        a, b = b, a
    return mk('+', (a, b), 'R')


def neg(a):
    if a.op == 'inf':
        return NINF if a is PINF else PINF
    return mul(R(-1), a)


def sub(a, b):
    if a is b and a.op not in ('inf', 'nan'):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        v = a.a[0]
        if b.op == 'c':
            return R(Fraction(v * b.a[0]))
        if b.op in ('inf', 'nan'):
            if b.op == 'nan' or v == 0:
                return NAN
            return b if v > 0 else neg(b)
        if v == 0:
            return ZERO
        if v == 1:
            return b
        if b.op == '*' and b.a[0].op == 'c':
            return mul(R(Fraction(v * b.a[0].a[0])), b.a[1])
        return mk('*', (a, b), 'R')
    if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        return mk('infarith', (a, b), 'R')
    # pull constants out
    if a.op == '*' and a.a[0].op == 'c':
        return mul(a.a[0], mul(a.a[1], b))
    if b.op == '*' and b.a[0].op == 'c':
        return mul(b.a[0], mul(a, b.a[1]))
    if a.id > b.id:
        a, b = b, a
    return mk('*', (a, b), 'R')


def div(a, b):
    if b.op == 'c':
        v = b.a[0]
        if v == 0:
            if a.op == 'c':
                if a.a[0] == 0:
                    return NAN
                return PINF if a.a[0] > 0 else NINF
            return mk('/', (a, b), 'R')
        return mul(R(Fraction(1) / v), a)
    if b.op == 'inf':
        return ZERO if a.op != 'inf' else NAN
    if a.op == 'c' and a.a[0] == 0:
        return ZERO
    if a.op in ('inf', 'nan') or b.op == 'nan':
        return mk('infarith', (a, b), 'R')
    if a is b:
        return ONE
    return mk('/', (a, b), 'R')


def powi(x, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(x, -n))
    r = None
    p = x
    while n:
        if n & 1:
            r = p if r is None else mul(r, p)
        n >>= 1
        if n:
            p = mul(p, p)
    return r


def isqrt_frac(v):
    v = Fraction(v)
    if v < 0:
        return None
    n = math.isqrt(v.numerator)
    d = math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def sqrt(x):
    if x.op == 'c':
        r = isqrt_frac(x.a[0])
        if r is not None:
            return R(r)
        if x.a[0] < 0:
            return NAN
    if x.op == '*' and x.a[0] is x.a[1]:
        return absr(x.a[0])
    if x is PINF:
        return PINF
    return mk('sqrt', (x,), 'R')


def absr(x):
    if x.op == 'c':
        return R(abs(Fraction(x.a[0])))
    if x.op == 'inf':
        return PINF
    if x.op == 'sqrt':
        return x
    return ite(lt(x, ZERO), neg(x), x)


def fn(name, *args):
    if name == 'exp' and args[0] is ZERO:
        return ONE
    if name == 'log' and args[0] is ONE:
        return ZERO
    if name == 'sin' and args[0] is ZERO:
        return ZERO
    if name == 'cos' and args[0] is ZERO:
        return ONE
    if name == 'log2':
        args = (simp(args[0]),)
    return mk('f', (name,) + args, 'R')


# ------------------------------------------------------------------ booleans
def is_conc_bool(b):
    return b is True or b is False


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.op == 'not':
        return b.a[0]
    if b.op == '<' and b.a[0].sort == 'R':
        return mk('<=', (b.a[1], b.a[0]), 'B')
    if b.op == '<=' and b.a[0].sort == 'R':
        return mk('<', (b.a[1], b.a[0]), 'B')
    return mk('not', (b,), 'B')


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is b:
        return a
    if bnot(a) is b:
        return False
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 'B')


def bor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if a is b:
        return a
    if bnot(a) is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return mk('or', (a, b), 'B')


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a.__class__ is not E and b.__class__ is not E and a == b and type(a) == type(b):
        return a
    if is_conc_bool(a) or is_conc_bool(b) or (a.__class__ is E and a.sort == 'B'):
        return bor(band(c, a), band(bnot(c), b))
    if a.__class__ is int:
        a = I(a)
    if b.__class__ is int:
        b = I(b)
    if c.op == 'not':
        return ite(c.a[0], b, a)
    return mk('ite', (c, a, b), a.sort)


def _sgn_const(d):
    return d.a[0]


def lt(a, b):
    if a.op == 'c' and b.op == 'c':
        return a.a[0] < b.a[0]
    if a is b:
        return False
    if a.op == 'nan' or b.op == 'nan':
        return False
    if a.op == 'inf' or b.op == 'inf':
        if a is b:
            return False
        return a is NINF or b is PINF
    if a.sort == 'R':
        s = _trivial_sign(a, b)
        if s is not None:
            return s < 0
    return mk('<', (a, b), 'B')


def le(a, b):
    if a.op == 'c' and b.op == 'c':
        return a.a[0] <= b.a[0]
    if a.op == 'nan' or b.op == 'nan':
        return False
    if a is b:
        return True
    if a.op == 'inf' or b.op == 'inf':
        return a is NINF or b is PINF
    if a.sort == 'R':
        if a is ZERO and b.op == 'sqrt':
            return True
        if a is ZERO and b.op == '*' and b.a[0] is b.a[1]:
            return True
        s = _trivial_sign(a, b)
        if s is not None:
            return s <= 0
    return mk('<=', (a, b), 'B')


def _trivial_sign(a, b):
    """sign of a-b when it is a plain constant"""
    d = sub(a, b)
    if d.op == 'c':
        return (d.a[0] > 0) - (d.a[0] < 0)
    return None


def eq(a, b):
    if a is b:
        return a.op != 'nan'
    if a.op == 'c' and b.op == 'c':
        return a.a[0] == b.a[0]
    if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        return False
    if a.sort == 'R':
        s = _trivial_sign(a, b)
        if s is not None:
            return s == 0
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), 'B')


# ------------------------------------------------------------------ integers
def I(x):
    if x.__class__ is E:
        return x
    return mk('c', (int(x),), 'I')


def unI(e):
    if e.__class__ is E and e.op == 'c':
        return e.a[0]
    return e


def interval(e):
    """(lo, hi) with None for unbounded; integers only"""
    if e.__class__ is not E:
        return (e, e)
    if e.iv is not None:
        return e.iv
    op = e.op
    r = (None, None)
    if op == 'c':
        r = (e.a[0], e.a[0])
    elif op == 'i+':
        a, b = interval(e.a[0]), interval(e.a[1])
        r = (None if a[0] is None or b[0] is None else a[0] + b[0],
             None if a[1] is None or b[1] is None else a[1] + b[1])
    elif op == 'i*':
        a, b = interval(e.a[0]), interval(e.a[1])
        if None not in a and None not in b:
            c = [x * y for x in a for y in b]
            r = (min(c), max(c))
        elif a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            r = (a[0] * b[0], None)
    elif op == 'ite':
        a, b = interval(e.a[1]), interval(e.a[2])
        r = (None if a[0] is None or b[0] is None else min(a[0], b[0]),
             None if a[1] is None or b[1] is None else max(a[1], b[1]))
    elif op == 'imod':
        b = interval(e.a[1])
        if b[0] is not None and b[0] > 0 and b[1] is not None:
            r = (0, b[1] - 1)
    elif op == 'idiv':
        a = interval(e.a[0])
        b = interval(e.a[1])
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] > 0:
            r = (0, a[1])
    e.iv = r
    return r


def iadd(a, b):
    a, b = unI(a), unI(b)
    if a.__class__ is int and b.__class__ is int:
        return a + b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'i+' and a.a[1].op == 'c':
            return iadd(a.a[0], a.a[1].a[0] + b)
        return mk('i+', (a, I(b)), 'I')
    if a.op == 'i+' and a.a[1].op == 'c':
        return iadd(iadd(a.a[0], b), a.a[1].a[0])
    if b.op == 'i+' and b.a[1].op == 'c':
        return iadd(iadd(a, b.a[0]), b.a[1].a[0])
    if a.id > b.id:
        a, b = b, a
    if b.op == 'i*' and b.a[1] is I(-1) and b.a[0] is a:
        return 0
    if a.op == 'i*' and a.a[1] is I(-1) and a.a[0] is b:
        return 0
    return mk('i+', (a, b), 'I')


def imul(a, b):
    a, b = unI(a), unI(b)
    if a.__class__ is int and b.__class__ is int:
        return a * b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'i*' and a.a[1].op == 'c':
            return imul(a.a[0], a.a[1].a[0] * b)
        if a.op == 'i+':
            return iadd(imul(a.a[0], b), imul(a.a[1], b))
        return mk('i*', (a, I(b)), 'I')
    if a.id > b.id:
        a, b = b, a
    return mk('i*', (a, b), 'I')


def isub(a, b):
    return iadd(a, imul(b, -1))


def idiv(a, b):
    a, b = unI(a), unI(b)
    if a.__class__ is int and b.__class__ is int and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if b.__class__ is int and b == 1:
        return a
    if b.__class__ is int and a.__class__ is E and a.op == 'i*' and a.a[1].op == 'c' and a.a[1].a[0] == b:
        return a.a[0]
    return mk('idiv', (I(a), I(b)), 'I')


def imod(a, b):
    a, b = unI(a), unI(b)
    if a.__class__ is int and b.__class__ is int and b != 0:
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    return mk('imod', (I(a), I(b)), 'I')


def ilt(a, b):
    a, b = unI(a), unI(b)
    if a.__class__ is int and b.__class__ is int:
        return a < b
    if a is b:
        return False
    x, y = interval(a), interval(b)
    if x[1] is not None and y[0] is not None and x[1] < y[0]:
        return True
    if x[0] is not None and y[1] is not None and x[0] >= y[1]:
        return False
    d = isub(a, b)
    if d.__class__ is int:
        return d < 0
    return mk('<', (I(a), I(b)), 'B')


def ile(a, b):
    r = ilt(b, a)
    return bnot(r)


def ieq(a, b):
    a, b = unI(a), unI(b)
    if a.__class__ is int and b.__class__ is int:
        return a == b
    if a is b:
        return True
    x, y = interval(a), interval(b)
    if x[1] is not None and y[0] is not None and x[1] < y[0]:
        return False
    if x[0] is not None and y[1] is not None and x[0] > y[1]:
        return False
    d = isub(a, b)
    if d.__class__ is int:
        return d == 0
    a, b = I(a), I(b)
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), 'B')


def toreal(i):
    i = unI(i)
    if i.__class__ is int:
        return R(i)
    return mk('toreal', (i,), 'R')


def toint(r):
    """C truncation of a real"""
    if r.op == 'c':
        v = Fraction(r.a[0])
        q = abs(v.numerator) // v.denominator
        return q if v >= 0 else -q
    if r.op == 'toreal':
        return r.a[0]
    if r.op == 'ite':
        return ite(r.a[0], toint(r.a[1]), toint(r.a[2]))
    if integral(r) is not None:
        return integral(r)
    s = simp(r)
    if s is not r:
        return toint(s)
    return mk('toint', (r,), 'I')


def integral(r):
    """the integer term a real term is equal to by its form, or None"""
    if r.op == 'c':
        v = Fraction(r.a[0])
        return v.numerator if v.denominator == 1 else None
    if r.op == 'toreal':
        return r.a[0]
    if r.op in ('+', '*'):
        a, b = integral(r.a[0]), integral(r.a[1])
        if a is None or b is None:
            return None
        return iadd(a, b) if r.op == '+' else imul(a, b)
    if r.op == 'ite':
        a, b = integral(r.a[1]), integral(r.a[2])
        return None if a is None or b is None else ite(r.a[0], a, b)
    return None


_simp = {}
_simp_nf = []


def simp(e):
    """the quotient in lowest known terms, rebuilt from its normal form, when that is small"""
    if e.op not in ('+', '*', '/') or e.hasite:
        return e
    r = _simp.get(e.id)
    if r is not None:
        return r
    if not _simp_nf:
        _simp_nf.append(NF())
    nfe = _simp_nf[0]
    r = e
    try:
        n, d = nfe.nf(e)

        def back(p):
            t = ZERO
            for m, c in sorted(p.items()):
                u = R(c)
                for v, k in m:
                    for _ in range(k):
                        u = mul(u, nfe.atoms[v])
                t = add(t, u)
            return t
        if len(n) <= 6 and sum(d.values()) <= 6 and all(len(nfe.factors[k]) <= 4 for k in d):
            r = back(n)
            for k, c in sorted(d.items()):
                for _ in range(c):
                    r = div(r, back(nfe.factors[k]))
    except (TooBig, ZeroDivisionError, NotImplementedError, RecursionError):
        r = e
    _simp[e.id] = r
    _simp[r.id] = r
    return r


# ------------------------------------------------------------------ traversal
def variables(e, acc=None, seen=None):
    if acc is None:
        acc = {}
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.__class__ is not E or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            acc[x.a[0]] = x
        else:
            st.extend(x.a)
    return acc


def rebuild(e, a):
    op = e.op
    if op == '+':
        return add(*a)
    if op == '*':
        return mul(*a)
    if op == '/':
        return div(*a)
    if op == 'sqrt':
        return sqrt(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'f':
        return fn(*a)
    if op == '<':
        return lt(*a) if e.a[0].sort == 'R' else ilt(*a)
    if op == '<=':
        return le(*a) if e.a[0].sort == 'R' else ile(*a)
    if op == '=':
        return eq(*a) if e.a[0].sort == 'R' else ieq(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'and':
        return band(*a)
    if op == 'or':
        return bor(*a)
    if op == 'i+':
        return iadd(*a)
    if op == 'i*':
        return imul(*a)
    if op == 'idiv':
        return idiv(*a)
    if op == 'imod':
        return imod(*a)
    if op == 'toreal':
        return toreal(*a)
    if op == 'toint':
        return toint(*a)
    return mk(op, tuple(I(x) if x.__class__ is int and e.op not in ('c',) else x for x in a), e.sort)


def subst(e, mp, memo=None):
    """mp: {id: replacement}"""
    if memo is None:
        memo = {}
    if e.__class__ is not E:
        return e
    r = mp.get(e.id)
    if r is not None:
        return r
    if e.id in mp:
        return mp[e.id]
    if e.op in ('c', 'v', 'inf', 'nan'):
        return e
    r = memo.get(e.id)
    if r is None:
        na = tuple(subst(x, mp, memo) if x.__class__ is E else x for x in e.a)
        if all(x is y for x, y in zip(na, e.a)):
            r = e
        else:
            r = rebuild(e, na)
        memo[e.id] = r
    return r


# ------------------------------------------------------------------ derivative
def diff(e, x, memo=None):
    if memo is None:
        memo = {}
    if e.__class__ is not E:
        return ZERO
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    if e is x:
        r = ONE
    elif op in ('c', 'v', 'inf', 'nan', 'toreal'):
        r = ZERO
    elif op == '+':
        r = add(diff(e.a[0], x, memo), diff(e.a[1], x, memo))
    elif op == '*':
        a, b = e.a
        r = add(mul(diff(a, x, memo), b), mul(a, diff(b, x, memo)))
    elif op == '/':
        a, b = e.a
        da, db = diff(a, x, memo), diff(b, x, memo)
        r = div(da, b)
        if db is not ZERO:
            r = sub(r, div(mul(a, db), mul(b, b)))
    elif op == 'sqrt':
        d = diff(e.a[0], x, memo)
        r = ZERO if d is ZERO else div(d, mul(R(2), e))
    elif op == 'ite':
        r = ite(e.a[0], diff(e.a[1], x, memo), diff(e.a[2], x, memo))
    elif op == 'f':
        nm = e.a[0]
        args = e.a[1:]
        ds = [diff(y, x, memo) for y in args]
        if all(d is ZERO for d in ds):
            r = ZERO
        elif nm == 'exp':
            r = mul(e, ds[0])
        elif nm == 'log':
            r = div(ds[0], args[0])
        elif nm == 'sin':
            r = mul(fn('cos', args[0]), ds[0])
        elif nm == 'cos':
            r = neg(mul(fn('sin', args[0]), ds[0]))
        elif nm == 'tanh':
            r = mul(sub(ONE, mul(e, e)), ds[0])
        elif nm == 'pow' and ds[1] is ZERO:
            r = mul(mul(args[1], fn('pow', args[0], sub(args[1], ONE))), ds[0])
        else:
            raise NotImplementedError('d ' + nm)
    else:
        raise NotImplementedError('d ' + op)
    memo[e.id] = r
    return r


# ------------------------------------------------------------------ evaluation
def evalf(e, env, memo=None):
    if memo is None:
        memo = {}
    if e.__class__ is not E:
        return e
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op == 'c':
        r = float(e.a[0]) if e.sort == 'R' else e.a[0]
    elif op == 'v':
        r = env[e.a[0]]
    elif op == 'inf':
        r = float('inf') if e.a[0] == '+' else float('-inf')
    elif op == 'nan':
        r = float('nan')
    elif op == 'ite':
        r = evalf(e.a[1] if evalf(e.a[0], env, memo) else e.a[2], env, memo)
    elif op == 'f':
        args = [evalf(x, env, memo) for x in e.a[1:]]
        r = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tanh': math.tanh,
             'pow': math.pow, 'log2': math.log2}.get(e.a[0])
        if r is None:
            raise KeyError('uf ' + e.a[0])
        r = r(*args)
    else:
        a = [evalf(x, env, memo) for x in e.a]
        if op == '+':
            r = a[0] + a[1]
        elif op == '*':
            r = a[0] * a[1]
        elif op == '/':
            r = a[0] / a[1]
        elif op == 'sqrt':
            r = math.sqrt(a[0])
        elif op == '<':
            r = a[0] < a[1]
        elif op == '<=':
            r = a[0] <= a[1]
        elif op == '=':
            r = a[0] == a[1]
        elif op == 'not':
            r = not a[0]
        elif op == 'and':
            r = a[0] and a[1]
        elif op == 'or':
            r = a[0] or a[1]
        elif op == 'i+':
            r = a[0] + a[1]
        elif op == 'i*':
            r = a[0] * a[1]
        elif op == 'idiv':
            r = int(a[0] / a[1])
        elif op == 'imod':
            r = int(math.fmod(a[0], a[1]))
        elif op == 'toreal':
            r = float(a[0])
        elif op == 'toint':
            r = int(a[0])
        else:
            raise KeyError(op)
    memo[e.id] = r
    return r


# ------------------------------------------------------------------ normal form
class TooBig(Exception):
    pass


class Deadline(Exception):
    pass


LIMIT = [400000]


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 40 * LIMIT[0]:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = r.get(m)
            if c is None:
                r[m] = c1 * c2
            else:
                c = c + c1 * c2
                if c == 0:
                    del r[m]
                else:
                    r[m] = c
    if len(r) > LIMIT[0]:
        raise TooBig()
    return r


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b) if a <= b else (b, a)
    r = _mm.get(k)
    if r is None:
        d = dict(a)
        for v, n in b:
            d[v] = d.get(v, 0) + n
        r = tuple(sorted(d.items()))
        if len(_mm) > 2000000:
            _mm.clear()
        _mm[k] = r
    return r


def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        x = r.get(m)
        if x is None:
            r[m] = s * c
        else:
            x = x + s * c
            if x == 0:
                del r[m]
            else:
                r[m] = x
    return r


def norm_c(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c


class NF:
    """Normal form engine: e -> (num poly, {factor key: exponent})."""

    def __init__(self):
        self.memo = {}
        self.atoms = {}      # atom id -> E
        self.factors = {}    # key -> poly
        self.fkey = {}

    def atom(self, e):
        self.atoms[e.id] = e
        return ({((e.id, 1),): 1}, {})

    def factor(self, p):
        """split poly p = content * monomial * rest ; returns (content, mono factors, keys)"""
        # monomial content
        items = list(p.items())
        common = None
        for m, c in items:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {v: min(n, d[v]) for v, n in common.items() if v in d}
            if not common:
                break
        keys = {}
        if common:
            for v, n in common.items():
                k = self._fk({((v, 1),): 1})
                keys[k] = keys.get(k, 0) + n
            q = {}
            for m, c in items:
                q[tuple((v, n - common.get(v, 0)) for v, n in m if n - common.get(v, 0) > 0)] = c
            p = q
        # leading coefficient
        lead = max(p.keys())
        lc = p[lead]
        if len(p) == 1:
            return lc, keys
        if lc != 1:
            p = {m: norm_c(Fraction(c) / lc) for m, c in p.items()}
        k = self._fk(p)
        keys[k] = keys.get(k, 0) + 1
        return lc, keys

    def _fk(self, p):
        fs = frozenset(p.items())
        k = self.fkey.get(fs)
        if k is None:
            k = len(self.fkey)
            self.fkey[fs] = k
            self.factors[k] = p
        return k

    def radd(self, x, y):
        n1, d1 = x
        n2, d2 = y
        if not n1:
            return y
        if not n2:
            return x
        if d1 == d2:
            return (padd(n1, n2), d1)
        den = dict(d1)
        for k, n in d2.items():
            den[k] = max(den.get(k, 0), n)
        for k, n in den.items():
            for _ in range(n - d1.get(k, 0)):
                n1 = pmul(n1, self.factors[k])
            for _ in range(n - d2.get(k, 0)):
                n2 = pmul(n2, self.factors[k])
        r = padd(n1, n2)
        return (r, den if r else {})

    def rmul(self, x, y):
        n = pmul(x[0], y[0])
        if not n:
            return ({}, {})
        d = dict(x[1])
        for k, c in y[1].items():
            d[k] = d.get(k, 0) + c
        return self.cancel(n, d)

    def cancel(self, n, d):
        # cancel single-atom factors only (cheap)
        if d:
            for k in list(d):
                f = self.factors[k]
                if len(f) == 1:
                    (m, c), = f.items()
                    v = m[0][0]
                    mn = min((dict(mm).get(v, 0) for mm in n), default=0)
                    t = min(mn, d[k])
                    if t:
                        n = {tuple((a, e - t if a == v else e) for a, e in mm if not (a == v and e == t)): c for mm, c in n.items()}
                        d = dict(d)
                        d[k] -= t
                        if not d[k]:
                            del d[k]
                elif len(n) >= len(f):
                    # exact equality with the factor (up to a constant)
                    if len(n) == len(f):
                        lead = max(n.keys())
                        if lead in f:
                            q = Fraction(n[lead]) / f[lead]
                            if all(m in f and n[m] == q * f[m] for m in n):
                                d = dict(d)
                                d[k] -= 1
                                if not d[k]:
                                    del d[k]
                                n = {(): norm_c(q)}
        return (n, d)

    def rinv(self, x):
        n, d = x
        if not n:
            raise ZeroDivisionError
        lc, keys = self.factor(n)
        num = {(): norm_c(Fraction(1) / lc)}
        for k, c in d.items():
            t = min(c, keys.get(k, 0))
            if t:
                keys[k] -= t
                if not keys[k]:
                    del keys[k]
            for _ in range(c - t):
                num = pmul(num, self.factors[k])
        return (num, keys)

    def nf(self, e):
        r = self.memo.get(e.id)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        stack = [(e, 0)]
        memo = self.memo
        while stack:
            x, st = stack.pop()
            if x.id in memo:
                continue
            op = x.op
            if op in ('+', '*', '/'):
                if st == 0:
                    stack.append((x, 1))
                    for y in x.a:
                        if y.id not in memo:
                            stack.append((y, 0))
                    continue
                a, b = memo[x.a[0].id], memo[x.a[1].id]
                if op == '+':
                    memo[x.id] = self.radd(a, b)
                elif op == '*':
                    memo[x.id] = self.rmul(a, b)
                else:
                    memo[x.id] = self.rmul(a, self.rinv(b))
            elif op == 'c':
                v = x.a[0]
                memo[x.id] = ({(): v}, {}) if v != 0 else ({}, {})
            elif op in ('inf', 'nan', 'infarith'):
                raise NotImplementedError('non-finite value')
            else:
                # atom; canonicalise the argument of a function by its normal form
                memo[x.id] = self._fatom(x)
        return memo[e.id]

    def canon(self, e):
        n, d = self.nf(e)
        return (frozenset(n.items()), frozenset((frozenset(self.factors[k].items()), c) for k, c in d.items()))

    def _fatom(self, x):
        if x.op in ('sqrt', 'f'):
            args = tuple(self.canon(y) if y.__class__ is E else y for y in x.a)
            key = ('canon', x.op) + args
            y = self.memo.get(key)
            if y is None:
                self.memo[key] = x
                y = x
            return self.atom(y)
        return self.atom(x)

    def reduce_poly(self, p):
        """eliminate squares of sqrt atoms (outermost first); returns poly equivalent up to a nonzero factor"""
        guard = 0
        while True:
            guard += 1
            if guard > 60:
                raise TooBig()
            best = None
            for m in p:
                for v, n in m:
                    a = self.atoms.get(v)
                    if n >= 2 and a is not None and a.op == 'sqrt':
                        if best is None or v > best:
                            best = v
                    elif n >= 2 and a is not None and a.op == 'f' and a.a[0] == 'sin':
                        if best is None or v > best:
                            best = v
            if best is None:
                return p
            a = self.atoms[best]
            if a.op == 'sqrt':
                rn, rd = self.nf(a.a[0])
            else:
                c = fn('cos', a.a[1])
                rn, rd = self.nf(sub(ONE, mul(c, c)))
            den = {(): 1}
            for k, c in rd.items():
                for _ in range(c):
                    den = pmul(den, self.factors[k])
            mx = max(dict(m).get(best, 0) // 2 for m in p)
            pn = [{(): 1}]
            pd = [{(): 1}]
            for _ in range(mx):
                pn.append(pmul(pn[-1], rn))
                pd.append(pmul(pd[-1], den))
            groups = {}
            for m, c in p.items():
                k = dict(m).get(best, 0)
                h = k // 2
                m2 = tuple((v, (n - 2 * h if v == best else n)) for v, n in m if not (v == best and n == 2 * h))
                groups.setdefault(h, {})
                g = groups[h]
                g[m2] = g.get(m2, 0) + c
            r = {}
            for h, g in groups.items():
                g = {m: c for m, c in g.items() if c != 0}
                r = padd(r, pmul(pmul(g, pn[h]), pd[mx - h]))
            p = r
            if not p:
                return p

    def is_zero(self, e):
        n, d = self.nf(e)
        if not n:
            return True
        return not self.reduce_poly(n)
