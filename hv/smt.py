"""Translation to Z3 (primary) and cvc5 (second opinion on unknowns)."""
from fractions import Fraction
import subprocess
import time
import z3
from expr import E, ite, bnot, R, ZERO, ONE, lt, le, mk, interval, isc
import expr as X

STATS = {'z3': 0, 'z3_s': 0.0, 'cvc5': 0, 'cvc5_s': 0.0}


class Tr:
    """One translation context; side conditions (sqrt, UF axioms) are collected."""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.sidefor = {}
        self.uf = {}
        self.trig = {}
        self.vars = {}

    def t(self, e):
        if e is True:
            return z3.BoolVal(True)
        if e is False:
            return z3.BoolVal(False)
        if e.__class__ is not E:
            return z3.IntVal(e)
        r = self.memo.get(e.id)
        if r is not None:
            return r
        stack = [(e, 0)]
        memo = self.memo
        while stack:
            x, st = stack.pop()
            if x.id in memo:
                continue
            if st == 0:
                stack.append((x, 1))
                for y in x.a:
                    if y.__class__ is E and y.id not in memo:
                        stack.append((y, 0))
                continue
            memo[x.id] = self._one(x)
        return memo[e.id]

    def _one(self, e):
        op = e.op
        a = [self.memo[y.id] if y.__class__ is E else y for y in e.a]
        if op == 'c':
            v = e.a[0]
            if e.sort == 'R':
                f = Fraction(v)
                return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
            return z3.IntVal(v)
        if op == 'v':
            n = e.a[0]
            v = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[e.sort](n)
            self.vars[n] = (v, e)
            if e.sort == 'I' and e.iv:
                if e.iv[0] is not None:
                    self.side.append(v >= e.iv[0])
                if e.iv[1] is not None:
                    self.side.append(v <= e.iv[1])
            return v
        if op == '+' or op == 'i+':
            return a[0] + a[1]
        if op == '*' or op == 'i*':
            return a[0] * a[1]
        if op == '/':
            return a[0] / a[1]
        if op == 'sqrt':
            s = z3.Real('sqrt!%d' % e.id)
            self.side.append(s >= 0)
            self.side.append(z3.Implies(a[0] >= 0, s * s == a[0]))
            return s
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == '<':
            return a[0] < a[1]
        if op == '<=':
            return a[0] <= a[1]
        if op == '=':
            return a[0] == a[1]
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(a[0], a[1])
        if op == 'or':
            return z3.Or(a[0], a[1])
        if op == 'toreal':
            return z3.ToReal(a[0])
        if op == 'toint':
            k = z3.Int('trunc!%d' % e.id)
            self.side.append(z3.Implies(a[0] >= 0, z3.And(z3.ToReal(k) <= a[0], a[0] < z3.ToReal(k) + 1)))
            self.side.append(z3.Implies(a[0] < 0, z3.And(z3.ToReal(k) >= a[0], a[0] > z3.ToReal(k) - 1)))
            return k
        if op == 'idiv':
            # C truncation
            q = z3.If(a[0] >= 0, a[0] / a[1], -((-a[0]) / a[1]))
            return q
        if op == 'imod':
            return z3.If(a[0] >= 0, a[0] % a[1], -((-a[0]) % a[1]))
        if op == 'f':
            nm = e.a[0]
            args = a[1:]
            key = (nm, len(args))
            f = self.uf.get(key)
            if f is None:
                f = z3.Function(nm + '!uf', *([z3.RealSort()] * (len(args) + 1)))
                self.uf[key] = f
            r = f(*args)
            if nm == 'exp':
                self.side.append(r > 0)
                self.side.append(z3.Implies(args[0] <= 0, r <= 1))
                self.side.append(z3.Implies(args[0] >= 0, r >= 1))
            elif nm == 'log2':
                for k in range(-8, 17):
                    c = z3.RealVal(2 ** k) if k >= 0 else z3.Q(1, 2 ** -k)
                    self.side.append((r <= k) == (args[0] <= c))
                    self.side.append((r < k) == (args[0] < c))
            elif nm == 'tanh':
                self.side.append(z3.And(r >= -1, r <= 1))
            elif nm in ('sin', 'cos'):
                self.trig_axioms(nm, args[0], r)
            return r
        if op == 'inf':
            raise NotImplementedError('inf')
        raise NotImplementedError('smt ' + op)


PI = z3.RealVal('3.141592653589793')


def _trig_axioms(self, nm, a, r):
    """values at and monotonicity between the extrema of sine and cosine; pi is the number the literal stands for"""
    A = self.side.append
    A(z3.And(r >= -1, r <= 1))
    seen = self.trig.setdefault(nm, [])
    if any(z3.eq(a, b) for b, _ in seen):
        return
    if nm == 'cos':
        A(z3.Implies(a == 0, r == 1))
        A(z3.Implies(a == PI, r == -1))
        A(z3.Implies(z3.And(a > 0, a < PI), z3.And(r > -1, r < 1)))
        A(z3.Implies(z3.And(a >= 0, a <= PI), z3.And((r >= 0) == (a <= PI / 2), (r <= 0) == (a >= PI / 2))))
        for b, q in seen:
            A(z3.Implies(a + b == 0, r == q))
            A(z3.Implies(a + b == PI, r == -q))
            A(z3.Implies(z3.And(a >= 0, a <= PI, b >= 0, b <= PI), (a < b) == (r > q)))
    else:
        A(z3.Implies(a == 0, r == 0))
        A(z3.Implies(a == PI / 2, r == 1))
        A(z3.Implies(a == -PI / 2, r == -1))
        A(z3.Implies(z3.And(a >= -PI / 2, a <= PI / 2), z3.And((r > 0) == (a > 0), (r < 0) == (a < 0))))
        A(z3.Implies(z3.And(a > -PI / 2, a < PI / 2), z3.And(r > -1, r < 1)))
        for b, q in seen:
            A(z3.Implies(a + b == 0, r == -q))
            A(z3.Implies(z3.And(a >= -PI / 2, a <= PI / 2, b >= -PI / 2, b <= PI / 2), (a < b) == (r < q)))
    seen.append((a, r))


Tr.trig_axioms = _trig_axioms


def solve(conds, timeout_ms=3000, want_model=False, use_cvc5=False):
    """'sat' / 'unsat' / 'unknown' (and a model dict)"""
    cs = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return ('unsat', None) if want_model else 'unsat'
        cs.append(c)
    if not cs:
        return ('sat', {}) if want_model else 'sat'
    t0 = time.time()
    try:
        tr = Tr()
        zs = [tr.t(c) for c in cs]
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        for z in zs:
            s.add(z)
        for z in tr.side:
            s.add(z)
    except NotImplementedError:
        return ('unknown', None) if want_model else 'unknown'
    r = str(s.check())
    STATS['z3'] += 1
    STATS['z3_s'] += time.time() - t0
    if r == 'unknown' and use_cvc5:
        r2 = cvc5_check(s.to_smt2(), timeout_ms)
        if r2 == 'unsat':
            r = r2
    if want_model:
        md = None
        if r == 'sat':
            try:
                m = s.model()
                md = {}
                for n, (v, e) in tr.vars.items():
                    md[n] = z3val(m.eval(v, model_completion=True))
            except z3.Z3Exception:
                md = None
        return r, md
    return r


def z3val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return z3val(v.approx(30))
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return 0.0


def cvc5_check(smt2, timeout_ms):
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms], input='(set-logic ALL)\n' + smt2,
                           capture_output=True, text=True, timeout=timeout_ms / 1000.0 + 10)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except (OSError, subprocess.TimeoutExpired):
        out = 'unknown'
    STATS['cvc5'] += 1
    STATS['cvc5_s'] += time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'


_feas = {}


def feasible(pc, c, timeout_ms=1500):
    """may pc /\\ c hold?  (unknown counts as yes)"""
    if c is True:
        return True
    if c is False:
        return False
    rel = slice_pc(pc, [c])
    key = (frozenset(x.id for x in rel), c.id)
    r = _feas.get(key)
    if r is None:
        r = solve(rel + [c], timeout_ms) != 'unsat'
        _feas[key] = r
    return r


_vs = {}


def vset(e):
    r = _vs.get(e.id)
    if r is None:
        r = frozenset(X.variables(e).keys())
        _vs[e.id] = r
    return r


def slice_pc(pc, goals):
    """path-condition conjuncts connected to the goals through shared variables"""
    need = set()
    for g in goals:
        if g.__class__ is E:
            need |= vset(g)
    rest = [p for p in pc if p.__class__ is E]
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for p in rest:
            if vset(p) & need:
                out.append(p)
                need |= vset(p)
                changed = True
            else:
                keep.append(p)
        rest = keep
    return out


# ------------------------------------------------------------------ equality
def find_cond(e, seen):
    """a condition of an ite in e whose own condition contains no ite"""
    st = [e]
    while st:
        x = st.pop()
        if x.__class__ is not E or not x.hasite or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            c = x.a[0]
            if c.__class__ is E and c.hasite:
                st.append(c)
                continue
            return c
        st.extend(x.a)
    return None


def split_literal(c):
    """literal below and/or/not"""
    while c.op in ('and', 'or', 'not'):
        c = c.a[0]
    return c


class Undecided(Exception):
    pass


def prove_eq(pc, a, b, nfe, budget, timeout_ms=4000, depth=0):
    """(True, None) proved; (False, pc') not an identity under pc'; raises Undecided"""
    d = X.sub(a, b)
    return prove_zero(pc, d, nfe, budget, timeout_ms, depth)


def prove_zero(pc, d, nfe, budget, timeout_ms, depth):
    if d is ZERO:
        return True, None
    if d.__class__ is E and d.op in ('inf', 'nan'):
        return False, (pc, solve(pc, timeout_ms, want_model=True)[1], 'non-finite')
    if time.time() > budget:
        raise Undecided('time')
    if d.hasite:
        c = None
        seen = set()
        c = find_cond(d, seen)
        if c is not None:
            c = split_literal(c)
            nc = bnot(c)
            for cc, val in ((c, True), (nc, False)):
                if cc is False:
                    continue
                if not feasible(pc, cc, timeout_ms):
                    continue
                d2 = X.subst(d, {c.id: val, nc.id if nc.__class__ is E else -1: (not val)})
                ok, w = prove_zero(pc + [cc], d2, nfe, budget, timeout_ms, depth + 1)
                if not ok:
                    return ok, w
            return True, None
    try:
        if nfe.is_zero(d):
            return True, None
    except (X.TooBig, ZeroDivisionError, NotImplementedError, RecursionError) as ex:
        raise Undecided(type(ex).__name__)
    # not a formal identity: maybe true under the path condition
    d2 = use_equalities(pc, d)
    if d2 is not d:
        try:
            if nfe.is_zero(d2):
                return True, None
        except (X.TooBig, ZeroDivisionError, NotImplementedError, RecursionError):
            pass
    rel = slice_pc(pc, [d])
    r, md = solve(rel + [bnot(X.eq(d, ZERO))], timeout_ms, want_model=True, use_cvc5=True)
    if r == 'unsat':
        return True, None
    if r == 'unknown' and _irrational(d):
        return False, (pc, None, 'unknown')
    return False, (pc, md, r)


def use_equalities(pc, d):
    """replaces terms the path condition fixes (a = b, or a <= b and b <= a)"""
    les = {}
    sub = {}

    def fix(a, b):
        # replace the compound (or variable) side by the other one
        for x, y in ((a, b), (b, a)):
            if x.__class__ is E and x.op != 'c' and (y.__class__ is not E or y.op in ('c', 'v')):
                if x.op != 'v' or (y.__class__ is not E or y.op == 'c' or x.id > y.id):
                    sub.setdefault(x.id, y)
                    return
    for p in pc:
        if p.__class__ is not E:
            continue
        if p.op == '=':
            fix(p.a[0], p.a[1])
        elif p.op == '<=':
            k = tuple(getattr(y, 'id', ('k', y)) for y in p.a)
            les[k] = p
            if (k[1], k[0]) in les:
                fix(p.a[0], p.a[1])
    if not sub:
        return d
    for _ in range(3):
        d2 = X.subst(d, sub)
        if d2 is d:
            break
        d = d2
    return d


def _irrational(d):
    return True


def prove_bool(pc, goal, budget, timeout_ms=8000):
    """(True,None) | (False, model) | raises Undecided"""
    if goal is True:
        return True, None
    if goal is False:
        r, md = solve(pc, timeout_ms, want_model=True)
        if r == 'unsat':
            return True, None
        return False, md
    ng = bnot(goal)
    rel = slice_pc(pc, [ng])
    r, md = solve(rel + [ng], timeout_ms, want_model=True, use_cvc5=True)
    if r == 'unsat':
        return True, None
    if r == 'sat':
        return False, md
    # case split over ites / disjunctions
    if goal.hasite:
        c = find_cond(goal, set())
        if c is not None:
            c = split_literal(c)
            nc = bnot(c)
            for cc, val in ((c, True), (nc, False)):
                if not feasible(pc, cc, timeout_ms):
                    continue
                if time.time() > budget:
                    raise Undecided('time')
                g2 = X.subst(goal, {c.id: val, nc.id if nc.__class__ is E else -1: (not val)})
                if g2 is True:
                    continue
                ok, w = prove_bool(pc + [cc], g2, budget, timeout_ms) if g2 is not False else prove_bool(pc + [cc], False, budget, timeout_ms)
                if not ok:
                    return ok, w
            return True, None
    if goal.op == 'and':
        for g in goal.a:
            ok, w = prove_bool(pc, g, budget, timeout_ms)
            if not ok:
                return ok, w
        return True, None
    raise Undecided('solver unknown')


def numeric_refute(pc, o, n):
    """random floating-point points satisfying pc where the two sides clearly differ"""
    import random
    rnd = random.Random(1)
    d = o.a
    vs = {}
    X.variables(o.a, vs)
    if o.kind == 'eq':
        X.variables(o.b, vs)
    for p in pc:
        X.variables(p, vs)
    hits = 0
    first = None
    for k in range(n):
        env = {}
        for nm, e in vs.items():
            if e.sort == 'R':
                env[nm] = rnd.choice([rnd.uniform(-2, 2), rnd.uniform(0, 1), rnd.uniform(0, 1), rnd.uniform(-50, 50)])
            elif e.sort == 'B':
                env[nm] = rnd.random() < 0.5
            else:
                lo, hi = e.iv or (None, None)
                env[nm] = rnd.randint(-5 if lo is None else lo, 5 if hi is None else hi)
        memo = {}
        try:
            if not all(X.evalf(p, env, memo) for p in pc):
                continue
            a = X.evalf(o.a, env, memo)
            if o.kind == 'eq':
                b = X.evalf(o.b, env, memo)
                if abs(a - b) > 1e-5 * (1 + abs(a) + abs(b)):
                    hits += 1
                    first = first or env
            elif not a:
                hits += 1
                first = first or env
        except (ValueError, ZeroDivisionError, OverflowError, KeyError):
            continue
        if hits >= 3:
            return first
    return None
