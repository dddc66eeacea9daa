"""Boolean conditions over symbolic reals and their z3 encoding."""
import time
from fractions import Fraction
import mpmath, z3
from . import expr as X

STATS = {'queries': 0, 'time': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0}


class B:
    __slots__ = ('k', 'x', 'y')

    def __init__(self, k, x, y=None):
        self.k = k; self.x = x; self.y = y

    def __repr__(self):
        if self.k in ('lt', 'le', 'eq'):
            return '(%r %s 0)' % (self.x, {'lt': '<', 'le': '<=', 'eq': '=='}[self.k])
        return '(%s %r %r)' % (self.k, self.x, self.y)


def bnot(b):
    if not isinstance(b, B):
        return 1 - (b & 1)
    if b.k == 'not':
        return b.x
    return B('not', b)


def band(a, b):
    if not isinstance(a, B):
        return b if a & 1 else 0
    if not isinstance(b, B):
        return a if b & 1 else 0
    return B('and', a, b)


def bor(a, b):
    if not isinstance(a, B):
        return 1 if a & 1 else b
    if not isinstance(b, B):
        return 1 if b & 1 else a
    return B('or', a, b)


def bxor(a, b):
    if not isinstance(a, B):
        return bnot(b) if a & 1 else b
    if not isinstance(b, B):
        return bnot(a) if b & 1 else a
    return B('or', B('and', a, bnot(b)), B('and', bnot(a), b))


EPS = mpmath.mpf(10) ** -28


def beval(b, ev):
    """numeric truth value at a point, or None when undetermined (nan)"""
    k = b.k
    if k in ('lt', 'le', 'eq'):
        v = ev.val(b.x)
        if mpmath.isnan(v):
            return None
        z = abs(v) < EPS
        if k == 'lt':
            return v < 0 and not z
        if k == 'le':
            return v < 0 or z
        return bool(z)
    if k == 'not':
        r = beval(b.x, ev)
        return None if r is None else not r
    p = beval(b.x, ev) if isinstance(b.x, B) else bool(b.x)
    q = beval(b.y, ev) if isinstance(b.y, B) else bool(b.y)
    if k == 'and':
        return None if p is None or q is None else p and q
    return None if p is None or q is None else p or q


class Enc:
    """z3 encoding of generators and polynomials (one per exploration, shared by its paths)"""
    def __init__(self):
        self.gv = {}
        self.gi = {}
        self.ax = []          # global axioms
        self.nax = 0
        self.rng = {}
        self.symax = {}
        self.byvar = {}
        self.owner = {}
        self.vc = {}
        self.cg = {}

    def vars_of(self, e):
        k = e.get_id()
        r = self.vc.get(k)
        if r is not None:
            return r[1]
        out = set()
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                st.extend(x.children())
        out = frozenset(out)
        self.vc[k] = (e, out)
        return out

    def own(self, v, n0):
        """axioms added since index n0 define v"""
        for a in self.ax[n0:]:
            self.owner.setdefault(a.get_id(), v)

    def declare(self, name, lo, hi):
        if name in self.rng:
            return
        self.rng[name] = (lo, hi)
        v = z3.Real(name)
        c = []
        if lo is not None:
            c.append(v >= self.q(lo))
        if hi is not None:
            c.append(v <= self.q(hi))
        self.ax.extend(c)

    def q(self, f):
        f = Fraction(f)
        return z3.Q(f.numerator, f.denominator)

    def gen(self, i):
        v = self.gv.get(i)
        if v is not None:
            return v
        g = X.SP.gens[i]
        if g.kind == 'sym':
            v = z3.Real(g.name)
            self.gv[i] = v
            if g.name == X.PI_NAME:
                self.ax += [v > z3.Q(314159265358979, 10 ** 14), v < z3.Q(314159265358980, 10 ** 14)]
            return v
        v = z3.Real('g%d!%s' % (i, g.kind))
        self.gv[i] = v
        n0 = len(self.ax)
        self._genax(g, v)
        self.own(v.decl().name(), n0)
        return v

    def _genax(self, g, v):
        if self.closed_gen(g):
            # a constant: tight rational enclosure of its value
            x = X.Ev({}).gen(g.i)
            if not mpmath.isnan(x):
                q = Fraction(int(mpmath.floor(x * mpmath.mpf(10) ** 25)), 10 ** 25)
                self.ax += [v >= self.q(q), v <= self.q(q + Fraction(1, 10 ** 25))]
        if g.kind == 'D':
            self.ax.append(v == self.poly(g.arg))
        elif g.kind == 'sqrt':
            self.ax += [v >= 0, v * v == self.poly(g.arg)]
        elif g.kind == 'sin':
            self.ax += [v <= 1, v >= -1]
        elif g.kind == 'cos':
            s = self.gen(g.extra.i)
            self.ax.append(s * s + v * v == 1)
        elif g.kind == 'exp':
            a = self.poly(g.arg)
            self.ax += [v > 0, v >= 1 + a, (v > 1) == (a > 0)]
        elif g.kind == 'fn:log':
            a = self.poly(g.arg)
            self.ax += [(v > 0) == (a > 1), v <= a - 1]
        elif g.kind == 'fn:atan':
            a = self.poly(g.arg)
            self.ax += [v < z3.Q(15708, 10000), v > -z3.Q(15708, 10000), (v > 0) == (a > 0)]
        elif g.kind in ('fn:j0', 'fn:j1', 'fn:j2'):
            self.ax += [v <= 1, v >= -1]

    def closed_gen(self, g):
        r = self.cg.get(g.i)
        if r is None:
            if g.kind == 'sym':
                r = g.name == X.PI_NAME
            else:
                r = all(self.closed_gen(X.SP.gens[i]) for p in (g.arg if isinstance(g.arg, tuple) else (g.arg,)) for k in p.t for i, e in X.exps(k))
            self.cg[g.i] = r
        return r

    def ginv(self, i):
        v = self.gi.get(i)
        if v is None:
            g = self.gen(i)
            v = z3.Real('inv%d' % i)
            self.gi[i] = v
            n0 = len(self.ax)
            self.ax.append(v * g == 1)
            self.own(v.decl().name(), n0)
        return v

    def poly(self, p):
        ts = []
        for k, c in p.t.items():
            f = Fraction(c, p.d)
            m = [z3.Q(f.numerator, f.denominator)]
            for i, e in X.exps(k):
                v = self.gen(i) if e > 0 else self.ginv(i)
                m.extend([v] * abs(e))
            ts.append(z3.Product(*m) if len(m) > 1 else m[0])
        if not ts:
            return z3.Q(0, 1)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def b(self, b):
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        k = b.k
        if k in ('lt', 'le', 'eq'):
            if k == 'eq':
                e = self.poly(X.residual(X.topoly(b.x)))
                return e == 0
            e = self.poly(X.topoly(b.x))
            return e < 0 if k == 'lt' else e <= 0
        if k == 'not':
            return z3.Not(self.b(b.x))
        if k == 'and':
            return z3.And(self.b(b.x), self.b(b.y))
        return z3.Or(self.b(b.x), self.b(b.y))


def check(enc, conds, timeout_ms):
    """conds: list of z3 bools; returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    cs = list(conds)
    # only the definitions in the cone of influence of the query
    while enc.nax < len(enc.ax):
        a = enc.ax[enc.nax]
        vs = enc.vars_of(a)
        for v in vs:
            enc.byvar.setdefault(v, []).append((a, vs))
        enc.nax += 1
    todo = set()
    for c in cs:
        s.add(c)
        todo |= enc.vars_of(c)
    seen, added = set(), set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for a, vs in enc.byvar.get(v, ()):
            # a definition constrains the variable it was introduced for; definitions that merely use v are not needed
            if a.get_id() not in added and enc.owner.get(a.get_id(), v) == v:
                added.add(a.get_id())
                s.add(a)
                todo |= vs
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    STATS[str(r)] += 1
    if r == z3.sat:
        return 'sat', s.model()
    return str(r), None


def model_point(enc, m):
    pt = {}
    for name in enc.rng:
        v = m.eval(z3.Real(name), model_completion=False)
        try:
            if z3.is_rational_value(v):
                pt[name] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                a = v.approx(30)
                pt[name] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        except Exception:
            pass
    return pt
