"""Symbolic reals: hash-consed expression DAG, Laurent-polynomial normal form, z3 export.

Doubles of the program under test are modelled as real numbers.  A concrete value is an
int / Fraction (or a float inf/nan); a symbolic one is a Node.  Node.poly() rewrites a DAG into a
Laurent polynomial over generators (input symbols, PI, sqrt/sin/cos/exp/... terms, denominators).
"""
from fractions import Fraction
import math, sys
import mpmath
sys.setrecursionlimit(200000)
mpmath.mp.dps = 40

W = 16
HALF = 1 << (W - 1)
FMASK = (1 << W) - 1


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- generators
class Gen:
    __slots__ = ('i', 'kind', 'name', 'arg', 'extra', 'key', 'syms')

    def __init__(self, i, kind, name, arg=None, extra=None):
        self.i = i; self.kind = kind; self.name = name; self.arg = arg; self.extra = extra
        self.key = 1 << (W * i); self.syms = None

    def __repr__(self):
        return self.name


class Space:
    """All generators of one exploration; reset between paths is not needed."""
    def __init__(self):
        self.gens = []
        self.by = {}
        self.bias = 0
        self.algmask = 0
        self.algexp = 0
        self.nodes = {}
        self.fnbase = {}
        self.subst = {}
        self.order = {}
        self.elems = []

    def gen(self, kind, ident, name, arg=None, extra=None):
        k = (kind, ident)
        g = self.by.get(k)
        if g is None:
            g = Gen(len(self.gens), kind, name, arg, extra)
            self.gens.append(g)
            self.by[k] = g
            self.bias |= HALF << (W * g.i)
            if kind in ('sqrt', 'cos'):
                self.algmask |= (FMASK ^ 1) << (W * g.i)
                self.algexp |= HALF << (W * g.i)
        return g


SP = Space()


def reset():
    CLOSED.clear()
    global SP
    SP = Space()


def exps(k):
    out = []
    i = 0
    while k:
        r = k & FMASK
        if r >= HALF:
            r -= FMASK + 1
        if r:
            out.append((i, r))
        k = (k - r) >> W
        i += 1
    return out


def expo(k, i):
    return (((k + SP.bias) >> (W * i)) & FMASK) - HALF


# ---------------------------------------------------------------- polynomials: (terms dict, den)
class Poly:
    __slots__ = ('t', 'd')

    def __init__(self, t, d=1):
        self.t = t; self.d = d

    def is_zero_syntactic(self):
        return not self.t

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and 0 in self.t:
            return norm_frac(Fraction(self.t[0], self.d))
        return None

    def ident(self):
        return (self.d, frozenset(self.t.items()))

    def __repr__(self):
        return pstr(self)


def norm_frac(f):
    if isinstance(f, Fraction) and f.denominator == 1:
        return f.numerator
    return f


PZERO = Poly({}, 1)


def pconst(c):
    if c == 0:
        return PZERO
    if isinstance(c, int):
        return Poly({0: c}, 1)
    return Poly({0: c.numerator}, c.denominator)


def pnorm(t, d):
    if not t:
        return PZERO
    if d != 1:
        g = d
        for c in t.values():
            g = math.gcd(g, c)
            if g == 1:
                break
        if g != 1:
            t = {k: c // g for k, c in t.items()}
            d //= g
    return Poly(t, d)


def padd(a, b, s=1):
    if not b.t:
        return a
    if not a.t:
        return b if s == 1 else Poly({k: -c for k, c in b.t.items()}, b.d)
    if a.d == b.d:
        t = dict(a.t)
        d = a.d
        for k, c in b.t.items():
            v = t.get(k, 0) + (c if s == 1 else -c)
            if v:
                t[k] = v
            else:
                t.pop(k, None)
        if d == 1:
            return Poly(t, 1)
        return pnorm(t, d)
    g = math.gcd(a.d, b.d)
    ma = b.d // g
    mb = a.d // g
    t = {k: c * ma for k, c in a.t.items()}
    for k, c in b.t.items():
        v = t.get(k, 0) + (c * mb if s == 1 else -c * mb)
        if v:
            t[k] = v
        else:
            t.pop(k, None)
    return pnorm(t, a.d * ma)


class TooBig(Exception):
    pass


LIMIT = 20_000_000


def pmul(a, b):
    if not a.t or not b.t:
        return PZERO
    A, B = a.t, b.t
    if len(A) > len(B):
        A, B = B, A
    if len(A) * len(B) > LIMIT:
        raise TooBig('%d x %d' % (len(A), len(B)))
    if len(A) == 1:
        (ka, ca), = A.items()
        if ca == 1 and ka == 0:
            t = B
        else:
            t = {ka + k: ca * c for k, c in B.items()}
    else:
        t = {}
        get = t.get
        Bi = list(B.items())
        for ka, ca in A.items():
            for kb, cb in Bi:
                k = ka + kb
                t[k] = get(k, 0) + ca * cb
        t = {k: c for k, c in t.items() if c}
    p = pnorm(t, a.d * b.d)
    if SP.algmask:
        p = reduce_alg(p)
    return p


def pscale(a, c):
    return pmul(a, pconst(c))


def ppow(a, n):
    if n == 0:
        return pconst(1)
    if len(a.t) == 1:
        (k, c), = a.t.items()
        if n > 0:
            r = pnorm({k * n: c ** n}, a.d ** n)
        else:
            m = -n
            num, den = a.d ** m, c ** m
            if den < 0:
                num, den = -num, -den
            r = pnorm({k * n: num}, den)
        return reduce_alg(r) if SP.algmask else r
    if n < 0:
        return ppow(pinv(a), -n)
    r = None
    b = a
    while n:
        if n & 1:
            r = b if r is None else pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def reduce_alg(p):
    """sqrt(a)^2 -> a, cos^2 -> 1-sin^2 (positive powers >= 2, and negative powers of sqrt)."""
    mask, want, bias = SP.algmask, SP.algexp, SP.bias
    bad = [k for k in p.t if ((k + bias) & mask) != want]
    if not bad:
        return p
    good = {k: c for k, c in p.t.items() if ((k + bias) & mask) == want}
    res = pnorm(good, p.d)
    groups = {}
    for k in bad:
        rest = k
        fac = []
        for i, e in exps(k):
            g = SP.gens[i]
            if g.kind == 'sqrt':
                q, r = divmod(e, 2)
                if q:
                    rest -= g.key * (2 * q)
                    fac.append((i, q))
            elif g.kind == 'cos':
                if e >= 2:
                    q = e // 2
                    rest -= g.key * (2 * q)
                    fac.append((i, q))
        if not fac:
            # negative cos power only: leave
            res = padd(res, pnorm({k: p.t[k]}, p.d))
            continue
        groups.setdefault(tuple(fac), {})[rest] = p.t[k]
    for fac, t in groups.items():
        q = pnorm(t, p.d)
        for i, e in fac:
            g = SP.gens[i]
            if g.kind == 'sqrt':
                q = pmul(q, ppow(g.arg, e))
            else:
                s = g.extra
                q = pmul(q, ppow(Poly({0: 1, 2 * s.key: -1}, 1), e))
        res = padd(res, q)
    return res


def content(p):
    """(monomial key of the gcd over Laurent exponents, sign-normalised rational content)"""
    ks = list(p.t)
    mins = None
    for k in ks:
        e = dict(exps(k))
        if mins is None:
            mins = e
        else:
            m2 = {}
            for i in set(mins) | set(e):
                v = min(mins.get(i, 0), e.get(i, 0))
                if v:
                    m2[i] = v
            mins = m2
    key = 0
    for i, v in (mins or {}).items():
        key += SP.gens[i].key * v
    g = 0
    for c in p.t.values():
        g = math.gcd(g, c)
    return key, g


def pdivexact(a, b):
    """a / b when b divides a exactly, else None (monomial order: the integer order of the packed exponents)"""
    lk = max(b.t)
    lc = b.t[lk]
    # same generators only, cheap necessary test on the leading and trailing terms
    if a.t[max(a.t)] % lc or a.t[min(a.t)] % b.t[min(b.t)]:
        return None
    r = dict(a.t)
    q = {}
    n = 0
    while r:
        n += 1
        if n > 400:
            return None
        k = max(r)
        c = r[k]
        if c % lc or any(e < 0 for _, e in exps(k - lk)):
            return None
        m = k - lk
        q[m] = c // lc
        for kb, cb in b.t.items():
            kk = m + kb
            v = r.get(kk, 0) - q[m] * cb
            if v:
                r[kk] = v
            else:
                r.pop(kk, None)
        if len(r) > 2000:
            return None
    # algebraic generators: the product must reproduce a
    p = pmul(Poly(q, 1), b)
    return Poly(q, 1) if p.t == a.t and p.d == a.d else None


def tdeg(p):
    return max(sum(e for _, e in exps(k)) for k in p.t)


def pinv(p):
    if not p.t:
        raise ZeroDivisionError
    if len(p.t) == 1:
        return ppow(p, -1)
    if SP.algmask and len(p.t) <= 200:
        # positive powers of denominators are polynomials again
        for k in p.t:
            if any(e > 0 and SP.gens[i].kind == 'D' for i, e in exps(k)):
                q = PZERO
                for k1, c in p.t.items():
                    f = Poly({k1: c}, p.d)
                    for i, e in exps(k1):
                        if e > 0 and SP.gens[i].kind == 'D':
                            f = pmul(pmul(f, Poly({-SP.gens[i].key * e: 1}, 1)), ppow(SP.gens[i].arg, e))
                    q = padd(q, f)
                return pinv(q)
        rs = sorted({i for k in p.t for i, e in exps(k) if SP.gens[i].kind == 'sqrt'})
        if rs and not any(SP.gens[i].kind == 'D' for k in p.t for i, e in exps(k)):
            # factors met before
            for f, cj, nm, inv in SP.elems:
                q = pmul(p, cj)
                cl = {}
                for k, c in q.t.items():
                    kk = sum(SP.gens[i].key * expo(k, i) for i in rs)
                    cl.setdefault(kk, {})[k - kk] = c
                r = PZERO
                for kk, t in cl.items():
                    ck, cg = content(Poly(t, 1))
                    ck = sum(SP.gens[i].key * e for i, e in exps(ck) if e < 0)
                    if len(nm.t) == 1:
                        qq = ppow(nm, -1)
                        qq = pmul(Poly(t, q.d), qq)
                        if any(e < 0 for k in qq.t for _, e in exps(k)):
                            break
                    else:
                        qq = pdivexact(Poly({k - ck: c * nm.t[max(nm.t)] for k, c in t.items()}, 1), nm)
                        if qq is None:
                            break
                        qq = pmul(qq, pnorm({ck: nm.d}, q.d * nm.t[max(nm.t)])) if nm.t[max(nm.t)] > 0 else pscale(pmul(qq, pnorm({ck: nm.d}, q.d * -nm.t[max(nm.t)])), -1)
                    r = padd(r, pmul(qq, Poly({kk: 1}, 1)))
                else:
                    if r.t and len(r.t) <= len(p.t) * 3 and tdeg(r) < tdeg(p) and pmul(r, f).t == p.t:
                        return pmul(pinv(r), inv)
            # 1/(A + B r) = (A - B r)/(A^2 - B^2 r^2), newest square root first
            r = SP.gens[rs[-1]]
            if all(expo(k, r.i) in (0, 1) for k in p.t):
                A = Poly({k: c for k, c in p.t.items() if expo(k, r.i) == 0}, p.d)
                B = Poly({k - r.key: c for k, c in p.t.items() if expo(k, r.i) == 1}, p.d)
                if A.t and B.t and len(p.t) <= 30:
                    q = padd(pmul(A, A), pmul(pmul(B, B), r.arg), -1)
                    if q.t:
                        cj = padd(A, pmul(B, gpoly(r)), -1)
                        inv = pmul(cj, pinv(q))
                        if len(p.t) <= 8 and not any(SP.gens[i].kind == 'sqrt' for k in q.t for i, e in exps(k)):
                            SP.elems.append((p, cj, q, inv))
                        return inv
    key, g = content(p)
    # primitive polynomial
    lead = p.t[max(p.t)]
    if lead < 0:
        g = -g
    t = {k - key: c // g for k, c in p.t.items()}
    q = Poly(t, 1)
    if 2 < len(t) <= 400 and ('D', q.ident()) not in SP.by:
        # factor known denominators out
        for h in SP.gens:
            if h.kind == 'D' and 1 < len(h.arg.t) < len(t):
                qq = pdivexact(q, h.arg)
                if qq is not None:
                    num, den = p.d, g
                    if den < 0:
                        num, den = -num, -den
                    return pmul(pnorm({-h.key - key: num}, den), pinv(qq))
    gen = SP.gen('D', q.ident(), 'D%d' % len(SP.gens), q)
    num, den = p.d, g
    if den < 0:
        num, den = -num, -den
    return pnorm({-gen.key - key: num}, den)


def expand_den(p, upto=None):
    """Clear all D generators: returns polynomial with the same zero set where dens are nonzero."""
    while True:
        if not p.t:
            return p
        # newest D gen present
        present = set()
        for k in p.t:
            for i, e in exps(k):
                present.add(i)
        ds = [i for i in present if SP.gens[i].kind == 'D']
        if not ds:
            break
        i = max(ds)
        g = SP.gens[i]
        byexp = {}
        for k, c in p.t.items():
            e = expo(k, i)
            byexp.setdefault(e, {})[k - g.key * e] = c
        mn = min(byexp)
        mx = max(byexp)
        # Horner
        acc = PZERO
        for e in range(mx, mn - 1, -1):
            acc = pmul(acc, g.arg) if acc.t else acc
            if e in byexp:
                acc = padd(acc, pnorm(byexp[e], p.d))
        p = acc
        if p.t:
            key, gg = content(p)
            if key:
                # drop monomial content made of nonzero generators only (sign-agnostic; zero test)
                p = Poly({k - key: c for k, c in p.t.items()}, p.d)
                if SP.algmask:
                    p = reduce_alg(p)
    return p


def split_zero(p):
    """p vanishes because the coefficients of the different square-root monomials vanish separately (sufficient, not necessary)"""
    rs = sorted({i for k in p.t for i, e in exps(k) if SP.gens[i].kind == 'sqrt'})
    if not rs:
        return False
    cl = {}
    for k, c in p.t.items():
        kk = 0
        for i in rs:
            e = expo(k, i)
            if e % 2:
                kk += SP.gens[i].key
        cl.setdefault(kk, {})[k - kk] = c
    if len(cl) < 2:
        return False
    for kk, t in sorted(cl.items(), key=lambda z: len(z[1])):
        q = pnorm(t, p.d)
        if SP.algmask:
            q = reduce_alg(q)
        q = expand_den(q)
        if q.t:
            return False
    return True


def residual(p):
    """canonical numerator of p used for zero testing"""
    if len(p.t) > 8 and SP.algmask and split_zero(p):
        return PZERO
    p = expand_den(p)
    # clear negative exponents
    if p.t:
        key, g = content(p)
        neg = 0
        for i, e in exps(key):
            if e < 0:
                neg += SP.gens[i].key * e
        if neg:
            p = Poly({k - neg: c for k, c in p.t.items()}, p.d)
            if SP.algmask:
                p = reduce_alg(p)
    return p


def pstr(p, maxt=12):
    if not p.t:
        return '0'
    out = []
    for k, c in list(p.t.items())[:maxt]:
        s = str(Fraction(c, p.d))
        for i, e in exps(k):
            s += '*%s' % SP.gens[i].name + ('^%d' % e if e != 1 else '')
        out.append(s)
    if len(p.t) > maxt:
        out.append('... (%d terms)' % len(p.t))
    return ' + '.join(out)


# ---------------------------------------------------------------- DAG nodes
class Node:
    __slots__ = ('op', 'a', 'b', '_p', '_s', 'uid')

    def __init__(self, op, a, b):
        self.op = op; self.a = a; self.b = b; self._p = None; self._s = None
        self.uid = len(SP.nodes)

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)

    def poly(self):
        return topoly(self)

    def __repr__(self):
        try:
            return '<%s>' % pstr(topoly(self), 6)
        except Exception:
            return '<node %s>' % self.op


def mk(op, a, b=None):
    key = (op, a if not isinstance(a, Node) else ('n', a.uid), b if not isinstance(b, Node) else ('n', b.uid))
    n = SP.nodes.get(key)
    if n is None:
        n = Node(op, a, b)
        SP.nodes[key] = n
    return n


def isnode(x):
    return isinstance(x, Node)


def squares(x, depth=8):
    """is x written as a sum of squares (times nonnegative constants)?"""
    if not isnode(x):
        return isinstance(x, (int, Fraction)) and x >= 0
    if depth and x.op == 'add':
        return squares(x.a, depth - 1) and squares(x.b, depth - 1)
    if x.op == 'mul':
        if x.a is x.b:
            return True
        return depth and not isnode(x.b) and squares(x.b) and squares(x.a, depth - 1)
    return False


def fix(x):
    """exact python number from a float when finite"""
    if isinstance(x, float) and math.isfinite(x):
        return norm_frac(Fraction(x))
    return x


def add(a, b):
    if not isnode(a) and not isnode(b):
        return cadd(a, b)
    if isinstance(a, float) or isinstance(b, float):
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                return x
        a, b = fix(a), fix(b)
    if not isnode(a):
        a, b = b, a
    if not isnode(b):
        if b == 0:
            return a
        if a.op == 'add' and not isnode(a.b):
            return add(a.a, a.b + b)
        return mk('add', a, b)
    # cancellation a + (-1)*a
    if b.op == 'mul' and b.b == -1 and b.a is a:
        return 0
    if a.op == 'mul' and a.b == -1 and a.a is b:
        return 0
    if a.uid > b.uid:
        a, b = b, a
    return mk('add', a, b)


def cadd(a, b):
    r = a + b
    if isinstance(r, Fraction) and r.denominator == 1:
        return r.numerator
    return r


def cmul(a, b):
    if (a == 0 and isinstance(a, int)) or (b == 0 and isinstance(b, int)):
        if isinstance(a, float) or isinstance(b, float):
            x = a if isinstance(a, float) else b
            if not math.isfinite(x):
                return float('nan')
        return 0
    r = a * b
    if isinstance(r, Fraction) and r.denominator == 1:
        return r.numerator
    return r


def neg(a):
    if not isnode(a):
        return -a
    return mul(a, -1)


def mul(a, b):
    if not isnode(a) and not isnode(b):
        return cmul(a, b)
    if isinstance(a, float) or isinstance(b, float):
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                return x
        a, b = fix(a), fix(b)
    if not isnode(a):
        a, b = b, a
    if not isnode(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'mul' and not isnode(a.b):
            return mul(a.a, cmul(a.b, b))
        return mk('mul', a, b)
    if a.op == 'mul' and not isnode(a.b):
        return mul(mul(a.a, b), a.b)
    if b.op == 'mul' and not isnode(b.b):
        return mul(mul(a, b.a), b.b)
    if a.uid > b.uid:
        a, b = b, a
    return mk('mul', a, b)


def div(a, b):
    if not isnode(b):
        if isinstance(b, float):
            if math.isinf(b):
                return 0 if isnode(a) or math.isfinite(a) else float('nan')
            if math.isnan(b):
                return b
            b = fix(b)
        if isnode(a):
            if b == 0:
                return float('nan')
            return mul(a, norm_frac(Fraction(1) / b))
        if isinstance(a, float) and not math.isfinite(a):
            return a if b >= 0 else -a
        a = fix(a)
        if b == 0:
            if a == 0:
                return float('nan')
            return float('inf') if a > 0 else float('-inf')
        return norm_frac(Fraction(a) / b)
    if not isnode(a):
        if a == 0:
            return 0
        if isinstance(a, float):
            if not math.isfinite(a):
                return a
            a = fix(a)
    if a is b:
        return 1
    return mk('div', a, b)


def sym(name):
    return mk('sym', name)


PI_NAME = 'PI'


def pi():
    return mk('sym', PI_NAME)


def fn(name, *args):
    """elementary function application"""
    a = args[0]
    if len(args) == 1 and not isnode(a):
        if isinstance(a, float) and not math.isfinite(a):
            if name == 'exp':
                return 0 if a < 0 else a
            return float(getattr(mpmath, name)(a)) if name in ('sqrt', 'log', 'atan', 'tanh') and a > 0 else float('nan')
        a = fix(a)
        if a == 0 and name in ('sin', 'sqrt', 'atan', 'sinh', 'tan', 'asinh', 'tanh', 'asin', 'j1'):
            return 0
        if a == 0 and name in ('cos', 'exp', 'cosh', 'j0'):
            return 1
        if a == 1 and name in ('log', 'acos'):
            return 0
        if name == 'sqrt':
            f = Fraction(a)
            if f < 0:
                return float('nan')
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return norm_frac(Fraction(n, d))
        if name == 'log' and a == 0:
            return float('-inf')
    if name == 'sqrt':
        # sqrt of a perfect square polynomial is left to the normal form
        pass
    return mk('fn:' + name, tuple(x if not isnode(x) else x for x in args) if len(args) > 1 else a)


def postorder(n, done):
    st = [(n, 0)]
    seen = set()
    while st:
        x, f = st.pop()
        if f:
            yield x
            continue
        if x.uid in seen or done(x):
            continue
        seen.add(x.uid)
        st.append((x, 1))
        for y in (x.a, x.b):
            if isinstance(y, Node):
                st.append((y, 0))
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Node):
                        st.append((z, 0))


def topoly(x):
    if not isnode(x):
        return pconst(fix(x))
    if x._p is not None:
        return x._p
    for n in postorder(x, lambda y: y._p is not None):
        if n._p is not None:
            continue
        op = n.op
        if op == 'sym':
            g = SP.gen('sym', n.a, n.a)
            p = Poly({g.key: 1}, 1)
        elif op == 'add':
            p = padd(topoly(n.a), topoly(n.b))
        elif op == 'mul':
            p = pmul(topoly(n.a), topoly(n.b))
        elif op == 'div':
            den = topoly(n.b)
            if not den.t:
                raise ZeroDivisionError('symbolic division by an identically zero expression')
            p = pmul(topoly(n.a), pinv(den))
        elif op.startswith('fn:'):
            p = fnpoly(op[3:], n)
        else:
            raise Unsupported(op)
        n._p = p
    return x._p


def gpoly(g):
    return Poly({g.key: 1}, 1)


def lin_split(p):
    """list of (monomial key, Fraction coeff)"""
    return [(k, Fraction(c, p.d)) for k, c in sorted(p.t.items())]


def angle_base(kind, key, coef):
    """base (generator family, integer multiple) for coef*monomial"""
    ent = SP.fnbase.setdefault((kind, key), [])
    for b in ent:
        q = coef / b
        if q.denominator == 1:
            return b, q.numerator
    b = abs(coef)
    # if an existing base is a multiple of the new one, remember (no rewriting: reported as free)
    ent.append(b)
    return b, 1 if coef > 0 else -1


def sincos_poly(p):
    """(sin, cos) polys of polynomial argument p"""
    s, c = PZERO, pconst(1)
    pig = SP.gen('sym', PI_NAME, PI_NAME)
    for key, co in lin_split(p):
        if key == pig.key:
            m = co * 2
            if m.denominator == 1:
                m = m.numerator % 4
                s1, c1 = [(0, 1), (1, 0), (0, -1), (-1, 0)][m]
                s1, c1 = pconst(s1), pconst(c1)
            elif (co * 6).denominator == 1 or (co * 4).denominator == 1:
                # multiples of pi/6 and pi/4 exactly
                def sn(q):
                    q %= 2
                    if q >= 1:
                        return pscale(sn(q - 1), -1)
                    q = min(q, 1 - q)
                    return {Fraction(0): PZERO, Fraction(1, 6): pconst(Fraction(1, 2)), Fraction(1, 4): psqrt(pconst(Fraction(1, 2))),
                            Fraction(1, 3): psqrt(pconst(Fraction(3, 4))), Fraction(1, 2): pconst(1)}[q]
                s1, c1 = sn(Fraction(co)), sn(Fraction(co) + Fraction(1, 2))
            else:
                s1, c1 = sc_base('pi', key, co)
        elif co.denominator == 1 and atan2_gen(key) is not None:
            # sin/cos of a polar angle: y/h, x/h (h != 0 is the generic case; the code under test branches on r = 0)
            y, x = atan2_gen(key).arg
            h = pinv(psqrt(padd(pmul(x, x), pmul(y, y))))
            s1, c1 = PZERO, pconst(1)
            sy, cx = pmul(y, h), pmul(x, h)
            for _ in range(abs(co.numerator)):
                s1, c1 = padd(pmul(s1, cx), pmul(c1, sy)), padd(pmul(c1, cx), pmul(s1, sy), -1)
            if co < 0:
                s1 = pscale(s1, -1)
        else:
            s1, c1 = sc_base('ang', key, co)
        s, c = padd(pmul(s, c1), pmul(c, s1)), padd(pmul(c, c1), pmul(s, s1), -1)
    return s, c


def atan2_gen(key):
    e = list(exps(key))
    if len(e) == 1 and e[0][1] == 1 and SP.gens[e[0][0]].kind == 'fn2:atan2':
        return SP.gens[e[0][0]]
    return None


def sc_base(kind, key, co):
    b, m = angle_base(kind, key, co)
    arg = pnorm({key: b.numerator}, b.denominator)
    nm = pstr(arg)
    sg = SP.gen('sin', (key, b), 'sin(%s)' % nm, arg)
    cg = SP.gen('cos', (key, b), 'cos(%s)' % nm, arg, sg)
    s1, c1 = gpoly(sg), gpoly(cg)
    neg_ = m < 0
    m = abs(m)
    s, c = PZERO, pconst(1)
    for _ in range(m):
        s, c = padd(pmul(s, c1), pmul(c, s1)), padd(pmul(c, c1), pmul(s, s1), -1)
    if neg_:
        s = pscale(s, -1)
    return s, c


def exp_poly(p):
    r = pconst(1)
    for key, co in lin_split(p):
        b, m = angle_base('exp', key, co)
        arg = pnorm({key: b.numerator}, b.denominator)
        g = SP.gen('exp', (key, b), 'exp(%s)' % pstr(arg), arg)
        r = pmul(r, Poly({g.key * m: 1}, 1))
    return r


def psqrt(p):
    c = p.const()
    if c is not None:
        v = fn('sqrt', c)
        if not isnode(v):
            return pconst(v)
    if p.t:
        # canonical: clear denominators  sqrt(n/d) with d a square of a monomial -> pull out even powers
        key, g = content(p)
        out = 0
        sgn_ok = True
        for i, e in exps(key):
            ge = SP.gens[i]
            q = e // 2
            if q and ge.kind in ('exp', 'sqrt') or (q and positive(ge)):
                out += ge.key * q
        if out:
            p = Poly({k - 2 * out: c_ for k, c_ in p.t.items()}, p.d)
            r = pmul(Poly({out: 1}, 1), psqrt(p))
            return r
        # rational content squares
        f = Fraction(abs(g), p.d)
        sq = fn('sqrt', norm_frac(f))
        if not isnode(sq) and sq != 1:
            q = pscale(p, norm_frac(1 / Fraction(f)))
            return pscale(psqrt(q), sq)
    g = SP.gen('sqrt', p.ident(), 'sqrt(%s)' % pstr(p, 6), p)
    return gpoly(g)


POSITIVE = set()


def positive(g):
    return (g.kind == 'sym' and (g.name in POSITIVE or g.name == PI_NAME))


def fnpoly(name, n):
    if isinstance(n.a, tuple):
        ps = tuple(topoly(z) for z in n.a)
        g = SP.gen('fn2:' + name, tuple(q.ident() for q in ps), '%s(%s)' % (name, ','.join(pstr(q, 6) for q in ps)), ps)
        return gpoly(g)
    p = topoly(n.a)
    if name == 'sin':
        return sincos_poly(p)[0]
    if name == 'cos':
        return sincos_poly(p)[1]
    if name == 'tan':
        s, c = sincos_poly(p)
        return pmul(s, pinv(c))
    if name == 'exp':
        return exp_poly(p)
    if name == 'cosh':
        e = exp_poly(p)
        return pscale(padd(e, ppow(e, -1)), Fraction(1, 2))
    if name == 'sinh':
        e = exp_poly(p)
        return pscale(padd(e, ppow(e, -1), -1), Fraction(1, 2))
    if name == 'sqrt':
        return psqrt(p)
    if name in ('atan', 'j1', 'asin', 'tanh', 'asinh') and p.t:
        # odd functions: canonical sign
        if p.t[max(p.t)] < 0:
            q = pscale(p, -1)
            g = SP.gen('fn:' + name, q.ident(), '%s(%s)' % (name, pstr(q, 6)), q)
            return pscale(gpoly(g), -1)
    g = SP.gen('fn:' + name, p.ident(), '%s(%s)' % (name, pstr(p, 6)), p)
    return gpoly(g)


# ---------------------------------------------------------------- zero test, derivative, evaluation
def is_zero(x):
    if not isnode(x):
        return x == 0
    return not residual(topoly(x)).t


def pderiv(p, g):
    """d p / d(symbol generator g)"""
    res = PZERO
    memo = {}

    def dgen(i):
        if i in memo:
            return memo[i]
        h = SP.gens[i]
        if h is g:
            r = pconst(1)
        elif h.kind == 'sym':
            r = PZERO
        elif h.kind == 'D':
            r = pderiv(h.arg, g)
        elif h.kind == 'sqrt':
            r = pscale(pmul(pderiv(h.arg, g), ppow(gpoly(h), -1)), Fraction(1, 2))
        elif h.kind == 'sin':
            cg = SP.by[('cos',) + ((next(k for k in SP.by if k[0] == 'sin' and SP.by[k] is h))[1],)]
            r = pmul(pderiv(h.arg, g), gpoly(cg))
        elif h.kind == 'cos':
            r = pscale(pmul(pderiv(h.arg, g), gpoly(h.extra)), -1)
        elif h.kind == 'exp':
            r = pmul(pderiv(h.arg, g), gpoly(h))
        elif h.kind == 'fn:log':
            r = pmul(pderiv(h.arg, g), pinv(h.arg))
        elif h.kind == 'fn:atan':
            r = pmul(pderiv(h.arg, g), pinv(padd(pconst(1), pmul(h.arg, h.arg))))
        elif h.kind in ('fn:j0', 'fn:j1'):
            o = topoly(fn('j1' if h.kind == 'fn:j0' else 'j0', from_poly(h.arg)))
            r = pscale(o, -1) if h.kind == 'fn:j0' else padd(o, pscale(pmul(gpoly(h), pinv(h.arg)), -1))
            r = pmul(pderiv(h.arg, g), r)
        elif h.kind.startswith('fn'):
            a = h.arg if isinstance(h.arg, tuple) else (h.arg,)
            if all(not pderiv(q, g).t for q in a):
                r = PZERO
            else:
                raise Unsupported('derivative of ' + h.kind)
        else:
            raise Unsupported('derivative of ' + h.kind)
        memo[i] = r
        return r
    parts = {}
    for k, c in p.t.items():
        for i, e in exps(k):
            if dgen(i).t:
                parts.setdefault(i, {})[k - SP.gens[i].key] = c * e
    for i, t in parts.items():
        res = padd(res, pmul(pnorm(t, p.d), dgen(i)))
    return res


def psum(ps):
    ps = list(ps)
    while len(ps) > 1:
        ps = [padd(ps[i], ps[i + 1]) if i + 1 < len(ps) else ps[i] for i in range(0, len(ps), 2)]
    return ps[0] if ps else PZERO


class PolyNode:
    pass


def from_poly(p):
    """DAG node carrying a given polynomial"""
    c = p.const()
    if c is not None:
        return c
    n = mk('poly', p.ident())
    n._p = p
    return n


def psubst(p, s, v, memo):
    """p with the symbol s replaced by the number v"""
    def gen(i):
        r = memo.get(i)
        if r is None:
            h = SP.gens[i]
            if h.kind == 'sym':
                r = pconst(v) if h.name == s else gpoly(h)
            elif h.kind == 'D':
                r = psubst(h.arg, s, v, memo)
            elif h.kind == 'sqrt':
                r = psqrt(psubst(h.arg, s, v, memo))
            elif h.kind in ('sin', 'cos', 'exp'):
                q = psubst(h.arg, s, v, memo)
                r = exp_poly(q) if h.kind == 'exp' else sincos_poly(q)[h.kind == 'cos']
            elif h.kind.startswith('fn:'):
                r = topoly(fn(h.kind[3:], from_poly(psubst(h.arg, s, v, memo))))
            else:
                raise Unsupported('substitution in ' + h.kind)
            memo[i] = r
        return r
    # terms that share the part which changes are substituted once
    ch = memo.setdefault('ch', {})
    groups = {}
    for k, c in p.t.items():
        kk = 0
        for i, e in exps(k):
            if i not in ch:
                ch[i] = s in gsyms(i)
            if ch[i]:
                kk += SP.gens[i].key * e
        groups.setdefault(kk, {})[k - kk] = c
    out = []
    for kk, t in groups.items():
        m = pnorm(t, p.d)
        for i, e in exps(kk):
            f = memo.get((i, e))
            if f is None:
                f = memo[(i, e)] = ppow(gen(i), e)
            m = pmul(m, f)
        out.append(m)
    return psum(out)


def gsyms(i):
    h = SP.gens[i]
    if h.kind == 'sym':
        return {h.name}
    r = h.syms
    if r is None:
        r = set()
        for q in (h.arg if isinstance(h.arg, tuple) else (h.arg,)):
            for j in {j for k in q.t for j, _ in exps(k)}:
                r |= gsyms(j)
        h.syms = r
    return r


def subst(x, s, v):
    if not isnode(x):
        return x
    return from_poly(psubst(topoly(x), s, v, {}))


def deriv(x, s):
    g = SP.gen('sym', s, s)
    return from_poly(pderiv(topoly(x), g))


FN = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'exp': mpmath.exp, 'sqrt': mpmath.sqrt,
      'log': mpmath.log, 'atan': mpmath.atan, 'cosh': mpmath.cosh, 'sinh': mpmath.sinh, 'tanh': mpmath.tanh,
      'acos': mpmath.acos, 'asin': mpmath.asin, 'asinh': mpmath.asinh,
      'j0': lambda x: mpmath.besselj(0, x), 'j1': lambda x: mpmath.besselj(1, x), 'j2': lambda x: mpmath.besselj(2, x),
      'atan2': mpmath.atan2, 'pow': mpmath.power}
_FLOATFN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'sqrt': math.sqrt,
            'log': math.log, 'atan': math.atan, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh,
            'acos': math.acos, 'asin': math.asin, 'asinh': math.asinh, 'atan2': math.atan2, 'pow': math.pow}


class Ev:
    """numeric evaluation of nodes at a point {symbol: float}"""
    def __init__(self, pt, prec=True):
        self.pt = pt
        self.m = {}
        self.conv = (lambda v: mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v))
        self.gm = {}

    def val(self, x):
        if not isnode(x):
            return self.conv(x)
        m = self.m
        if x.uid in m:
            return m[x.uid]
        for n in postorder(x, lambda y: y.uid in m):
            op = n.op
            if op == 'sym':
                v = mpmath.pi + 0 if n.a == PI_NAME else mpmath.mpf(self.pt[n.a])
            elif op == 'add':
                v = self.g(n.a) + self.g(n.b)
            elif op == 'mul':
                v = self.g(n.a) * self.g(n.b)
            elif op == 'div':
                d = self.g(n.b)
                v = self.g(n.a) / d if d != 0 else mpmath.nan
            elif op == 'poly':
                v = self.poly(n._p)
            else:
                a = n.a if isinstance(n.a, tuple) else (n.a,)
                try:
                    v = FN[op[3:]](*[self.g(z) for z in a])
                    if isinstance(v, mpmath.mpc):
                        v = v.real if v.imag == 0 else mpmath.nan
                except (ValueError, ZeroDivisionError):
                    v = mpmath.nan
            m[n.uid] = v
        return m[x.uid]

    def g(self, z):
        return self.m[z.uid] if isinstance(z, Node) else self.conv(z)

    def gen(self, i):
        if i in self.gm:
            return self.gm[i]
        h = SP.gens[i]
        if h.kind == 'sym':
            v = mpmath.pi + 0 if h.name == PI_NAME else mpmath.mpf(self.pt[h.name])
        elif h.kind == 'D':
            v = self.poly(h.arg)
        elif h.kind in ('sqrt', 'sin', 'cos', 'exp'):
            v = FN[h.kind](self.poly(h.arg))
        elif h.kind.startswith('fn:'):
            v = FN[h.kind[3:]](self.poly(h.arg))
        elif h.kind.startswith('fn2:'):
            v = FN[h.kind[4:]](*[self.poly(q) for q in h.arg])
        else:
            raise Unsupported(h.kind)
        self.gm[i] = v
        return v

    def poly(self, p):
        s = mpmath.mpf(0)
        for k, c in p.t.items():
            v = mpmath.mpf(c)
            for i, e in exps(k):
                v *= self.gen(i) ** e
            s += v
        return s / p.d


CLOSED = {}


def closed(x):
    """no free symbol (a constant such as sin(pi/5)/3)"""
    if not isnode(x):
        return True
    if x.uid in CLOSED:
        return CLOSED[x.uid]
    for n in postorder(x, lambda y: y.uid in CLOSED):
        if n.op == 'sym':
            r = n.a == PI_NAME
        elif n.op == 'poly':
            r = not symbols_of(n, set())
        else:
            r = True
            for y in (n.a, n.b):
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, Node) and not CLOSED[z.uid]:
                        r = False
        CLOSED[n.uid] = r
    return CLOSED[x.uid]


def closed_sign(x):
    """exact sign of a closed real expression, or None"""
    v = Ev({}).val(x)
    if mpmath.isnan(v):
        return None
    if abs(v) > 1e-25:
        return 1 if v > 0 else -1
    return 0 if is_zero(x) else None


def symbols_of(x, acc):
    if isnode(x):
        for n in postorder(x, lambda y: False):
            if n.op == 'sym' and n.a != PI_NAME:
                acc.add(n.a)
            if n.op == 'poly':
                st = [n._p]
                while st:
                    p = st.pop()
                    for k in p.t:
                        for i, e in exps(k):
                            h = SP.gens[i]
                            if h.kind == 'sym':
                                if h.name != PI_NAME:
                                    acc.add(h.name)
                            elif isinstance(h.arg, tuple):
                                st.extend(h.arg)
                            else:
                                st.append(h.arg)
    return acc
