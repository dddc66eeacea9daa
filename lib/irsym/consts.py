"""Decimal / rational / multiple-of-pi recognition of double literals (constants are reals, not doubles)."""
from fractions import Fraction
import math, struct
from . import expr as X

_cache = {}


def snap(x, single=False):
    if not math.isfinite(x):
        return x
    f = Fraction(x)
    if f.denominator <= (1 << (12 if single else 24)):
        return X.norm_frac(f)
    k = (x, single)
    r = _cache.get(k)
    if r is None:
        r = _snap(x, single)
        _cache[k] = r
    if isinstance(r, tuple):
        op, q = r
        if op == 'pi':
            return X.mul(X.pi(), X.norm_frac(q))
        if op == '1/pi':
            return X.div(X.norm_frac(q), X.pi())
        if op == 'pi2':
            return X.mul(X.mul(X.pi(), X.pi()), X.norm_frac(q))
        if op == 'sqrt':
            v = X.fn('sqrt', X.norm_frac(abs(q)))
            return v if q > 0 else X.neg(v)
    return r


def _snap(x, single):
    if single:
        for p in range(1, 10):
            s = '%.*g' % (p, x)
            if struct.unpack('<f', struct.pack('<f', float(s)))[0] == x:
                if p >= 7:
                    q = Fraction(x / math.pi).limit_denominator(1000)
                    if q != 0 and abs(q.numerator) * q.denominator <= 400 and abs(float(q) * math.pi - x) <= 1.2e-7 * abs(x):
                        return ('pi', q)
                    q = Fraction(x / math.pi ** 2).limit_denominator(64)
                    if q != 0 and abs(q.numerator) * q.denominator <= 64 and abs(float(q) * math.pi ** 2 - x) <= 1.2e-7 * abs(x):
                        return ('pi2', q)
                if p <= 7:
                    return X.norm_frac(Fraction(s))
                break
        return X.norm_frac(Fraction(x))
    s = repr(x)
    digs = s.lower().split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digs) <= 13:
        return X.norm_frac(Fraction(s))
    if struct.unpack('<Q', struct.pack('<d', x))[0] & 0x1fffffff == 0:     # a float widened by the compiler
        return _snap(x, True)
    for op, y in (('pi', x / math.pi), ('1/pi', x * math.pi), ('pi2', x / math.pi ** 2)):
        q = Fraction(y).limit_denominator(5000)
        if q != 0 and abs(float(q) - y) <= 3e-15 * abs(y):
            # require a genuinely simple ratio
            if abs(q.numerator) * q.denominator < 10 ** 7:
                return (op, q)
    q = Fraction(x).limit_denominator(2000)
    if q != 0 and abs(float(q) - x) <= 2.3e-16 * abs(x) and abs(q.numerator) < 10 ** 6:
        return X.norm_frac(q)
    y = x * x
    q = Fraction(y).limit_denominator(50)
    if q != 0 and abs(float(q) - y) <= 1e-15 * y and q.numerator < 100:
        return ('sqrt', q if x > 0 else -q)
    return X.norm_frac(Fraction(x))
