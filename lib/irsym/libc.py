"""Models of libc / libm functions used by the program (the environment of the symbolic execution)."""
import math, os, re, struct
from fractions import Fraction
from . import expr as X
from .smt import B, bnot, band
from .mem import MemError, UNDEF, RealBits, SH, OMASK, Obj, copy as memcopy
from .engine import PathEnd, sgn

STUBS = {}


def stub(*names):
    def d(f):
        for n in names or (f.__name__,):
            STUBS[n] = f
        return f
    return d


def S32(v):
    return sgn(v & 0xffffffff, 32)


def U32(v):
    return v & 0xffffffff


def cond(eng, pred, a, b):
    from .compile import fcmp
    return eng.decide(fcmp(pred, a, b))


# ------------------------------------------------------------------ math
def m_abs(eng, x):
    if x is UNDEF:
        return x
    if not X.isnode(x):
        return abs(x)
    if eng.state.get('absnode'):
        return X.fn('sqrt', X.mul(x, x))
    return X.neg(x) if cond(eng, 'olt', x, 0) else x


def m_floor(eng, x):
    from .compile import floor_real
    return floor_real(eng, x)


def m_ceil(eng, x):
    if x is UNDEF:
        return x
    if not X.isnode(x):
        return x if isinstance(x, float) and not math.isfinite(x) else math.ceil(x)
    return -eng.fork_int(X.neg(x), 'ceil')


def m_round(eng, x):
    if not X.isnode(x):
        if isinstance(x, float):
            return x
        return math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))
    if cond(eng, 'olt', x, 0):
        return -eng.fork_int(X.add(X.neg(x), Fraction(1, 2)), 'round')
    return eng.fork_int(X.add(x, Fraction(1, 2)), 'round')


def m_rint(eng, x):
    """round half to even; a symbolic tie has both neighbours explored via the half-open split"""
    if not X.isnode(x):
        return round(Fraction(x)) if not isinstance(x, float) else x
    n = eng.fork_int(X.add(x, Fraction(1, 2)), 'rint')
    return n


def m_trunc(eng, x):
    if not X.isnode(x):
        return math.trunc(x)
    if cond(eng, 'olt', x, 0):
        return -eng.fork_int(X.neg(x), 'trunc')
    return eng.fork_int(x, 'trunc')


def m_sqrt(eng, x):
    if x is UNDEF:
        return x
    if not X.isnode(x) and x > 0 and eng.state.get('fsqrt'):
        # a concrete argument: the correctly rounded double (exact for perfect squares)
        f = Fraction(x)
        if math.isqrt(f.numerator) ** 2 != f.numerator or math.isqrt(f.denominator) ** 2 != f.denominator:
            return Fraction(math.sqrt(f))
    return X.fn('sqrt', x)


def m1(name):
    def f(eng, x):
        if x is UNDEF:
            return x
        return X.fn(name, x)
    return f


def m_pow(eng, x, y):
    if not X.isnode(y):
        y = X.fix(y)
        if isinstance(y, int):
            if abs(y) > 64:
                return X.fn('pow', x, y) if X.isnode(x) else X.norm_frac(Fraction(x) ** y)
            r = 1
            for _ in range(abs(y)):
                r = X.mul(r, x)
            return r if y >= 0 else X.div(1, r)
        if Fraction(y) == Fraction(1, 2):
            return X.fn('sqrt', x)
        if Fraction(y) == Fraction(3, 2):
            return X.mul(X.fn('sqrt', x), x)
        if not X.isnode(x) and x == 10:
            return X.fn('exp', X.mul(X.fn('log', 10), y))
    if not X.isnode(x) and x == 0:
        return 0
    if not X.isnode(x) and x == 1:
        return 1
    return X.fn('exp', X.mul(y, X.fn('log', x)))


def m_max(eng, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return b if cond(eng, 'olt', a, b) else a


def m_min(eng, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return a if cond(eng, 'olt', a, b) else b


def m_hypot(eng, a, b):
    if not X.isnode(a) and a == 0:
        return m_abs(eng, b)
    if not X.isnode(b) and b == 0:
        return m_abs(eng, a)
    return X.fn('sqrt', X.add(X.mul(a, a), X.mul(b, b)))


def m_atan2(eng, y, x):
    if not X.isnode(y) and not X.isnode(x):
        if y == 0:
            return 0 if x >= 0 else X.pi()
        if x == 0:
            return X.mul(X.pi(), Fraction(1, 2) if y > 0 else Fraction(-1, 2))
    return X.fn('atan2', y, x)


for n_, f_ in {'sin': m1('sin'), 'cos': m1('cos'), 'tan': m1('tan'), 'exp': m1('exp'), 'log': m1('log'), 'sqrt': m_sqrt,
               'atan': m1('atan'), 'acos': m1('acos'), 'asin': m1('asin'), 'sinh': m1('sinh'), 'cosh': m1('cosh'),
               'tanh': m1('tanh'), 'asinh': m1('asinh'), 'fabs': m_abs, 'floor': m_floor, 'ceil': m_ceil,
               'round': m_round, 'rint': m_rint, 'nearbyint': m_rint, 'trunc': m_trunc, 'pow': m_pow, 'fmax': m_max,
               'fmin': m_min, 'hypot': m_hypot, 'atan2': m_atan2, 'j0': m1('j0'), 'j1': m1('j1')}.items():
    STUBS[n_] = f_
    STUBS[n_ + 'f'] = f_


@stub('jn')
def jn(eng, n, x):
    n = S32(n)
    if n in (0, 1, 2):
        if not X.isnode(x) and x == 0:
            return 1 if n == 0 else 0
        if n < 2:
            return X.fn('j%d' % n, x)
        # recurrence: j2 = 2 j1/x - j0
        return X.add(X.div(X.mul(2, X.fn('j1', x)), x), X.neg(X.fn('j0', x)))
    raise X.Unsupported('jn %d' % n)


@stub('lround')
def lround(eng, x):
    return m_round(eng, x) & ((1 << 64) - 1)


@stub('cabs')
def cabs(eng, re, im):
    return m_hypot(eng, re, im)


@stub('csqrt')
def csqrt(eng, re, im):
    if not X.isnode(im) and im == 0:
        if X.squares(re) or cond(eng, 'oge', re, 0):
            return (X.fn('sqrt', re), 0)
        return (0, X.fn('sqrt', X.neg(re)))
    if not X.isnode(re) and re == 0:
        # sqrt(i*b) = sqrt(|b|/2) (1 +- i)
        if cond(eng, 'oge', im, 0):
            s = X.fn('sqrt', X.div(im, 2))
            return (s, s)
        s = X.fn('sqrt', X.div(X.neg(im), 2))
        return (s, X.neg(s))
    r = X.fn('sqrt', X.add(X.mul(re, re), X.mul(im, im)))
    a = X.fn('sqrt', X.div(X.add(r, re), 2))
    return (a, X.div(im, X.mul(2, a)))


@stub('cexp')
def cexp(eng, re, im):
    e = X.fn('exp', re)
    return (X.mul(e, X.fn('cos', im)), X.mul(e, X.fn('sin', im)))


@stub('clog')
def clog(eng, re, im):
    if not X.isnode(im) and im == 0:
        if cond(eng, 'ogt', re, 0):
            return (X.fn('log', re), 0)
        return (X.fn('log', X.neg(re)), X.pi())
    if not X.isnode(re) and re == 0:
        if cond(eng, 'ogt', im, 0):
            return (X.fn('log', im), X.div(X.pi(), 2))
        return (X.fn('log', X.neg(im)), X.div(X.pi(), -2))
    return (X.mul(X.fn('log', X.add(X.mul(re, re), X.mul(im, im))), Fraction(1, 2)), m_atan2(eng, im, re))


@stub('catan')
def catan(eng, re, im):
    if not X.isnode(im) and im == 0:
        return (X.fn('atan', re), 0)
    raise X.Unsupported('catan')


@stub('cpow')
def cpow(eng, a, b, c, d):
    raise X.Unsupported('cpow')


def intrinsic(name):
    base = name.split('.')[1]
    rest = name.split('.', 1)[1]
    t = {'sqrt': m_sqrt, 'fabs': m_abs, 'floor': m_floor, 'ceil': m_ceil, 'round': m_round, 'rint': m_rint,
         'nearbyint': m_rint, 'trunc': m_trunc, 'sin': m1('sin'), 'cos': m1('cos'), 'exp': m1('exp'), 'log': m1('log'),
         'pow': m_pow, 'maxnum': m_max, 'minnum': m_min, 'tan': m1('tan')}
    if base in t:
        return t[base]
    if base == 'fmuladd' or base == 'fma':
        return lambda eng, a, b, c: X.add(X.mul(a, b), c)
    if base == 'powi':
        return lambda eng, a, n: m_pow(eng, a, S32(n))
    if base == 'copysign':
        def cs(eng, a, b):
            a = m_abs(eng, a)
            return X.neg(a) if cond(eng, 'olt', b, 0) else a
        return cs
    if base == 'exp2':
        return lambda eng, a: m_pow(eng, 2, a)
    if base in ('memcpy', 'memmove'):
        def mc(eng, d, s, n, v):
            if n == 0:
                return
            if n is UNDEF:
                raise MemError('uninitialised', 'memcpy size')
            do, doff = eng.obj(d)
            so, soff = eng.obj(s)
            memcopy(do, doff, so, soff, n)
        return mc
    if base == 'memset':
        return lambda eng, d, c, n, v: do_memset(eng, d, c, n)
    if base in ('umax', 'umin', 'smax', 'smin'):
        n = int(name.rsplit('.i', 1)[1])
        f = max if base.endswith('max') else min
        if base[0] == 'u':
            return lambda eng, a, b: UNDEF if a is UNDEF or b is UNDEF else f(a, b)
        m = (1 << n) - 1
        return lambda eng, a, b: UNDEF if a is UNDEF or b is UNDEF else f(sgn(a, n), sgn(b, n)) & m
    if base == 'abs':
        n = int(name.rsplit('.i', 1)[1])
        return lambda eng, a, z: abs(sgn(a, n)) & ((1 << n) - 1)
    if base == 'bswap':
        n = int(name.rsplit('.i', 1)[1])

        def bs(eng, a):
            if isinstance(a, RealBits):
                return SwapBits(a)
            if isinstance(a, SwapBits):
                return a.v
            return int.from_bytes((a & ((1 << n) - 1)).to_bytes(n // 8, 'little'), 'big')
        return bs
    if base in ('fshl', 'fshr'):
        n = int(name.rsplit('.i', 1)[1])

        def fs(eng, a, b, c):
            c %= n
            x = (a << n) | b
            x = (x << c) >> n if base == 'fshl' else x >> c
            return x & ((1 << n) - 1)
        return fs
    if rest.startswith('umul.with.overflow') or rest.startswith('uadd.with.overflow') or rest.startswith('usub.with.overflow'):
        n = int(name.rsplit('.i', 1)[1])
        m = (1 << n) - 1

        def ov(eng, a, b):
            r = a * b if 'umul' in rest else (a + b if 'uadd' in rest else a - b)
            return (r & m, 1 if r != r & m else 0)
        return ov
    if rest.startswith('smul.with.overflow') or rest.startswith('sadd.with.overflow') or rest.startswith('ssub.with.overflow'):
        n = int(name.rsplit('.i', 1)[1])
        m = (1 << n) - 1

        def ov(eng, a, b):
            a, b = sgn(a, n), sgn(b, n)
            r = a * b if 'smul' in rest else (a + b if 'sadd' in rest else a - b)
            return (r & m, 1 if not -(1 << (n - 1)) <= r < (1 << (n - 1)) else 0)
        return ov
    if rest.startswith('usub.sat'):
        return lambda eng, a, b: max(0, a - b)
    if base == 'stacksave':
        return lambda eng: 0
    if base == 'ctpop':
        return lambda eng, a: bin(a).count('1')
    if base in ('ctlz', 'cttz'):
        n = int(name.rsplit('.i', 1)[1])

        def cz(eng, a, z):
            if a == 0:
                return n
            return n - a.bit_length() if base == 'ctlz' else (a & -a).bit_length() - 1
        return cz
    if rest.startswith('load.relative'):
        def lr(eng, p, off):
            o, q = eng.obj(p + off)
            c = o.cells.get(q)
            raise X.Unsupported('load.relative')
        return lr
    if base == 'expect':
        return lambda eng, a, b: a
    if base == 'is':
        # llvm.is.fpclass
        def isf(eng, x, m):
            if isinstance(x, float):
                if x != x:
                    return 1 if m & 3 else 0
                if math.isinf(x):
                    return 1 if m & (0x200 if x > 0 else 4) else 0
            return 1 if m & 0x1f8 == 0x1f8 else 0
        return isf
    if base == 'objectsize':
        return lambda eng, *a: (1 << 64) - 1
    if base == 'trap':
        def tr(eng):
            raise MemError('trap', '')
        return tr

    def bad(eng, *a):
        raise X.Unsupported('intrinsic ' + name)
    return bad


class SwapBits:
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ memory
def do_memset(eng, d, c, n):
    if n is UNDEF:
        raise MemError('uninitialised', 'memset size')
    if n == 0:
        return d
    o, off = eng.obj(d)
    c &= 255
    if c == 0:
        o.setzero(off, n)
    else:
        o.check(off, n, 'memset')
        o.clear(off, n)
        for i in range(n):
            o.cells[off + i] = (1, c, False)
    return d


@stub('memset')
def memset(eng, d, c, n):
    return do_memset(eng, d, c, n)


@stub('memcpy', 'memmove')
def memcpy(eng, d, s, n):
    if n:
        do, doff = eng.obj(d)
        so, soff = eng.obj(s)
        memcopy(do, doff, so, soff, n)
    return d


@stub('malloc', 'fftw_malloc', 'fftwf_malloc')
def malloc(eng, n):
    if n is UNDEF:
        raise MemError('uninitialised', 'malloc size')
    return eng.alloc('heap:' + (eng.callstack[-1] if eng.callstack else ''), n, heap=True)


@stub('calloc')
def calloc(eng, a, b):
    if a is UNDEF or b is UNDEF:
        raise MemError('uninitialised', 'calloc size')
    return eng.alloc('heap:' + (eng.callstack[-1] if eng.callstack else ''), a * b, zero=True, heap=True)


@stub('realloc')
def realloc(eng, p, n):
    q = malloc(eng, n)
    if p:
        o, off = eng.obj(p)
        if off or not o.heap or o.dead:
            raise MemError('bad-free', 'realloc of %s+%d' % (o.name, off))
        memcopy(eng.objs[q >> SH], 0, o, 0, min(n, o.size))
        o.dead = True
    return q


@stub('free', 'fftw_free', 'fftwf_free')
def free(eng, p):
    if p is UNDEF:
        raise MemError('uninitialised', 'free of an uninitialised pointer')
    if p == 0:
        return
    o, off = eng.obj(p)
    if off or not o.heap:
        raise MemError('bad-free', 'free of %s+%d' % (o.name, off))
    if o.dead:
        raise MemError('double-free', o.name)
    o.dead = True


@stub('exit', '_exit', 'abort')
def exit_(eng, *c):
    raise PathEnd('exit', S32(c[0]) if c else 134)


@stub('__assert_fail')
def assert_fail(eng, *a):
    raise PathEnd('exit', 134)


# ------------------------------------------------------------------ strings
@stub('strlen')
def strlen(eng, p):
    return len(eng.cstr(p))


def scmp(a, b):
    return 0 if a == b else (1 if a > b else 0xffffffff)


@stub('strcmp')
def strcmp(eng, a, b):
    return scmp(eng.cstr(a), eng.cstr(b))


@stub('strcasecmp')
def strcasecmp(eng, a, b):
    return scmp(eng.cstr(a).lower(), eng.cstr(b).lower())


@stub('strncmp')
def strncmp(eng, a, b, n):
    return scmp(eng.cstr(a)[:n], eng.cstr(b)[:n])


@stub('strncasecmp')
def strncasecmp(eng, a, b, n):
    return scmp(eng.cstr(a).lower()[:n], eng.cstr(b).lower()[:n])


@stub('memcmp', 'bcmp')
def memcmp(eng, a, b, n):
    oa, fa = eng.obj(a)
    ob, fb = eng.obj(b)
    for i in range(n):
        x, y = oa.load(fa + i, 1, False), ob.load(fb + i, 1, False)
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0


@stub('strcpy')
def strcpy(eng, d, s):
    eng.put_str(d, eng.cstr(s))
    return d


@stub('stpcpy')
def stpcpy(eng, d, s):
    x = eng.cstr(s)
    eng.put_str(d, x)
    return d + len(x)


@stub('strncpy')
def strncpy(eng, d, s, n):
    x = eng.cstr(s)[:n]
    o, off = eng.obj(d)
    for i in range(n):
        o.store(off + i, 1, ord(x[i]) if i < len(x) else 0, False)
    return d


@stub('strcat')
def strcat(eng, d, s):
    eng.put_str(d + len(eng.cstr(d)), eng.cstr(s))
    return d


@stub('strncat')
def strncat(eng, d, s, n):
    eng.put_str(d + len(eng.cstr(d)), eng.cstr(s)[:n])
    return d


@stub('strdup', '__strdup')
def strdup(eng, s):
    return eng.new_str(eng.cstr(s), heap=True)


@stub('strndup')
def strndup(eng, s, n):
    return eng.new_str(eng.cstr(s)[:n], heap=True)


@stub('strchr', 'index')
def strchr(eng, s, c):
    x = eng.cstr(s) + '\0'
    i = x.find(chr(c & 255))
    return s + i if i >= 0 else 0


@stub('strrchr', 'rindex')
def strrchr(eng, s, c):
    x = eng.cstr(s) + '\0'
    i = x.rfind(chr(c & 255))
    return s + i if i >= 0 else 0


@stub('strstr')
def strstr(eng, s, t):
    i = eng.cstr(s).find(eng.cstr(t))
    return s + i if i >= 0 else 0


@stub('strspn')
def strspn(eng, s, t):
    x, y = eng.cstr(s), eng.cstr(t)
    i = 0
    while i < len(x) and x[i] in y:
        i += 1
    return i


@stub('strcspn')
def strcspn(eng, s, t):
    x, y = eng.cstr(s), eng.cstr(t)
    i = 0
    while i < len(x) and x[i] not in y:
        i += 1
    return i


@stub('strpbrk')
def strpbrk(eng, s, t):
    i = strcspn(eng, s, t)
    return s + i if i < len(eng.cstr(s)) else 0


def tok(eng, s, delim, get, put):
    if s == 0:
        s = get()
        if s == 0:
            return 0
    x = eng.cstr(s)
    d = eng.cstr(delim)
    i = 0
    while i < len(x) and x[i] in d:
        i += 1
    if i == len(x):
        put(0)
        return 0
    j = i
    while j < len(x) and x[j] not in d:
        j += 1
    if j < len(x):
        o, off = eng.obj(s)
        o.store(off + j, 1, 0, False)
        put(s + j + 1)
    else:
        put(0)
    return s + i


@stub('strtok')
def strtok(eng, s, delim):
    return tok(eng, s, delim, lambda: eng.state.get('strtok', 0), lambda v: eng.state.__setitem__('strtok', v))


@stub('strtok_r', '__strtok_r')
def strtok_r(eng, s, delim, save):
    def get():
        return eng.load(save, P64)

    def put(v):
        eng.store(save, P64, v)
    return tok(eng, s, delim, get, put)


from .ir import PTR as P64, INT, DBL, FLT

NUM = re.compile(r'\s*(\$\d+\$|[-+]?(?:inf(?:inity)?|nan|0x[0-9a-f]+|(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?))', re.I)
INTRE = re.compile(r'\s*([-+]?\d+)')


def placeholder(eng, v):
    t = eng.state.setdefault('ph', [])
    t.append(v)
    return '$%d$' % (len(t) - 1)


def numval(eng, s):
    if s[0] == '$':
        return eng.state['ph'][int(s[1:-1])]
    l = s.lower()
    if 'inf' in l or 'nan' in l:
        return float(l)
    if '0x' in l:
        return int(l, 16)
    return X.norm_frac(Fraction(s))


@stub('strtod', 'strtof')
def strtod(eng, s, end):
    x = eng.cstr(s)
    m = NUM.match(x)
    if end:
        eng.store(end, P64, s + (m.end() if m else 0))
    return numval(eng, m.group(1)) if m else 0


@stub('atof')
def atof(eng, s):
    m = NUM.match(eng.cstr(s))
    return numval(eng, m.group(1)) if m else 0


@stub('__isoc23_strtol', 'strtol', '__isoc23_strtoul', 'strtoul', '__isoc23_strtoll', 'strtoll')
def strtol(eng, s, end, base):
    x = eng.cstr(s)
    m = INTRE.match(x)
    if end:
        eng.store(end, P64, s + (m.end() if m else 0))
    return int(m.group(1)) & ((1 << 64) - 1) if m else 0


@stub('atoi')
def atoi(eng, s):
    m = INTRE.match(eng.cstr(s))
    return int(m.group(1)) & 0xffffffff if m else 0


def scan(eng, text, fmt, args):
    """returns (count, consumed)"""
    i = 0
    j = 0
    n = 0
    args = list(args)
    eof = False
    while j < len(fmt):
        c = fmt[j]
        if c.isspace():
            while i < len(text) and text[i].isspace():
                i += 1
            j += 1
            continue
        if c != '%':
            if i < len(text) and text[i] == c:
                i += 1
                j += 1
                continue
            if i >= len(text) and n == 0:
                eof = True
            break
        j += 1
        if fmt[j] == '%':
            if i < len(text) and text[i] == '%':
                i += 1; j += 1
                continue
            break
        sup = False
        if fmt[j] == '*':
            sup = True
            j += 1
        w = ''
        while fmt[j].isdigit():
            w += fmt[j]; j += 1
        w = int(w) if w else None
        mod = ''
        while fmt[j] in 'hlLzjt':
            mod += fmt[j]; j += 1
        k = fmt[j]
        j += 1
        if k == 'n':
            a = args.pop(0)
            eng.store(a, INT(32), i)
            continue
        if k not in 'c[':
            while i < len(text) and text[i].isspace():
                i += 1
        if i >= len(text):
            if n == 0:
                eof = True
            break
        if k in 'diu':
            m = INTRE.match(text, i)
            if not m:
                break
            if not sup:
                a = args.pop(0)
                bits = 64 if 'l' in mod or 'z' in mod else 32
                eng.store(a, INT(bits), int(m.group(1)) & ((1 << bits) - 1))
                n += 1
            i = m.end()
        elif k in 'feg':
            m = NUM.match(text, i)
            if not m:
                break
            if not sup:
                a = args.pop(0)
                eng.store(a, DBL if 'l' in mod else FLT, numval(eng, m.group(1)))
                n += 1
            i = m.end()
        elif k in 's[':
            if k == '[':
                inv = fmt[j] == '^'
                if inv:
                    j += 1
                e = fmt.index(']', j + 1)
                st = fmt[j:e]
                j = e + 1
                chars = set()
                q = 0
                while q < len(st):
                    if q + 2 < len(st) and st[q + 1] == '-':
                        chars |= set(map(chr, range(ord(st[q]), ord(st[q + 2]) + 1)))
                        q += 3
                    else:
                        chars.add(st[q]); q += 1
                ok = (lambda ch: ch not in chars) if inv else (lambda ch: ch in chars)
            else:
                ok = lambda ch: not ch.isspace()
            e = i
            while e < len(text) and ok(text[e]) and (w is None or e - i < w):
                e += 1
            if e == i:
                break
            if not sup:
                eng.put_str(args.pop(0), text[i:e])
                n += 1
            i = e
        elif k == 'c':
            if not sup:
                a = args.pop(0)
                eng.store(a, INT(8), ord(text[i]))
                n += 1
            i += 1
        else:
            raise X.Unsupported('scanf %' + k)
    return (0xffffffff if eof and n == 0 else n), i


@stub('__isoc23_sscanf', 'sscanf', '__isoc99_sscanf')
def sscanf(eng, s, fmt, *args):
    return scan(eng, eng.cstr(s), eng.cstr(fmt), args)[0]


def fmtout(eng, fmt, args):
    out = []
    args = list(args)
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c); i += 1
            continue
        m = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([hlLzjt]*)([a-zA-Z%])').match(fmt, i)
        if not m:
            out.append(c); i += 1
            continue
        i = m.end()
        fl, w, pr, mod, k = m.groups()
        if k == '%':
            out.append('%')
            continue
        if w == '*':
            w = str(S32(args.pop(0)))
            if w[0] == '-':
                fl += '-'; w = w[1:]
        if pr == '*':
            pr = str(S32(args.pop(0)))
        a = args.pop(0)
        spec = '%' + fl + (w or '') + ('.' + pr if pr is not None else '')
        if k in 'di':
            if not isinstance(a, int):
                from .compile import cint
                a = cint(eng, a)
            bits = 64 if 'l' in mod or 'z' in mod or 'j' in mod else 32
            out.append((spec + 'd') % sgn(a & ((1 << bits) - 1), bits))
        elif k in 'uxXo':
            bits = 64 if 'l' in mod or 'z' in mod or 'j' in mod else 32
            out.append((spec + ('d' if k == 'u' else k)) % (a & ((1 << bits) - 1)))
        elif k == 'c':
            out.append(chr(a & 255))
        elif k == 's':
            out.append((spec + 's') % (eng.cstr(a) if a else '(null)'))
        elif k in 'feEgG':
            if a is UNDEF:
                out.append('undef')
            elif X.isnode(a) or isinstance(a, Fraction):
                ph = placeholder(eng, a)
                wd = int(w) if w else 0
                out.append(ph.ljust(wd) if '-' in fl else ph.rjust(wd))
            else:
                out.append((spec + k) % float(a))
        elif k == 'p':
            out.append('%#x' % a)
        else:
            raise X.Unsupported('printf %' + k)
    return ''.join(out)


@stub('printf')
def printf(eng, fmt, *a):
    s = fmtout(eng, eng.cstr(fmt), a)
    eng.state.setdefault('stdout', []).append(s)
    return len(s)


@stub('puts')
def puts(eng, s):
    eng.state.setdefault('stdout', []).append(eng.cstr(s) + '\n')
    return 1


@stub('putchar')
def putchar(eng, c):
    eng.state.setdefault('stdout', []).append(chr(c & 255))
    return c


@stub('snprintf')
def snprintf(eng, buf, n, fmt, *a):
    s = fmtout(eng, eng.cstr(fmt), a)
    if n:
        eng.put_str(buf, s[:n - 1])
    return len(s)


@stub('sprintf')
def sprintf(eng, buf, fmt, *a):
    s = fmtout(eng, eng.cstr(fmt), a)
    eng.put_str(buf, s)
    return len(s)


@stub('asprintf', '__asprintf')
def asprintf(eng, pp, fmt, *a):
    s = fmtout(eng, eng.cstr(fmt), a)
    eng.store(pp, P64, eng.new_str(s, heap=True))
    return len(s)


def ctype_table(eng, key, fn, size):
    a = eng.state.get(key)
    if a is None:
        t = eng.alloc(key, 384 * size, zero=True)
        o = eng.objs[t >> SH]
        for c in range(-128, 256):
            o.cells[(c + 128) * size] = (size, fn(c), False)
        p = eng.alloc(key + 'p', 8)
        eng.store(p, P64, t + 128 * size)
        a = eng.state[key] = p
    return a


def _ctb(c):
    if c < 0 or c > 127:
        return 0
    ch = chr(c)
    v = 0
    if ch.isupper(): v |= 0x100
    if ch.islower(): v |= 0x200
    if ch.isalpha(): v |= 0x400
    if ch.isdigit(): v |= 0x800
    if ch in '0123456789abcdefABCDEF': v |= 0x1000
    if ch in ' \t\n\v\f\r': v |= 0x2000
    if 32 <= c < 127: v |= 0x4000
    if 32 < c < 127: v |= 0x8000
    if ch in ' \t': v |= 0x1
    if c < 32 or c == 127: v |= 0x2
    if 32 < c < 127 and not ch.isalnum(): v |= 0x4
    if ch.isalnum(): v |= 0x8
    return v


@stub('__ctype_b_loc')
def ctype_b(eng):
    return ctype_table(eng, 'ctype_b', _ctb, 2)


@stub('__ctype_toupper_loc')
def ctype_up(eng):
    return ctype_table(eng, 'ctype_up', lambda c: (ord(chr(c).upper()) if 0 <= c < 128 else c) & 0xffffffff, 4)


@stub('__ctype_tolower_loc')
def ctype_lo(eng):
    return ctype_table(eng, 'ctype_lo', lambda c: (ord(chr(c).lower()) if 0 <= c < 128 else c) & 0xffffffff, 4)


@stub('toupper')
def toupper(eng, c):
    return ord(chr(c).upper()) if c < 128 else c


@stub('tolower')
def tolower(eng, c):
    return ord(chr(c).lower()) if c < 128 else c


@stub('__errno_location')
def errno_loc(eng):
    a = eng.state.get('errno')
    if a is None:
        a = eng.state['errno'] = eng.alloc('errno', 4, zero=True)
    return a


@stub('strerror', 'nc_strerror')
def strerror(eng, n):
    return eng.new_str('error %d' % S32(n))


@stub('gettimeofday', 'clock_gettime')
def gettimeofday(eng, a, b):
    p = a if a > 4096 else b
    eng.store(p, INT(64), 0)
    eng.store(p + 8, INT(64), 0)
    return 0


@stub('time', 'clock')
def time_(eng, *a):
    return 0


@stub('qsort')
def qsort(eng, base, n, size, cmp):
    """insertion sort calling the program's comparator (any correct sort gives the same result for a strict weak order)"""
    if n < 2:
        return
    o, off = eng.obj(base)
    o.check(off, n * size, 'qsort')
    f, _ = eng.obj(cmp)
    m, nm = f.func
    tmp = eng.alloc('qsort-tmp', size)
    t = eng.objs[tmp >> SH]
    for i in range(1, n):
        memcopy(t, 0, o, off + i * size, size)
        j = i
        while j > 0:
            r = eng.call(m, nm, [base + (j - 1) * size, tmp])
            from .compile import cint
            if S32(cint(eng, r)) <= 0:
                break
            memcopy(o, off + j * size, o, off + (j - 1) * size, size)
            j -= 1
        memcopy(o, off + j * size, t, 0, size)
    t.dead = True


# ------------------------------------------------------------------ files (in-memory)
class VFile:
    def __init__(self, path):
        self.path = path
        self.o = Obj(-1, 'file:' + path, 0)


def norm(p):
    return os.path.normpath(p)


@stub('fopen', 'fopen64')
def fopen(eng, path, mode):
    p = norm(eng.cstr(path)); m = eng.cstr(mode)
    fs = eng.files
    if m[0] == 'r':
        if p not in fs:
            eng.store(errno_loc(eng), INT(32), 2)
            return 0
        vf = fs[p]
        pos = 0
    elif m[0] == 'w':
        vf = fs[p] = VFile(p)
        pos = 0
    else:
        vf = fs.setdefault(p, VFile(p))
        pos = vf.o.size
    h = eng.alloc('FILE:' + p, 16, zero=True)
    eng.state.setdefault('fh', {})[h] = [vf, pos, False]
    return h


def fh(eng, h):
    if h == 0:
        raise MemError('null-dereference', 'FILE*')
    t = eng.state.get('fh', {}).get(h)
    if t is None:
        if h in eng.state.get('std', {}):
            return None
        raise MemError('bad-file', 'operation on a closed or invalid stream')
    return t


@stub('fclose')
def fclose(eng, h):
    if h in eng.state.get('std', {}):
        return 0
    fh(eng, h)
    del eng.state['fh'][h]
    return 0


@stub('fflush')
def fflush(eng, h):
    return 0


@stub('fwrite')
def fwrite(eng, p, size, n, h):
    t = fh(eng, h)
    k = size * n
    if t is None:
        return n
    if k:
        vf, pos, _ = t
        if vf.o.size < pos + k:
            vf.o.size = pos + k
        so, soff = eng.obj(p)
        memcopy(vf.o, pos, so, soff, k)
        t[1] += k
    return n


def wtext(eng, h, s):
    t = fh(eng, h)
    if t is None:
        eng.state.setdefault(eng.state['std'][h], []).append(s)
        return
    vf, pos, _ = t
    b = s.encode('latin-1')
    vf.o.size = max(vf.o.size, pos + len(b))
    for i, c in enumerate(b):
        vf.o.store(pos + i, 1, c, False)
    t[1] += len(b)


@stub('fprintf')
def fprintf(eng, h, fmt, *a):
    s = fmtout(eng, eng.cstr(fmt), a)
    wtext(eng, h, s)
    return len(s)


@stub('fputs')
def fputs(eng, s, h):
    wtext(eng, h, eng.cstr(s))
    return 1


@stub('fputc', 'putc')
def fputc(eng, c, h):
    wtext(eng, h, chr(c & 255))
    return c


@stub('fread')
def fread(eng, p, size, n, h):
    t = fh(eng, h)
    vf, pos, _ = t
    avail = (vf.o.size - pos) // size if size else 0
    k = min(n, avail)
    if k < n:
        t[2] = True
    if k:
        do, doff = eng.obj(p)
        memcopy(do, doff, vf.o, pos, k * size)
        t[1] += k * size
    return k


@stub('fgetc', 'getc')
def fgetc(eng, h):
    t = fh(eng, h)
    vf, pos, _ = t
    if pos >= vf.o.size:
        t[2] = True
        return 0xffffffff
    t[1] += 1
    return vf.o.load(pos, 1, False)


@stub('fgets')
def fgets(eng, buf, n, h):
    t = fh(eng, h)
    out = []
    while len(out) < S32(n) - 1:
        c = fgetc(eng, h)
        if c == 0xffffffff:
            break
        out.append(chr(c))
        if c == 10:
            break
    if not out:
        return 0
    eng.put_str(buf, ''.join(out))
    return buf


@stub('getline')
def getline(eng, lp, np, h):
    out = []
    while True:
        c = fgetc(eng, h)
        if c == 0xffffffff:
            break
        out.append(chr(c))
        if c == 10:
            break
    if not out:
        return (1 << 64) - 1
    s = ''.join(out)
    p = eng.load(lp, P64)
    if p == 0 or eng.obj(p)[0].size < len(s) + 1:
        if p:
            free(eng, p)
        p = malloc(eng, len(s) + 120)
        eng.store(lp, P64, p)
        eng.store(np, INT(64), len(s) + 120)
    eng.put_str(p, s)
    return len(s)


@stub('fseek')
def fseek(eng, h, off, wh):
    t = fh(eng, h)
    off = sgn(off, 64)
    t[1] = off if wh == 0 else (t[1] + off if wh == 1 else t[0].o.size + off)
    t[2] = False
    return 0


@stub('ftell')
def ftell(eng, h):
    return fh(eng, h)[1]


@stub('rewind')
def rewind(eng, h):
    t = fh(eng, h)
    t[1] = 0
    t[2] = False


@stub('feof')
def feof(eng, h):
    return 1 if fh(eng, h)[2] else 0


@stub('ferror')
def ferror(eng, h):
    return 0


def isdir(eng, p):
    return p in ('.', '/') or p in eng.state.get('dirs', ()) or any(f.startswith(p + '/') for f in list(eng.files) + list(eng.state.get('nc', {})))


@stub('access')
def access(eng, path, mode):
    p = norm(eng.cstr(path))
    return 0 if p in eng.files or p in eng.state.get('nc', {}) or isdir(eng, p) else 0xffffffff


@stub('stat', 'stat64', '__xstat')
def stat(eng, path, st):
    p = norm(eng.cstr(path))
    d = isdir(eng, p)
    if not d and p not in eng.files and p not in eng.state.get('nc', {}):
        eng.store(errno_loc(eng), INT(32), 2)
        return 0xffffffff
    o, off = eng.obj(st)
    o.setzero(off, 144)
    eng.store(st + 24, INT(32), 0o40755 if d else 0o100644)
    eng.store(st + 48, INT(64), eng.files[p].o.size if p in eng.files else 4096)
    return 0


@stub('mkdir')
def mkdir(eng, path, mode):
    p = norm(eng.cstr(path))
    if isdir(eng, p):
        eng.store(errno_loc(eng), INT(32), 17)
        return 0xffffffff
    eng.state.setdefault('dirs', set()).add(p)
    return 0


@stub('realpath')
def realpath(eng, path, out):
    p = norm('/w/' + eng.cstr(path))
    if out:
        eng.put_str(out, p)
        return out
    return eng.new_str(p, heap=True)


@stub('opendir')
def opendir(eng, path):
    p = norm(eng.cstr(path))
    if not isdir(eng, p):
        return 0
    names = []
    for f in sorted(list(eng.files) + list(eng.state.get('nc', {})) + list(eng.state.get('dirs', ()))):
        q = f if p == '.' else (f[len(p) + 1:] if f.startswith(p + '/') else None)
        if q:
            q = q.split('/')[0]
            if q not in names:
                names.append(q)
    h = eng.alloc('DIR', 8)
    eng.state.setdefault('dh', {})[h] = [names, 0]
    return h


@stub('readdir', 'readdir64')
def readdir(eng, h):
    t = eng.state['dh'][h]
    if t[1] >= len(t[0]):
        return 0
    nm = t[0][t[1]]
    t[1] += 1
    d = eng.alloc('dirent', 280, zero=True)
    eng.put_str(d + 19, nm)
    eng.store(d + 18, INT(8), 8)
    return d


@stub('closedir')
def closedir(eng, h):
    eng.state['dh'].pop(h)
    return 0


@stub('remove', 'unlink')
def remove(eng, path):
    eng.files.pop(norm(eng.cstr(path)), None)
    return 0


# ------------------------------------------------------------------ getopt
@stub('getopt')
def getopt(eng, argc, argv, opts):
    m = eng.mods[0]

    def g(name):
        a = eng.gaddr.get(name)
        if a is None:
            a = eng.alloc(name, 64, zero=True)
            eng.gaddr[name] = a
            if name in ('optind', 'opterr'):
                eng.objs[a >> SH].store(0, 4, 1, False)
        return a
    ind = eng.load(g('optind'), INT(32))
    if ind == 0:
        ind = 1
        eng.state['optnext'] = 0
    nx = eng.state.get('optnext', 0)
    argc = S32(argc)
    o = eng.cstr(opts)
    colon = False
    while o and o[0] in ':+-':
        if o[0] == ':':
            colon = True
        o = o[1:]
    while True:
        if nx == 0:
            # permutation of non-options is not modelled: harness argv lists options only
            if ind >= argc:
                eng.store(g('optind'), INT(32), ind)
                eng.state['optnext'] = 0
                return 0xffffffff
            s = eng.cstr(eng.load(argv + 8 * ind, P64))
            if len(s) < 2 or s[0] != '-':
                eng.store(g('optind'), INT(32), ind)
                return 0xffffffff
            if s == '--':
                eng.store(g('optind'), INT(32), ind + 1)
                return 0xffffffff
            nx = 1
        s = eng.cstr(eng.load(argv + 8 * ind, P64))
        c = s[nx]
        i = o.find(c)
        if i < 0 or c == ':':
            eng.store(g('optopt'), INT(32), ord(c))
            nx += 1
            if nx >= len(s):
                nx = 0; ind += 1
            eng.store(g('optind'), INT(32), ind)
            eng.state['optnext'] = nx
            return ord('?')
        if o[i + 1:i + 2] == ':':
            opt = o[i + 2:i + 3] == ':'
            if nx + 1 < len(s):
                eng.store(g('optarg'), P64, eng.load(argv + 8 * ind, P64) + nx + 1)
                ind += 1
            elif opt:
                eng.store(g('optarg'), P64, 0)
                ind += 1
            elif ind + 1 < argc:
                eng.store(g('optarg'), P64, eng.load(argv + 8 * (ind + 1), P64))
                ind += 2
            else:
                eng.store(g('optopt'), INT(32), ord(c))
                eng.store(g('optind'), INT(32), ind + 1)
                eng.state['optnext'] = 0
                return ord(':') if colon else ord('?')
            eng.state['optnext'] = 0
            eng.store(g('optind'), INT(32), ind)
            return ord(c)
        eng.store(g('optarg'), P64, 0)
        nx += 1
        if nx >= len(s):
            nx = 0; ind += 1
        eng.state['optnext'] = nx
        eng.store(g('optind'), INT(32), ind)
        return ord(c)


# ------------------------------------------------------------------ FFTW
TW = None


def twiddle(n, j):
    """exact (cos, sin) of 2 pi j / n"""
    j %= n
    f = Fraction(j, n)
    h = Fraction(1, 2)
    tab = {Fraction(0): (1, 0), Fraction(1, 4): (0, 1), Fraction(1, 2): (-1, 0), Fraction(3, 4): (0, -1)}
    if f in tab:
        return tab[f]
    s2 = X.mul(X.fn('sqrt', 2), h)
    s3 = X.mul(X.fn('sqrt', 3), h)
    t8 = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}
    if f.denominator == 8:
        a, b = t8[f.numerator]
        return (X.mul(s2, a), X.mul(s2, b))
    if f.denominator in (3, 6, 12):
        k = int(f * 12)
        c = {1: s3, 2: h, 4: -h, 5: X.neg(s3), 7: X.neg(s3), 8: -h, 10: h, 11: s3}[k]
        s = {1: h, 2: s3, 4: s3, 5: h, 7: -h, 8: X.neg(s3), 10: X.neg(s3), 11: -h}[k]
        return (c, s)
    raise X.Unsupported('DFT length %d' % n)


def mkplan(kind, w):
    def f(eng, n, i, o, fl):
        h = eng.alloc('fftwplan', 8)
        eng.state.setdefault('plans', {})[h] = (kind, w, S32(n), i, o)
        return h
    return f


for pre, w in (('fftw_', DBL), ('fftwf_', FLT)):
    STUBS[pre + 'plan_dft_r2c_1d'] = mkplan('r2c', w)
    STUBS[pre + 'plan_dft_c2r_1d'] = mkplan('c2r', w)


@stub('fftw_execute', 'fftwf_execute')
def fftw_execute(eng, h):
    kind, w, n, i, o = eng.state['plans'][h]
    s = w.size
    if kind == 'r2c':
        xs = [eng.load(i + k * s, w) for k in range(n)]
        for k in range(n // 2 + 1):
            re = im = 0
            for j, x in enumerate(xs):
                c, sn = twiddle(n, k * j)
                re = X.add(re, X.mul(x, c))
                im = X.add(im, X.neg(X.mul(x, sn)))
            eng.store(o + 2 * k * s, w, re)
            eng.store(o + (2 * k + 1) * s, w, im)
    else:
        cs = [(eng.load(i + 2 * k * s, w), eng.load(i + (2 * k + 1) * s, w)) for k in range(n // 2 + 1)]
        for j in range(n):
            v = cs[0][0]
            for k in range(1, n):
                if k <= n // 2:
                    a, b = cs[k]
                    if 2 * k == n:
                        b = 0
                else:
                    a, b = cs[n - k]
                    b = X.neg(b)
                c, sn = twiddle(n, k * j)
                v = X.add(v, X.add(X.mul(a, c), X.neg(X.mul(b, sn))))
            eng.store(o + j * s, w, v)


@stub('fftw_destroy_plan', 'fftwf_destroy_plan')
def fftw_destroy(eng, h):
    eng.state['plans'].pop(h)


# ------------------------------------------------------------------ NetCDF (in-memory model)
class NC:
    def __init__(self):
        self.dims = []
        self.vars = []
        self.atts = {}


def ncid(eng, i):
    t = eng.state.get('ncid', {}).get(S32(i))
    if t is None:
        raise MemError('bad-ncid', str(i))
    return t


def ncopen(eng, nc):
    d = eng.state.setdefault('ncid', {})
    i = 65536 * (len(d) + 1)
    d[i] = nc
    return i


@stub('nc_create')
def nc_create(eng, path, mode, out):
    nc = NC()
    eng.state.setdefault('nc', {})[norm(eng.cstr(path))] = nc
    eng.store(out, INT(32), ncopen(eng, nc))
    return 0


@stub('nc_open')
def nc_open(eng, path, mode, out):
    nc = eng.state.get('nc', {}).get(norm(eng.cstr(path)))
    if nc is None:
        return 2
    eng.store(out, INT(32), ncopen(eng, nc))
    return 0


@stub('nc_close', 'nc_enddef', 'nc_redef', 'nc_sync')
def nc_close(eng, i):
    ncid(eng, i)
    return 0


@stub('nc_def_dim')
def nc_def_dim(eng, i, name, n, out):
    nc = ncid(eng, i)
    nm = eng.cstr(name)
    if any(d[0] == nm for d in nc.dims):
        return U32(-42)
    nc.dims.append((nm, n))
    if out:
        eng.store(out, INT(32), len(nc.dims) - 1)
    return 0


@stub('nc_def_var')
def nc_def_var(eng, i, name, ty, nd, dims, out):
    nc = ncid(eng, i)
    nm = eng.cstr(name)
    if any(v['name'] == nm for v in nc.vars):
        return U32(-42)
    ds = [eng.load(dims + 4 * k, INT(32)) for k in range(S32(nd))]
    if any(d >= len(nc.dims) for d in ds):
        return U32(-46)
    nc.vars.append({'name': nm, 'type': S32(ty), 'dims': ds, 'data': {}, 'atts': {}})
    if out:
        eng.store(out, INT(32), len(nc.vars) - 1)
    return 0


@stub('nc_inq_dimid')
def nc_inq_dimid(eng, i, name, out):
    nc = ncid(eng, i)
    nm = eng.cstr(name)
    for k, d in enumerate(nc.dims):
        if d[0] == nm:
            eng.store(out, INT(32), k)
            return 0
    return U32(-46)


@stub('nc_inq_dimlen')
def nc_inq_dimlen(eng, i, k, out):
    eng.store(out, INT(64), ncid(eng, i).dims[S32(k)][1])
    return 0


@stub('nc_inq_varid')
def nc_inq_varid(eng, i, name, out):
    nc = ncid(eng, i)
    nm = eng.cstr(name)
    for k, v in enumerate(nc.vars):
        if v['name'] == nm:
            eng.store(out, INT(32), k)
            return 0
    return U32(-49)


def atts(nc, v):
    v = S32(v)
    return nc.atts if v == -1 else nc.vars[v]['atts']


@stub('nc_put_att_text')
def nc_put_att_text(eng, i, v, name, n, p):
    o, off = eng.obj(p)
    s = bytes(o.load(off + k, 1, False) for k in range(n)).decode('latin-1')
    atts(ncid(eng, i), v)[eng.cstr(name)] = ('t', s)
    return 0


def put_att(w):
    def f(eng, i, v, name, ty, n, p):
        atts(ncid(eng, i), v)[eng.cstr(name)] = ('n', [eng.load(p + k * w.size, w) for k in range(n)])
        return 0
    return f


def get_att(w):
    def f(eng, i, v, name, p):
        a = atts(ncid(eng, i), v).get(eng.cstr(name))
        if a is None:
            return U32(-43)
        for k, x in enumerate(a[1]):
            eng.store(p + k * w.size, w, conv(eng, x, w))
        return 0
    return f


def conv(eng, x, w):
    return x


STUBS['nc_put_att_int'] = put_att(INT(32))
STUBS['nc_put_att_double'] = put_att(DBL)
STUBS['nc_get_att_int'] = get_att(INT(32))
STUBS['nc_get_att_double'] = get_att(DBL)


@stub('nc_get_att_text')
def nc_get_att_text(eng, i, v, name, p):
    a = atts(ncid(eng, i), v).get(eng.cstr(name))
    if a is None:
        return U32(-43)
    o, off = eng.obj(p)
    for k, c in enumerate(a[1]):
        o.store(off + k, 1, ord(c), False)
    return 0


@stub('nc_inq_attlen')
def nc_inq_attlen(eng, i, v, name, out):
    a = atts(ncid(eng, i), v).get(eng.cstr(name))
    if a is None:
        return U32(-43)
    eng.store(out, INT(64), len(a[1]))
    return 0


def shape(nc, v):
    return [nc.dims[d][1] for d in v['dims']]


def flat(shape_, idx):
    r = 0
    for s, i in zip(shape_, idx):
        r = r * s + i
    return r


def nc_var(eng, i, vid):
    nc = ncid(eng, i)
    k = S32(vid)
    if not 0 <= k < len(nc.vars):
        return nc, None
    return nc, nc.vars[k]


def put_var(w):
    def f(eng, i, vid, p):
        nc, v = nc_var(eng, i, vid)
        if v is None:
            return U32(-49)
        n = 1
        for s in shape(nc, v):
            n *= s
        for k in range(n):
            v['data'][k] = eng.load(p + k * w.size, w)
        return 0
    return f


def get_var(w):
    def f(eng, i, vid, p):
        nc, v = nc_var(eng, i, vid)
        if v is None:
            return U32(-49)
        n = 1
        for s in shape(nc, v):
            n *= s
        for k in range(n):
            eng.store(p + k * w.size, w, v['data'].get(k, UNDEF))
        return 0
    return f


def vara(w, put):
    def f(eng, i, vid, start, count, p):
        nc, v = nc_var(eng, i, vid)
        if v is None:
            return U32(-49)
        sh = shape(nc, v)
        st = [eng.load(start + 8 * k, INT(64)) for k in range(len(sh))]
        ct = [eng.load(count + 8 * k, INT(64)) for k in range(len(sh))]
        for s, c, n in zip(st, ct, sh):
            if s + c > n:
                return U32(-57)
        tot = 1
        for c in ct:
            tot *= c
        for k in range(tot):
            q = k
            idx = []
            for c in reversed(ct):
                idx.append(q % c); q //= c
            idx = [s + z for s, z in zip(st, reversed(idx))]
            fi = flat(sh, idx)
            if put:
                v['data'][fi] = eng.load(p + k * w.size, w)
            else:
                eng.store(p + k * w.size, w, v['data'].get(fi, UNDEF))
        return 0
    return f


for nm_, w_ in (('int', INT(32)), ('double', DBL), ('float', FLT)):
    STUBS['nc_put_var_' + nm_] = put_var(w_)
    STUBS['nc_get_var_' + nm_] = get_var(w_)
    STUBS['nc_put_vara_' + nm_] = vara(w_, True)
    STUBS['nc_get_vara_' + nm_] = vara(w_, False)
