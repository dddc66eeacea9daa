"""Memory objects: byte-addressed cells holding symbolic or concrete values."""
import struct
from fractions import Fraction
from . import expr as X

SH = 40
OMASK = (1 << SH) - 1


class MemError(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind


class Undef:
    __slots__ = ()

    def _u(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _u
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rshift__ = _u
    __neg__ = _u
    __floordiv__ = __mod__ = _u

    def __repr__(self): return 'undef'


UNDEF = Undef()


class RealBits:
    """a real value travelling through an integer-typed load/store"""
    __slots__ = ('v', 'size')

    def __init__(self, v, size):
        self.v = v; self.size = size


def real_to_bytes(v, size):
    if X.isnode(v):
        raise X.Unsupported('byte access to a symbolic real')
    if v is UNDEF:
        raise MemError('uninitialised', 'byte access')
    f = float(v)
    return struct.pack('<d' if size == 8 else '<f', f)


def bytes_to_real(b):
    v = struct.unpack('<d' if len(b) == 8 else '<f', b)[0]
    if v != v or v in (float('inf'), float('-inf')):
        return v
    return X.norm_frac(Fraction(v)) if not FLOATMODE[0] else v


FLOATMODE = [False]


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'base', 'zero', 'zr', 'dead', 'const', 'heap', 'func', 'site')

    def __init__(self, id, name, size, zero=False, base=None, const=False, heap=False):
        self.id = id; self.name = name; self.size = size; self.cells = {}
        self.base = base; self.zero = zero; self.zr = None; self.dead = False
        self.const = const; self.heap = heap; self.func = None; self.site = None

    # ---- helpers
    def check(self, off, n, what):
        if self.dead:
            raise MemError('use-after-free', '%s %s+%d' % (what, self.name, off))
        if off + n > self.size or off < 0:
            raise MemError('out-of-bounds', '%s of %d bytes at %s+%d (size %d)' % (what, n, self.name, off - (OMASK + 1) if off > OMASK // 2 else off, self.size))

    def clear(self, off, n):
        """remove cells overlapping [off, off+n), preserving the outside parts of straddling ones"""
        cells = self.cells
        if not cells:
            return
        if n > 64 and len(cells) * 2 < n:
            ks = [k for k, c in cells.items() if k < off + n and k + c[0] > off]
        else:
            ks = [k for k in range(off - 15, off + n) if k in cells and k + cells[k][0] > off]
        for k in ks:
            c = cells.pop(k)
            if k < off or k + c[0] > off + n:
                if c[1] is UNDEF:
                    continue
                b = self.cell_bytes(c)
                for j in range(c[0]):
                    if not (off <= k + j < off + n):
                        cells[k + j] = (1, b[j], False)

    def cell_bytes(self, c):
        size, v, real = c
        if real:
            return real_to_bytes(v, size)
        if isinstance(v, int):
            return (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
        raise X.Unsupported('byte access to symbolic integer')

    def store(self, off, size, v, real):
        self.check(off, size, 'write')
        if self.const:
            raise MemError('const-write', self.name)
        if isinstance(v, RealBits):
            v = v.v; real = True
        c = self.cells.get(off)
        if c is None or c[0] != size:
            self.clear(off, size)
        self.cells[off] = (size, v, real)

    def default_bytes(self, off, n):
        """concrete default content or None"""
        if self.base is not None:
            return bytes(self.base[off:off + n])
        if self.zero:
            return bytes(n)
        if self.zr:
            for a, b in self.zr:
                if a <= off and off + n <= b:
                    return bytes(n)
        return None

    def load(self, off, size, real):
        c = self.cells.get(off)
        if c is not None and c[0] == size and not self.dead:
            v = c[1]
            if real == c[2] or v is UNDEF:
                return v
            if real:
                if isinstance(v, int):
                    return bytes_to_real(v.to_bytes(size, 'little')) if v else 0
                raise X.Unsupported('reinterpret')
            return RealBits(v, size)
        self.check(off, size, 'read')
        # fully default?
        cells = self.cells
        over = [k for k in range(off - 15, off + size) if k in cells and k + cells[k][0] > off] if cells else []
        if not over:
            b = self.default_bytes(off, size)
            if b is None:
                return UNDEF
        else:
            bb = []
            und = False
            for j in range(off, off + size):
                for k in over:
                    c = cells[k]
                    if k <= j < k + c[0]:
                        if c[1] is UNDEF:
                            und = True
                            bb.append(0)
                        else:
                            bb.append(self.cell_bytes(c)[j - k])
                        break
                else:
                    d = self.default_bytes(j, 1)
                    if d is None:
                        und = True
                        bb.append(0)
                    else:
                        bb.append(d[0])
            if und:
                return UNDEF
            b = bytes(bb)
        if real:
            if not any(b):
                return 0
            return bytes_to_real(b)
        return int.from_bytes(b, 'little')

    def setzero(self, off, n):
        self.check(off, n, 'memset')
        if n == 0:
            return
        self.clear(off, n)
        if self.base is not None:
            self.base = bytearray(self.base)
            self.base[off:off + n] = bytes(n)
            return
        if self.zero:
            return
        if self.zr is None:
            self.zr = []
        # merge
        a, b = off, off + n
        out = []
        for x, y in self.zr:
            if y < a or x > b:
                out.append((x, y))
            else:
                a = min(a, x); b = max(b, y)
        out.append((a, b))
        self.zr = out


def copy(dst, doff, src, soff, n):
    if n == 0:
        return
    dst.check(doff, n, 'write')
    src.check(soff, n, 'read')
    if dst.const:
        raise MemError('const-write', dst.name)
    # snapshot
    items = []
    if n > 4 * len(src.cells):
        ks = [k for k, c in src.cells.items() if k < soff + n and k + c[0] > soff]
    else:
        ks = [k for k in range(soff - 15, soff + n) if k in src.cells and k + src.cells[k][0] > soff]
    for k in ks:
        c = src.cells[k]
        if k >= soff and k + c[0] <= soff + n:
            items.append((k - soff, c))
        else:
            b = src.cell_bytes(c)
            for j in range(c[0]):
                if soff <= k + j < soff + n:
                    items.append((k + j - soff, (1, b[j], False)))
    # defaults
    covered = bytearray(n)
    for o, c in items:
        covered[o:o + c[0]] = b'\1' * c[0]
    if src.base is not None or src.zero or src.zr:
        o = 0
        while o < n:
            if covered[o]:
                o += 1
                continue
            e = o
            while e < n and not covered[e]:
                e += 1
            d = src.default_bytes(soff + o, e - o)
            if d is None:
                for j in range(o, e):
                    d1 = src.default_bytes(soff + j, 1)
                    items.append((j, (1, d1[0] if d1 is not None else UNDEF, False)))
            elif not any(d):
                items.append((o, ('z', e - o)))
            else:
                for j in range(o, e):
                    items.append((j, (1, d[j - o], False)))
            o = e
    elif dst.base is not None or dst.zero or dst.zr:
        o = 0
        while o < n:
            if not covered[o]:
                items.append((o, (1, UNDEF, False)))
            o += 1
    dst.clear(doff, n)
    for o, c in items:
        if c[0] == 'z':
            dst.setzero(doff + o, c[1])
    for o, c in items:
        if c[0] != 'z':
            dst.cells[doff + o] = c
