"""Symbolic execution of LLVM IR with exact reals and path forking by re-execution."""
import math, os, random, struct, sys, time
from fractions import Fraction
from . import expr as X
from . import smt
from .smt import B, bnot, band, bor, bxor
from .mem import Obj, MemError, UNDEF, RealBits, SH, OMASK, copy as memcopy
from .consts import snap
from .ir import (Ty, INT, PTR, DBL, FLT, VOID, P, tokenize, layout, skip_attrs, strip_meta, type_nofn, parse_module)

M64 = (1 << 64) - 1


class PathEnd(Exception):
    def __init__(self, kind, code=0):
        self.kind = kind; self.code = code


class Budget(Exception):
    pass


class Engine:
    def __init__(self, mods, stubs, seed=1, deadline=None, zt=4000):
        self.mods = mods
        self.ext = {}
        for m in mods:
            for f in m.funcs.values():
                if not f.internal:
                    self.ext.setdefault(f.name, f)
        self.extg = {}
        for m in mods:
            for nm, g in m.globals.items():
                if nm not in m.internal and g[1] is not None:
                    self.extg.setdefault(nm, (m, g))
        self.stubs = stubs
        self.enc = smt.Enc()
        self.seed = seed
        self.deadline = deadline
        self.zt = zt
        self.ninst = 0
        self.encoded = set()
        self.paths = 0
        self.maxsteps = 200_000_000
        self.results = []
        self.called_stubs = set()
        self.generic = 0

    # ------------------------------------------------------------ per-path state
    def reset(self, prefix, pt):
        self.objs = [None]
        self.gaddr = {}
        self.faddr = {}
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.pc = []          # z3 constraints
        self.pcb = []         # (B, polarity)
        self.pt = pt          # witness point or None
        self.ev = X.Ev(pt) if pt is not None else None
        self.pending = []
        self.files = {}
        self.syms = {}
        self.state = {}
        self.callstack = []
        self.rng = random.Random(self.seed)
        self.steps = 0

    def alloc(self, name, size, zero=False, base=None, const=False, heap=False):
        o = Obj(len(self.objs), name, size, zero, base, const, heap)
        self.objs.append(o)
        return o.id << SH

    def obj(self, addr):
        if not isinstance(addr, int):
            if addr is UNDEF:
                raise MemError('uninitialised', 'pointer')
            raise X.Unsupported('symbolic pointer')
        i = addr >> SH
        if i == 0:
            raise MemError('null-dereference', 'address %#x' % addr)
        if i >= len(self.objs):
            raise MemError('wild-pointer', 'address %#x' % addr)
        return self.objs[i], addr & OMASK

    def load(self, addr, ty):
        k = ty.k
        if k == 'double' or k == 'float':
            o, off = self.obj(addr)
            v = o.load(off, ty.size, True)
            if v is UNDEF:
                return self.undef_real(o, off)
            return v
        if k == 'int' or k == 'ptr':
            o, off = self.obj(addr)
            v = o.load(off, ty.size, False)
            if k == 'int' and ty.n < 8 and isinstance(v, int):
                v &= (1 << ty.n) - 1
            return v
        if k == 'struct':
            layout(ty)
            return tuple(self.load(addr + o, e) for o, e in zip(ty.offs, ty.el))
        if k == 'arr' or k == 'vec':
            s, _ = layout(ty.el)
            return tuple(self.load(addr + i * s, ty.el) for i in range(ty.n))
        raise X.Unsupported('load ' + k)

    def undef_real(self, o, off):
        nm = 'undef!%s+%d' % (o.name, off)
        return X.sym(nm) if self.allow_undef(nm) else UNDEF

    def allow_undef(self, nm):
        self.enc.declare(nm, None, None)
        if self.pt is not None and nm not in self.pt:
            self.pt[nm] = 0.7310585
        self.state.setdefault('undef', set()).add(nm)
        return True

    def store(self, addr, ty, v):
        k = ty.k
        if k == 'double' or k == 'float':
            o, off = self.obj(addr)
            o.store(off, ty.size, v, True)
        elif k == 'int' or k == 'ptr':
            o, off = self.obj(addr)
            if isinstance(v, B):
                v = 1 if self.decide(v) else 0
            o.store(off, ty.size, v, False)
        elif k == 'struct':
            layout(ty)
            for o, e, x in zip(ty.offs, ty.el, v):
                self.store(addr + o, e, x)
        elif k == 'arr' or k == 'vec':
            s, _ = layout(ty.el)
            for i in range(ty.n):
                self.store(addr + i * s, ty.el, v[i])
        else:
            raise X.Unsupported('store ' + k)

    # ------------------------------------------------------------ strings
    def cstr(self, addr, limit=1 << 16):
        o, off = self.obj(addr)
        out = bytearray()
        while len(out) < limit:
            b = o.load(off, 1, False)
            if b is UNDEF:
                raise MemError('uninitialised', 'string read in %s+%d' % (o.name, off))
            if isinstance(b, RealBits):
                raise X.Unsupported('string over reals')
            if b == 0:
                return out.decode('latin-1')
            out.append(b)
            off += 1
        raise X.Unsupported('long string')

    def put_str(self, addr, s):
        o, off = self.obj(addr)
        b = s.encode('latin-1') + b'\0'
        o.check(off, len(b), 'write')
        for j, c in enumerate(b):
            o.store(off + j, 1, c, False)

    def new_str(self, s, heap=False):
        b = s.encode('latin-1') + b'\0'
        return self.alloc('str', len(b), base=bytearray(b), heap=heap)

    # ------------------------------------------------------------ branching
    def decide(self, b):
        """truth value of condition b on this path (forks when both are possible)"""
        if not isinstance(b, B):
            if b is UNDEF:
                raise MemError('uninitialised', 'branch on an uninitialised value')
            return bool(b & 1)
        if b.k == 'not':
            return not self.decide(b.x)
        if b.k in ('and', 'or') and self.state.get('generic'):
            x = self.decide(b.x)                 # so that exact coincidences inside are seen by the rule below
            return (x and self.decide(b.y)) if b.k == 'and' else (x or self.decide(b.y))
        if b.k in ('lt', 'le', 'eq') and X.closed(b.x):
            sg = X.closed_sign(b.x)
            if sg is not None:
                return sg < 0 if b.k == 'lt' else sg <= 0 if b.k == 'le' else sg == 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d == 'g':
                return False
            self._assume(b, d)
            return d
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        known = None
        if self.ev is not None:
            known = smt.beval(b, self.ev)
        if b.k == 'eq' and self.state.get('generic') and known is not True:
            # generic position: an exact coincidence of a non-constant expression is excluded (stated bound)
            if X.residual(X.topoly(b.x)).t:
                self.generic += 1
                self.pos += 1
                self.trail.append('g')
                self.prefix = self.trail[:]
                return False
        zb = self.enc.b(b)
        if known is None:
            r1, m1 = smt.check(self.enc, self.pc + [zb], self.zt)
            r2, m2 = smt.check(self.enc, self.pc + [z3not(zb)], self.zt)
            if r1 == 'unsat' and r2 == 'unsat':
                raise PathEnd('infeasible')
            if r1 == 'unsat':
                d = False
            elif r2 == 'unsat':
                d = True
            else:
                d = True
                self.pending.append((self.trail + [False], None))
            self.pos += 1
            self.trail.append(d)
            self.prefix = self.trail[:]
            self._assume(b, d, zb)
            return d
        other = z3not(zb) if known else zb
        r, m = smt.check(self.enc, self.pc + [other], self.zt)
        if r != 'unsat':
            pt2 = None
            if r == 'sat':
                pt2 = self.repair(smt.model_point(self.enc, m), b, not known)
            if pt2 is None:
                pt2 = self.sample(b, not known)
            if r == 'sat' or pt2 is not None or True:
                self.pending.append((self.trail + [not known], pt2))
        d = known
        self.pos += 1
        self.trail.append(d)
        self.prefix = self.trail[:]
        self._assume(b, d, zb)
        return d

    def _assume(self, b, d, zb=None):
        if zb is None:
            zb = self.enc.b(b)
        self.pc.append(zb if d else z3not(zb))
        self.pcb.append((b, d))

    def holds_at(self, pt, extra=()):
        ev = X.Ev(pt)
        for b, d in list(self.pcb) + list(extra):
            v = smt.beval(b, ev)
            if v is None or v != d:
                return False
        return True

    def repair(self, mp, b, d):
        pt = dict(self.pt or {})
        for n, (lo, hi) in self.enc.rng.items():
            if n not in pt:
                pt[n] = self.draw(n, lo, hi)
        pt.update(mp)
        return pt if self.holds_at(pt, [(b, d)]) else None

    def draw(self, name, lo, hi):
        h = random.Random('%s/%d' % (name, self.seed))
        lo = -1.0 if lo is None else float(lo)
        hi = lo + 2.0 if hi is None else float(hi)
        return float('%.6g' % (lo + (hi - lo) * (0.15 + 0.7 * h.random())))

    def sample(self, b, d, n=60):
        base = dict(self.pt or {})
        syms = list(X.symbols_of_b(b)) if hasattr(X, 'symbols_of_b') else None
        for t in range(n):
            pt = dict(base)
            for nm, (lo, hi) in self.enc.rng.items():
                if nm not in pt or syms is None or nm in syms or self.rng.random() < 0.3:
                    l = -1.0 if lo is None else float(lo)
                    h = l + 2.0 if hi is None else float(hi)
                    pt[nm] = l + (h - l) * self.rng.random()
            try:
                if self.holds_at(pt, [(b, d)]):
                    return pt
            except Exception:
                pass
        return None

    def fork_int(self, x, what):
        """concrete integer part selection for a symbolic real: returns n with n <= x < n+1 (case split)"""
        # exact constant?
        if not X.isnode(x):
            return math.floor(x)
        if X.closed(x):
            v = X.Ev({}).val(x)
            n = int(X.mpmath.nint(v))
            if abs(v - n) > 1e-25:
                return int(X.mpmath.floor(v))
            if X.is_zero(X.add(x, -n)):
                return n
        for _ in range(200):
            if self.pos < len(self.prefix):
                n = self.prefix[self.pos]
                self.pos += 1
                self.trail.append(n)
                b = band(B('le', X.add(n, X.neg(x))), B('lt', X.add(X.add(x, X.neg(n)), -1)))
                self._assume(b, True)
                return n
            # enumerate all feasible integers
            first = None
            excl = []
            if self.ev is not None:
                v = self.ev.val(x)
                n0 = int(math.floor(v + 1e-12))
                first = (n0, self.pt)
                excl.append(n0)
            opts = [] if first is None else [first]
            while True:
                e = self.enc.poly(X.topoly(x))
                cons = [smt.z3.Or(e < n, e >= n + 1) for n in excl]
                r, m = smt.check(self.enc, self.pc + cons, self.zt)
                if r == 'unsat':
                    break
                if r != 'sat' or len(opts) > 64:
                    raise X.Unsupported('unbounded integer case split (%s)' % what)
                val = m.eval(e, model_completion=True)
                if smt.z3.is_algebraic_value(val):
                    val = val.approx(20)
                n = Fraction(val.numerator_as_long(), val.denominator_as_long())
                n = n.numerator // n.denominator
                b = band(B('le', X.add(n, X.neg(x))), B('lt', X.add(X.add(x, X.neg(n)), -1)))
                pt2 = self.repair(smt.model_point(self.enc, m), b, True)
                opts.append((n, pt2))
                excl.append(n)
            if not opts:
                raise PathEnd('infeasible')
            for n, p2 in opts[1:]:
                self.pending.append((self.trail + [n], p2))
            self.prefix = self.trail + [opts[0][0]]
            if first is None:
                self.pt = opts[0][1]
                self.ev = X.Ev(self.pt) if self.pt is not None else None
        raise X.Unsupported('fork_int')

    def choose(self, lo, hi):
        """nondeterministic integer, exhaustive over [lo,hi]"""
        if self.pos < len(self.prefix):
            n = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(n)
            return n
        for n in range(lo + 1, hi + 1):
            self.pending.append((self.trail + [n], dict(self.pt) if self.pt is not None else None))
        self.prefix = self.trail + [lo]
        self.pos += 1
        self.trail.append(lo)
        return lo

    # ------------------------------------------------------------ symbols
    def symbol(self, name, lo, hi):
        # a bound given as +-1e300 means none
        l = None if lo is None or lo <= -1e299 else Fraction(lo)
        h = None if hi is None or hi >= 1e299 else Fraction(hi)
        if l is not None and l > 0:
            X.POSITIVE.add(name)
        self.enc.declare(name, l, h)
        self.syms[name] = (l, h)
        if self.pt is not None and name not in self.pt:
            self.pt[name] = self.draw(name, l, h)
        return X.sym(name)

    # ------------------------------------------------------------ globals / functions
    def global_addr(self, mod, name):
        if name in mod.funcs or name not in mod.globals:
            # function?
            f = mod.funcs.get(name) or self.ext.get(name)
            if f is not None or name in self.stubs or name not in self.extg and name not in mod.globals:
                return self.func_addr(mod, name)
        internal = name in mod.internal
        key = (mod.name, name) if internal else name
        a = self.gaddr.get(key)
        if a is not None:
            return a
        if not internal and mod.globals[name][1] is None:
            if name in self.extg:
                m2, g = self.extg[name]
                a = self.global_addr(m2, name)
                self.gaddr[key] = a
                return a
            # libc global
            a = self.alloc(name, 64, zero=True)
            self.gaddr[key] = a
            if name in ('stdout', 'stderr', 'stdin'):
                fa = self.alloc('FILE:' + name, 16, zero=True)
                self.objs[a >> SH].store(0, 8, fa, False)
                self.state.setdefault('std', {})[fa] = name
            if name == 'optind' or name == 'opterr':
                self.objs[a >> SH].store(0, 4, 1, False)
            return a
        ty, ini, link, const = mod.globals[name]
        size, _ = layout(ty)
        a = self.alloc('@' + name, size, zero=True)
        self.gaddr[key] = a
        p = P(ini[0], mod)
        p.i = ini[1]
        o = self.objs[a >> SH]
        self.init_const(p, ty, o, 0, mod)
        o.const = const
        return a

    def func_addr(self, mod, name):
        f = mod.funcs.get(name)
        key = (mod.name, name) if f is not None and f.internal else name
        a = self.faddr.get(key)
        if a is None:
            a = self.alloc('fn:' + name, 1, const=True)
            self.objs[a >> SH].func = (mod, name)
            self.faddr[key] = a
        return a

    def init_const(self, p, ty, o, off, mod):
        x = p.peek()
        if x == 'zeroinitializer' or x == 'null' or x == 'undef' or x == 'poison':
            p.next()
            return
        if ty.k == 'arr':
            if x.startswith('c"'):
                p.next()
                b = cbytes(x[2:-1])
                if len(b) == o.size and off == 0:
                    o.base = bytearray(b)
                    o.zero = False
                else:
                    for j, c in enumerate(b):
                        o.cells[off + j] = (1, c, False)
                return
            p.exp('[')
            s, _ = layout(ty.el)
            for i in range(ty.n):
                t = p.type()
                self.init_const(p, t, o, off + i * s, mod)
                p.acc(',')
            p.exp(']')
            return
        if ty.k == 'struct':
            e = '}'
            if p.acc('<{'):
                e = '}>'
            else:
                p.exp('{')
            layout(ty)
            for i in range(len(ty.el)):
                t = p.type()
                self.init_const(p, t, o, off + ty.offs[i], mod)
                p.acc(',')
            p.exp(e)
            return
        v = const_value(self, p, ty, mod)
        if ty.k in ('double', 'float'):
            o.cells[off] = (ty.size, v, True)
        else:
            o.cells[off] = (ty.size, v, False)

    # ------------------------------------------------------------ calls
    def call(self, mod, name, args, argtys=None):
        st = self.stubs.get(name)
        if st is not None:
            self.called_stubs.add(name)
            return st(self, *args)
        f = mod.funcs.get(name) if mod is not None else None
        if f is None:
            f = self.ext.get(name)
        if f is None:
            raise X.Unsupported('external function ' + name)
        return self.exec(f, args)

    def exec(self, f, args):
        code = f.code
        if code is None:
            from .compile import compile_func
            code = f.code = compile_func(self, f)
        self.encoded.add(f.name)
        env = [None] * code.nregs
        env[:len(code.pregs)] = [None] * len(code.pregs)
        for r, a in zip(code.pregs, args):
            if r is not None:
                env[r] = a
        self.callstack.append(f.name)
        if len(self.callstack) > 400:
            raise X.Unsupported('recursion depth')
        local = []
        env.append(local)
        blk = code.entry
        prev = None
        blocks = code.blocks
        try:
            while True:
                phis, ops, term = blocks[blk]
                if phis is not None:
                    ph = phis[prev]
                    if len(ph) == 1:
                        d, g = ph[0]
                        env[d] = g(self, env)
                    else:
                        vals = [g(self, env) for d, g in ph]
                        for (d, g), v in zip(ph, vals):
                            env[d] = v
                for op in ops:
                    op(self, env)
                self.steps += len(ops) + 1
                if self.steps & 0xfff < 64 and self.deadline and time.time() > self.deadline:
                    raise Budget('time')
                nxt = term(self, env)
                if nxt.__class__ is tuple:
                    return nxt[0]
                prev = blk
                blk = nxt
        finally:
            self.callstack.pop()
            for a in local:
                self.objs[a >> SH].dead = True


def z3not(b):
    return smt.z3.Not(b)


def cbytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fpconst(tok, ty):
    if tok.startswith('0x'):
        v = struct.unpack('<d', struct.pack('<Q', int(tok, 16)))[0]
    else:
        v = float(tok)
    return snap(v, ty.k == 'float')


def const_value(eng, p, ty, mod):
    """constant operand of given type"""
    x = p.next()
    if ty.k in ('double', 'float'):
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return 0
        return fpconst(x, ty)
    if ty.k == 'int':
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return 0
        if x in ('ptrtoint', 'sub', 'trunc', 'add'):
            return const_expr(eng, p, x, ty, mod)
        return int(x) & ((1 << ty.n) - 1)
    if ty.k == 'ptr':
        if x == 'null' or x == 'zeroinitializer':
            return 0
        if x in ('undef', 'poison'):
            return UNDEF
        if x[0] == '@':
            return eng.global_addr(mod, x[1:].strip('"'))
        return const_expr(eng, p, x, ty, mod)
    if ty.k == 'struct':
        if x == 'zeroinitializer':
            return zero_of(ty)
        if x in ('undef', 'poison'):
            return undef_of(ty)
        out = []
        for _ in ty.el:
            t = p.type()
            out.append(const_value(eng, p, t, mod))
            p.acc(',')
        p.next()
        return tuple(out)
    if ty.k in ('arr', 'vec'):
        if x == 'zeroinitializer':
            return zero_of(ty)
        if x in ('undef', 'poison'):
            return undef_of(ty)
        out = []
        for _ in range(ty.n):
            t = p.type()
            out.append(const_value(eng, p, t, mod))
            p.acc(',')
        p.next()
        return tuple(out)
    raise X.Unsupported('const ' + ty.k)


def zero_of(ty):
    if ty.k == 'struct':
        return tuple(zero_of(e) for e in ty.el)
    if ty.k in ('arr', 'vec'):
        return tuple(zero_of(ty.el) for _ in range(ty.n))
    return 0


def undef_of(ty):
    if ty.k == 'struct':
        return tuple(undef_of(e) for e in ty.el)
    if ty.k in ('arr', 'vec'):
        return tuple(undef_of(ty.el) for _ in range(ty.n))
    return UNDEF


def gep_offset(base_ty, idxs):
    """idxs: list of ints (signed) -> byte offset"""
    size, _ = layout(base_ty)
    off = idxs[0] * size
    t = base_ty
    for i in idxs[1:]:
        if t.k == 'struct':
            layout(t)
            off += t.offs[i]
            t = t.el[i]
        else:
            s, _ = layout(t.el)
            off += i * s
            t = t.el
    return off


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def const_expr(eng, p, op, ty, mod):
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
        p.exp('(')
        bt = p.type()
        p.exp(',')
        pt = p.type()
        base = const_value(eng, p, pt, mod)
        idx = []
        while p.acc(','):
            t = p.type()
            v = const_value(eng, p, t, mod)
            idx.append(sgn(v, t.n))
        p.exp(')')
        return base + gep_offset(bt, idx)
    if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc'):
        p.exp('(')
        t = p.type()
        v = const_value(eng, p, t, mod)
        p.exp('to')
        t2 = p.type()
        p.exp(')')
        if t2.k == 'int':
            v &= (1 << t2.n) - 1
        return v
    if op in ('sub', 'add'):
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.exp('(')
        t = p.type(); a = const_value(eng, p, t, mod); p.exp(',')
        t = p.type(); b = const_value(eng, p, t, mod); p.exp(')')
        return (a - b if op == 'sub' else a + b) & ((1 << t.n) - 1)
    raise X.Unsupported('constexpr ' + op)
