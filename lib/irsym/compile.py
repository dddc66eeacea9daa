"""Translate IR functions into lists of Python closures."""
import math, re
from fractions import Fraction
from . import expr as X
from .smt import B, bnot, band, bor, bxor
from .mem import MemError, UNDEF, RealBits, SH
from .ir import (Ty, INT, PTR, DBL, FLT, VOID, P, tokenize, layout, skip_attrs, strip_meta, _type_base, PARAM_ATTR)
from .engine import (Engine, const_value, gep_offset, sgn, zero_of, undef_of, PathEnd)


class Code:
    pass


FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint',
         'nneg', 'nusw', 'samesign', 'volatile', 'tail', 'musttail', 'notail'}


def compile_func(eng, f):
    mod = f.mod
    regs = {}

    def reg(name):
        r = regs.get(name)
        if r is None:
            r = regs[name] = len(regs)
        return r

    code = Code()
    code.pregs = []
    nparam = 0
    for ty, name, info in f.params:
        if name is None:
            name = '%' + str(nparam)
        nparam += 1
        code.pregs.append(reg(name))
    # unnamed entry block takes the next number
    # join continued lines (switch)
    blocks = []
    cur = None
    lines = []
    buf = None
    for l in f.body:
        if buf is not None:
            buf += ' ' + l.strip()
            if l.strip().startswith(']'):
                lines.append(buf)
                buf = None
            continue
        s = l.strip()
        if not s or s.startswith(';'):
            continue
        if s.startswith('switch ') and not s.endswith(']'):
            buf = s
            continue
        lines.append(s if l.startswith(' ') else '\0' + s)
    entry_label = None
    for l in lines:
        if l[0] == '\0':
            lab = l[1:].split(':')[0].strip().strip('"')
            cur = ['%' + lab, []]
            blocks.append(cur)
        else:
            if cur is None:
                cur = ['%' + str(nparam), []]
                blocks.append(cur)
            cur[1].append(l)
    out = {}
    labs = {b[0]: i for i, b in enumerate(blocks)}

    def lab(t):
        t = t.replace('"', '')
        return labs[t]

    for bi, (bl, ins) in enumerate(blocks):
        phis = {}
        ops = []
        term = None
        for l in ins:
            l = strip_meta(l)
            toks = tokenize(l)
            p = P(toks, mod)
            dst = None
            if len(toks) > 1 and toks[1] == '=':
                dst = reg(toks[0])
                p.i = 2
            op = p.next()
            if op in ('tail', 'musttail', 'notail'):
                op = p.next()
            if op == 'phi':
                while p.peek() in FLAGS:
                    p.next()
                ty = p.type()
                while p.acc('['):
                    g = operand(eng, p, ty, mod, reg)
                    p.exp(',')
                    frm = lab(p.next())
                    p.exp(']')
                    phis.setdefault(frm, []).append((dst, getter(g)))
                    p.acc(',')
                continue
            try:
                c = compile_inst(eng, f, mod, op, p, dst, reg, lab)
            except (X.Unsupported, ValueError, KeyError, IndexError, AssertionError) as e:
                msg = 'cannot translate "%s" in %s: %r' % (l[:120], f.name, e)

                def c(eng, env, msg=msg):
                    raise X.Unsupported(msg)
                if op in ('br', 'switch', 'ret'):
                    term = c
                    continue
            if op in ('br', 'switch', 'ret', 'unreachable'):
                term = c
            else:
                if c is not None:
                    ops.append(c)
        out[bi] = (phis or None, ops, term)
    code.blocks = [out[i] for i in range(len(blocks))]
    code.entry = 0
    code.nregs = len(regs)
    return code


def operand(eng, p, ty, mod, reg):
    """('r', idx) register | ('c', value) constant | ('g', name, off) global address"""
    x = p.peek()
    if x[0] == '%':
        p.next()
        return ('r', reg(x))
    if ty.k == 'ptr':
        if x[0] == '@':
            p.next()
            return ('g', x[1:].strip('"'), 0, mod)
        if x == 'getelementptr':
            p.next()
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            if p.peek() == 'inrange':
                p.next()
                if p.acc('('):
                    while p.next() != ')':
                        pass
            p.exp('(')
            bt = p.type()
            p.exp(',')
            pt = p.type()
            b = operand(eng, p, pt, mod, reg)
            idx = []
            while p.acc(','):
                if p.acc('inrange'):
                    pass
                t = p.type()
                v = operand(eng, p, t, mod, reg)
                assert v[0] == 'c'
                idx.append(sgn(v[1], t.n))
            p.exp(')')
            o = gep_offset(bt, idx)
            if b[0] == 'g':
                return ('g', b[1], b[2] + o, mod)
            return ('c', b[1] + o)
    if ty.k == 'metadata':
        raise X.Unsupported('metadata')
    if ty.k in ('struct', 'arr', 'vec') and x in ('{', '[', '<', '<{'):
        # may contain globals: evaluate at run time
        p.next()
        n = len(ty.el) if ty.k == 'struct' else ty.n
        gs = []
        for _ in range(n):
            t = p.type()
            gs.append(getter(operand(eng, p, t, mod, reg)))
            p.acc(',')
        p.next()
        return ('f', lambda eng, env: tuple(g(eng, env) for g in gs))
    return ('c', const_value(eng, p, ty, mod))


def getter(o):
    k = o[0]
    if k == 'r':
        i = o[1]
        return lambda eng, env: env[i]
    if k == 'c':
        v = o[1]
        return lambda eng, env: v
    if k == 'f':
        return o[1]
    name, off, mod = o[1], o[2], o[3]
    return lambda eng, env: eng.global_addr(mod, name) + off


def typed(eng, p, mod, reg):
    ty = p.type()
    skip_attrs(p)
    return ty, operand(eng, p, ty, mod, reg)


def binop_real(op):
    if op == 'fadd':
        return X.add
    if op == 'fsub':
        return lambda a, b: X.add(a, X.neg(b)) if a is not UNDEF and b is not UNDEF else UNDEF
    if op == 'fmul':
        return X.mul
    if op == 'fdiv':
        return X.div


def real_or_undef(fn):
    def g(a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return fn(a, b)
    return g


def fcmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    fa, fb = isinstance(a, float), isinstance(b, float)
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    nan = (fa and a != a) or (fb and b != b)
    if pred == 'uno':
        return 1 if nan else 0
    if pred == 'ord':
        return 0 if nan else 1
    if nan:
        return 1 if pred[0] == 'u' else 0
    q = pred[1:]
    na, nb = X.isnode(a), X.isnode(b)
    if not na and not nb:
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
        return 1 if r else 0
    if fa and math.isinf(a):
        s = a > 0
        return 1 if {'eq': False, 'ne': True, 'lt': not s, 'le': not s, 'gt': s, 'ge': s}[q] else 0
    if fb and math.isinf(b):
        s = b > 0
        return 1 if {'eq': False, 'ne': True, 'lt': s, 'le': s, 'gt': not s, 'ge': not s}[q] else 0
    if q != 'ne' and na != nb and (a if na else b).op == 'fn:sqrt':
        # sqrt(p) against a constant c >= 0 (p >= 0: the argument of sqrt in the code, or a square): compare p with c*c
        c = b if na else a
        if not isinstance(c, float) or c == c:
            c = X.fix(c)
            if c > 0 or (c == 0 and q == 'eq'):
                p = (a if na else b).a
                return fcmp(pred, p, c * c) if na else fcmp(pred, c * c, p)
    d = X.add(a, X.neg(b))
    if X.isnode(d):
        if not X.symbols_of(d, set()):
            v = X.Ev({}).val(d)
            if abs(v) > 1e-25:
                d = 1 if v > 0 else -1
            elif X.is_zero(d):
                d = 0
            else:
                d = 1 if v > 0 else -1
        else:
            try:
                c = X.topoly(d).const()
                if c is not None:
                    d = c
            except (X.TooBig, ZeroDivisionError):
                pass
    if not X.isnode(d):
        return fcmp('o' + q, d, 0)
    if q == 'eq':
        return B('eq', d)
    if q == 'ne':
        return B('not', B('eq', d))
    if q == 'lt':
        return B('lt', d)
    if q == 'le':
        return B('le', d)
    if q == 'gt':
        return B('lt', X.neg(d))
    return B('le', X.neg(d))


def cint(eng, v):
    """concrete integer"""
    if isinstance(v, int):
        return v
    if isinstance(v, B):
        return 1 if eng.decide(v) else 0
    if isinstance(v, RealBits):
        from .mem import real_to_bytes
        return int.from_bytes(real_to_bytes(v.v, v.size), 'little')
    if v is UNDEF:
        raise MemError('uninitialised', 'integer operation on an uninitialised value')
    raise X.Unsupported('symbolic integer %r' % (v,))


def floor_real(eng, x):
    if x is UNDEF:
        return x
    if not X.isnode(x):
        return x if isinstance(x, float) and not math.isfinite(x) else math.floor(x)
    return eng.fork_int(x, 'floor')


def compile_inst(eng, f, mod, op, p, dst, reg, lab):
    T = lambda: typed(eng, p, mod, reg)
    while p.peek() in FLAGS:
        p.next()
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        ty = p.type()
        a = getter(operand(eng, p, ty, mod, reg)); p.exp(',')
        b = getter(operand(eng, p, ty, mod, reg))
        fn = real_or_undef(binop_real(op))
        if ty.k == 'vec':
            def run(eng, env):
                env[dst] = tuple(fn(x, y) for x, y in zip(a(eng, env), b(eng, env)))
            return run

        def run(eng, env):
            env[dst] = fn(a(eng, env), b(eng, env))
        return run
    if op == 'fneg':
        ty = p.type()
        a = getter(operand(eng, p, ty, mod, reg))

        def run(eng, env):
            v = a(eng, env)
            env[dst] = tuple(X.neg(z) for z in v) if v.__class__ is tuple else (X.neg(v) if v is not UNDEF else v)
        return run
    if op == 'fcmp':
        pred = p.next()
        while pred in FLAGS:
            pred = p.next()
        ty = p.type()
        a = getter(operand(eng, p, ty, mod, reg)); p.exp(',')
        b = getter(operand(eng, p, ty, mod, reg))

        def run(eng, env):
            env[dst] = fcmp(pred, a(eng, env), b(eng, env))
        return run
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
        ty = p.type()
        oa = operand(eng, p, ty, mod, reg); p.exp(',')
        ob = operand(eng, p, ty, mod, reg)
        a, b = getter(oa), getter(ob)
        if ty.k != 'int':
            raise X.Unsupported('vector int op')
        n = ty.n
        mask = (1 << n) - 1
        if n == 1 and op in ('and', 'or', 'xor'):
            g = {'and': band, 'or': bor, 'xor': bxor}[op]

            def run(eng, env):
                x, y = a(eng, env), b(eng, env)
                if x is UNDEF or y is UNDEF:
                    if op == 'and' and (x == 0 or y == 0) or op == 'or' and (x == 1 or y == 1):
                        env[dst] = 0 if op == 'and' else 1
                    else:
                        env[dst] = UNDEF
                else:
                    env[dst] = g(x, y)
            return run

        def arith(x, y):
            if op == 'add':
                return (x + y) & mask
            if op == 'sub':
                return (x - y) & mask
            if op == 'mul':
                return (x * y) & mask
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op == 'shl':
                return (x << y) & mask
            if op == 'lshr':
                return x >> y
            if op == 'ashr':
                return (sgn(x, n) >> y) & mask
            if y == 0:
                raise MemError('division-by-zero', 'integer')
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            x, y = sgn(x, n), sgn(y, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & mask
            return (x - q * y) & mask

        def run(eng, env):
            x, y = a(eng, env), b(eng, env)
            if x.__class__ is not int or y.__class__ is not int:
                if x is UNDEF or y is UNDEF:
                    env[dst] = UNDEF
                    return
                # sign-bit games on reals (e.g. fabs via and) are not supported
                x, y = cint(eng, x), cint(eng, y)
            env[dst] = arith(x, y)
        return run
    if op == 'icmp':
        pred = p.next()
        while pred in FLAGS:
            pred = p.next()
        ty = p.type()
        a = getter(operand(eng, p, ty, mod, reg)); p.exp(',')
        b = getter(operand(eng, p, ty, mod, reg))
        n = 64 if ty.k == 'ptr' else ty.n
        import operator as o
        cmp = {'eq': o.eq, 'ne': o.ne, 'ult': o.lt, 'ule': o.le, 'ugt': o.gt, 'uge': o.ge,
               'slt': o.lt, 'sle': o.le, 'sgt': o.gt, 'sge': o.ge}[pred]
        signed = pred[0] == 's'

        def run(eng, env):
            x, y = a(eng, env), b(eng, env)
            if x.__class__ is not int or y.__class__ is not int:
                if x is UNDEF or y is UNDEF:
                    env[dst] = UNDEF
                    return
                if n == 1 and pred in ('eq', 'ne'):
                    r = bxor(x, y)
                    env[dst] = r if pred == 'ne' else bnot(r)
                    return
                x, y = cint(eng, x), cint(eng, y)
            if signed:
                x, y = sgn(x, n), sgn(y, n)
            env[dst] = 1 if cmp(x, y) else 0
        return run
    if op == 'load':
        if p.peek() == 'atomic':
            p.next()
        ty = p.type(); p.exp(',')
        pt = p.type()
        a = getter(operand(eng, p, pt, mod, reg))

        def run(eng, env):
            env[dst] = eng.load(a(eng, env), ty)
        return run
    if op == 'store':
        ty = p.type()
        v = getter(operand(eng, p, ty, mod, reg)); p.exp(',')
        pt = p.type()
        a = getter(operand(eng, p, pt, mod, reg))

        def run(eng, env):
            eng.store(a(eng, env), ty, v(eng, env))
        return run
    if op == 'getelementptr':
        bt = p.type(); p.exp(',')
        pt = p.type()
        base = getter(operand(eng, p, pt, mod, reg))
        const = 0
        dyn = []
        t = bt
        first = True
        while p.acc(','):
            ity = p.type()
            o = operand(eng, p, ity, mod, reg)
            if first:
                s, _ = layout(bt)
                first = False
                nt = t
            elif t.k == 'struct':
                layout(t)
                const += t.offs[o[1]]
                t = t.el[o[1]]
                continue
            else:
                s, _ = layout(t.el)
                nt = t.el
            if o[0] == 'c':
                const += sgn(o[1], ity.n) * s
            else:
                dyn.append((getter(o), s, ity.n))
            t = nt
        if not dyn:
            def run(eng, env):
                env[dst] = base(eng, env) + const
            return run
        if len(dyn) == 1:
            g, s, n = dyn[0]
            h = 1 << (n - 1)
            w = 1 << n

            def run(eng, env):
                i = g(eng, env)
                if i.__class__ is not int:
                    i = cint(eng, i)
                if i >= h:
                    i -= w
                env[dst] = base(eng, env) + const + i * s
            return run

        def run(eng, env):
            a = base(eng, env) + const
            for g, s, n in dyn:
                a += sgn(cint(eng, g(eng, env)), n) * s
            env[dst] = a
        return run
    if op == 'alloca':
        ty = p.type()
        cnt = None
        while p.acc(','):
            if p.peek() == 'align':
                p.next(); p.next()
            else:
                t = p.type()
                cnt = getter(operand(eng, p, t, mod, reg))
        size, _ = layout(ty)
        nm = '%s:%s' % (f.name, 'local')

        def run(eng, env):
            n = 1 if cnt is None else cint(eng, cnt(eng, env))
            a = eng.alloc(nm, size * n)
            env[-1].append(a)
            env[dst] = a
        return run
    if op == 'br':
        if p.acc('label'):
            t = lab(p.next())
            return lambda eng, env: t
        p.type()
        c = getter(operand(eng, p, INT(1), mod, reg)); p.exp(','); p.exp('label')
        t1 = lab(p.next()); p.exp(','); p.exp('label')
        t2 = lab(p.next())

        def run(eng, env):
            v = c(eng, env)
            if v.__class__ is int:
                return t1 if v else t2
            return t1 if eng.decide(v) else t2
        return run
    if op == 'switch':
        ty = p.type()
        v = getter(operand(eng, p, ty, mod, reg)); p.exp(','); p.exp('label')
        d = lab(p.next())
        p.exp('[')
        tab = {}
        while not p.acc(']'):
            t = p.type()
            c = const_value(eng, p, t, mod)
            p.exp(','); p.exp('label')
            tab[c] = lab(p.next())

        def run(eng, env):
            return tab.get(cint(eng, v(eng, env)), d)
        return run
    if op == 'ret':
        if p.peek() == 'void':
            return lambda eng, env: (None,)
        ty = p.type()
        v = getter(operand(eng, p, ty, mod, reg))
        return lambda eng, env: (v(eng, env),)
    if op == 'unreachable':
        def run(eng, env):
            raise MemError('unreachable', f.name)
        return run
    if op == 'select':
        cty = p.type()
        c = getter(operand(eng, p, cty, mod, reg)); p.exp(',')
        t1, a = T(); p.exp(',')
        t2, b = T()
        a, b = getter(a), getter(b)
        isb = t1.k == 'int' and t1.n == 1

        def run(eng, env):
            v = c(eng, env)
            if v.__class__ is not int:
                x, y = a(eng, env), b(eng, env)
                if x is y or (x.__class__ is int and y.__class__ is int and x == y):
                    env[dst] = x
                    return
                if isb and isinstance(v, B) and x is not UNDEF and y is not UNDEF:
                    env[dst] = bor(band(v, x), band(bnot(v), y))
                    return
                v = eng.decide(v)
                env[dst] = x if v else y
                return
            env[dst] = a(eng, env) if v else b(eng, env)
        return run
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
        ty, o = T()
        a = getter(o)
        p.exp('to')
        t2 = p.type()
        if op == 'bitcast':
            if t2.k in ('double', 'float') and ty.k == 'int':
                def run(eng, env):
                    v = a(eng, env)
                    if isinstance(v, RealBits):
                        env[dst] = v.v
                    else:
                        from .mem import bytes_to_real
                        env[dst] = bytes_to_real(cint(eng, v).to_bytes(ty.size, 'little'))
                return run
            if ty.k in ('double', 'float') and t2.k == 'int':
                def run(eng, env):
                    env[dst] = RealBits(a(eng, env), ty.size)
                return run
            if ty.k in ('double', 'float') or t2.k in ('double', 'float') or ty.k == 'vec' or t2.k == 'vec':
                raise X.Unsupported('bitcast')

            def run(eng, env):
                env[dst] = a(eng, env)
            return run
        n1 = 64 if ty.k == 'ptr' else ty.n
        n2 = 64 if t2.k == 'ptr' else t2.n
        m2 = (1 << n2) - 1

        def run(eng, env):
            v = a(eng, env)
            if v.__class__ is not int:
                if v is UNDEF:
                    env[dst] = v
                    return
                if isinstance(v, RealBits) and n1 == n2:
                    env[dst] = v
                    return
                v = cint(eng, v)
            if op == 'sext':
                v = sgn(v, n1)
            env[dst] = v & m2
        return run
    if op in ('fptrunc', 'fpext'):
        ty, o = T()
        a = getter(o)

        def run(eng, env):
            env[dst] = a(eng, env)
        return run
    if op in ('sitofp', 'uitofp'):
        ty, o = T()
        a = getter(o)

        def run(eng, env):
            v = a(eng, env)
            if v is UNDEF:
                env[dst] = v
                return
            v = cint(eng, v)
            env[dst] = sgn(v, ty.n) if op == 'sitofp' else v
        return run
    if op in ('fptosi', 'fptoui'):
        ty, o = T()
        a = getter(o)
        p.exp('to')
        t2 = p.type()
        m2 = (1 << t2.n) - 1

        def run(eng, env):
            v = a(eng, env)
            if v is UNDEF:
                env[dst] = v
                return
            if isinstance(v, float) and not math.isfinite(v):
                raise MemError('float-to-int', 'non-finite value')
            if X.isnode(v):
                if op == 'fptosi':
                    if eng.decide(fcmp('olt', v, 0)):
                        n = -eng.fork_int(X.neg(v), 'trunc')
                    else:
                        n = eng.fork_int(v, 'trunc')
                else:
                    n = eng.fork_int(v, 'trunc')
            else:
                n = math.trunc(v)
            lim_ok = -(1 << (t2.n - 1)) <= n < (1 << (t2.n - 1)) if op == 'fptosi' else 0 <= n <= m2
            if not lim_ok:
                raise MemError('float-to-int', 'value %d out of range of the target type' % n)
            env[dst] = n & m2
        return run
    if op == 'extractvalue':
        ty, o = T()
        a = getter(o)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))

        def run(eng, env):
            v = a(eng, env)
            for i in idx:
                v = v[i] if v is not UNDEF else v
            env[dst] = v
        return run
    if op == 'insertvalue':
        ty, o = T(); p.exp(',')
        a = getter(o)
        t2, o2 = T()
        b = getter(o2)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))

        def ins(v, ix, x):
            l = list(v)
            l[ix[0]] = x if len(ix) == 1 else ins(l[ix[0]], ix[1:], x)
            return tuple(l)

        def run(eng, env):
            v = a(eng, env)
            if v is UNDEF:
                v = undef_of(ty)
            env[dst] = ins(v, idx, b(eng, env))
        return run
    if op == 'extractelement':
        ty, o = T(); p.exp(',')
        a = getter(o)
        t2, o2 = T()
        i = getter(o2)

        def run(eng, env):
            env[dst] = a(eng, env)[cint(eng, i(eng, env))]
        return run
    if op == 'insertelement':
        ty, o = T(); p.exp(',')
        a = getter(o)
        t2, o2 = T(); p.exp(',')
        b = getter(o2)
        t3, o3 = T()
        i = getter(o3)

        def run(eng, env):
            v = a(eng, env)
            if v is UNDEF:
                v = undef_of(ty)
            l = list(v)
            l[cint(eng, i(eng, env))] = b(eng, env)
            env[dst] = tuple(l)
        return run
    if op == 'freeze':
        ty, o = T()
        a = getter(o)

        def run(eng, env):
            env[dst] = a(eng, env)
        return run
    if op == 'call':
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        skip_attrs(p)
        rt = _type_base(p)
        # optional function type
        if p.peek() == '(':
            d = 0
            while True:
                y = p.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
        callee = p.next()
        p.exp('(')
        args = []
        name = callee[1:].strip('"') if callee[0] == '@' else None
        if name and (name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name == 'llvm.assume'
                     or name.startswith('llvm.experimental') or name.startswith('llvm.stackrestore')
                     or name.startswith('llvm.va_') or name.startswith('llvm.prefetch')):
            return None
        byval = []
        while not p.acc(')'):
            ty = _type_base(p)
            info = skip_attrs(p)
            o = operand(eng, p, ty, mod, reg)
            args.append(getter(o))
            byval.append(info.get('byval'))
            p.acc(',')
        if any(byval):
            def argv(eng, env):
                out = []
                for g, bt in zip(args, byval):
                    v = g(eng, env)
                    if bt is not None:
                        s, _ = layout(bt)
                        n = eng.alloc('byval', s)
                        from .mem import copy
                        so, soff = eng.obj(v)
                        copy(eng.objs[n >> SH], 0, so, soff, s)
                        env[-1].append(n)
                        v = n
                    out.append(v)
                return out
        else:
            def argv(eng, env):
                return [g(eng, env) for g in args]
        if name:
            if name.startswith('llvm.'):
                from .libc import intrinsic
                fn = intrinsic(name)

                def run(eng, env):
                    r = fn(eng, *argv(eng, env))
                    if dst is not None:
                        env[dst] = r
                return run

            def run(eng, env):
                r = eng.call(mod, name, argv(eng, env))
                if dst is not None:
                    env[dst] = r
            return run
        cr = getter(('r', reg(callee)))

        def run(eng, env):
            a = cr(eng, env)
            o, off = eng.obj(a)
            if o.func is None:
                raise MemError('bad-function-pointer', o.name)
            m, nm = o.func
            r = eng.call(m, nm, argv(eng, env))
            if dst is not None:
                env[dst] = r
        return run
    raise X.Unsupported('instruction ' + op)
