"""Harness API intercepted by the engine, assertion checking, path exploration."""
import time, math
from fractions import Fraction
import mpmath
from . import expr as X
from . import smt
from .smt import B, bnot
from .mem import MemError, UNDEF, SH
from .engine import Engine, PathEnd, Budget, z3not
from .libc import STUBS, stub, S32, placeholder


@stub('vsym')
def vsym(eng, name, lo, hi):
    return eng.symbol(eng.cstr(name), float(lo) if abs(lo) >= 1e299 else lo, float(hi) if abs(hi) >= 1e299 else hi)


@stub('vint')
def vint(eng, name, lo, hi):
    n = eng.choose(S32(lo), S32(hi))
    eng.state.setdefault('ints', {})[eng.cstr(name)] = n
    return n & 0xffffffff


@stub('vassume')
def vassume(eng, c):
    if isinstance(c, B):
        # restrict the path; keep the witness only when it satisfies the assumption
        zb = eng.enc.b(c)
        if eng.pos >= len(eng.prefix):
            if eng.ev is not None and smt.beval(c, eng.ev) is not True:
                r, m = smt.check(eng.enc, eng.pc + [zb], eng.zt)
                if r == 'unsat':
                    raise PathEnd('assume')
                pt = eng.repair(smt.model_point(eng.enc, m), c, True) if r == 'sat' else None
                if pt is None:
                    pt = eng.sample(c, True, 400)
                eng.pt = pt
                eng.ev = X.Ev(pt) if pt is not None else None
            elif eng.ev is None:
                r, m = smt.check(eng.enc, eng.pc + [zb], eng.zt)
                if r == 'unsat':
                    raise PathEnd('assume')
        eng._assume(c, True, zb)
    elif not c:
        raise PathEnd('assume')


@stub('veq')
def veq(eng, label, a, b):
    assert_eq(eng, eng.cstr(label), a, b)


@stub('vtrue')
def vtrue(eng, label, c):
    l = eng.cstr(label)
    eng.labn[l] = eng.labn.get(l, 0) + 1
    if c is UNDEF:
        eng.fail(l, 'uninitialised value in condition', [dict(eng.pt)] if eng.pt else [])
        return
    if not isinstance(c, B):
        eng.nobl += 1
        if c & 1:
            eng.proved += 1
        else:
            eng.fail(l, 'condition is false on this path', [dict(eng.pt)] if eng.pt else [])
        return
    eng.nobl += 1
    if eng.deadline and time.time() > eng.deadline:
        raise Budget('time')
    zb = eng.enc.b(c)
    cands = []
    r, m = smt.check(eng.enc, eng.pc + [z3not(zb)], eng.zt_assert)
    if r == 'unsat':
        eng.proved += 1
        return
    if r == 'sat':
        p = eng.repair(smt.model_point(eng.enc, m), c, False)
        if p:
            cands.append(p)
    if eng.ev is not None and smt.beval(c, eng.ev) is False:
        cands.append(dict(eng.pt))
    if not cands:
        p = eng.sample(c, False, 300)
        if p:
            cands.append(p)
    eng.fail(l, 'condition can be false (%s)' % r, cands, r)


@stub('vreach')
def vreach(eng, label):
    eng.reached.add(eng.cstr(label))


@stub('vdiff')
def vdiff(eng, e, name):
    for n in eng.cstr(name).split(','):
        e = X.deriv(e, n)
    return e


@stub('vat')
def vat(eng, e, name, v):
    return X.subst(e, eng.cstr(name), X.fix(v))


@stub('vstr')
def vstr(eng, x):
    if not X.isnode(x) and isinstance(x, int):
        return eng.new_str(str(x))
    return eng.new_str(placeholder(eng, x))


@stub('vopt')
def vopt(eng, name, v):
    eng.state[eng.cstr(name)] = S32(v)


@stub('vnative')
def vnative(eng):
    return 0


@stub('vexit_ok')
def vexit_ok(eng):
    eng.state['exit_ok'] = True


@stub('vnoerr')
def vnoerr(eng, l):
    eng.state['exit_ok'] = False


def close(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


def assert_eq(eng, l, a, b):
    eng.labn[l] = eng.labn.get(l, 0) + 1
    eng.nobl += 1
    if eng.deadline and time.time() > eng.deadline:
        raise Budget('time')
    pts = [dict(eng.pt)] if eng.pt else []
    if a is UNDEF or b is UNDEF:
        eng.fail(l, 'uninitialised value', pts)
        return
    if isinstance(a, float) or isinstance(b, float):
        if not X.isnode(a) and not X.isnode(b) and (a == b or (a != a and b != b)):
            eng.proved += 1
        else:
            eng.fail(l, 'non-finite value %r vs %r' % (a, b), pts)
        return
    d = X.add(a, X.neg(b))
    if len(eng.obs) < 400:
        eng.obs.append((l, a, b))
    if not X.isnode(d):
        if d == 0:
            eng.proved += 1
        else:
            eng.fail(l, 'differs by the constant %s' % d, pts, resid=(a, b))
        return
    # cheap falsification first: a witness on which the two sides differ
    cands = []
    und = [s for s in X.symbols_of(d, set()) if s.startswith('undef!')]
    if eng.ev is not None:
        va, vb = eng.ev.val(a), eng.ev.val(b)
        if not (mpmath.isnan(va) or mpmath.isnan(vb)) and abs(va - vb) > mpmath.mpf(10) ** -18 * (abs(va) + abs(vb)):
            sc = mpmath.mpf(0)
            for n in X.postorder(d, lambda y: False):
                v = eng.ev.m.get(n.uid)
                if v is not None and not mpmath.isnan(v) and abs(v) > sc:
                    sc = abs(v)
            if abs(va - vb) > mpmath.mpf(10) ** -24 * sc:
                cands.append(dict(eng.pt))
    if cands:
        # the solver confirms that the negated equation is satisfiable with the inputs pinned to the witness
        r = 'sat'
        try:
            zr = eng.enc.poly(X.residual(X.topoly(d)))
            pin = [smt.z3.Real(n) == eng.enc.q(Fraction(eng.pt[n])) for n in X.symbols_of(d, set()) if n in eng.pt]
            r, m = smt.check(eng.enc, pin + [zr != 0], 3000)
        except (X.TooBig, X.Unsupported, ZeroDivisionError):
            r = 'sat-numeric'
        if r == 'unsat':
            cands = []
    if cands:
        eng.fail(l, 'sides differ' + (' (depends on uninitialised memory: %s)' % und[0] if und else ''), cands, r, resid=(a, b), syms=d)
        return
    try:
        t0 = time.time()
        res = X.residual(X.topoly(d))
        eng.normtime += time.time() - t0
    except X.TooBig as e:
        eng.fail(l, 'normal form too large (%s)' % e, [], 'unknown', resid=(a, b))
        return
    zr = eng.enc.poly(res)
    if not res.t:
        # both numerators over the common denominator go to the solver as separate terms: is a != b satisfiable?
        r = None
        try:
            pa, pb = X.topoly(a), X.topoly(b)
            if len(pa.t) + len(pb.t) <= 300:
                tk = X.SP.gen('sym', 'side!b', 'side!b')
                both = X.residual(X.padd(pa, X.pmul(X.Poly({tk.key: 1}, 1), pb), -1))
                if len(both.t) <= 600:
                    ta, tb = {}, {}
                    for k, c in both.t.items():
                        e = X.expo(k, tk.i)
                        if e == 0:
                            ta[k] = c
                        else:
                            tb[k - tk.key * e] = -c
                    r, m = smt.check(eng.enc, eng.pc + [eng.enc.poly(X.Poly(ta, both.d)) != eng.enc.poly(X.Poly(tb, both.d))], 4000)
        except X.TooBig:
            pass
        if r is None or r == 'unknown':
            r, m = smt.check(eng.enc, [zr != 0], 4000)
        if r == 'unsat':
            eng.proved += 1
            return
    r, m = smt.check(eng.enc, eng.pc + [zr != 0], eng.zt_assert)
    if r == 'unsat':
        eng.proved += 1
        return
    if r == 'sat':
        p = smt.model_point(eng.enc, m)
        p2 = dict(eng.pt or {})
        for n, (lo, hi) in eng.enc.rng.items():
            if n not in p2:
                p2[n] = eng.draw(n, lo, hi)
        p2.update(p)
        if eng.holds_at(p2):
            cands.append(p2)
    p = eng.sample(B('eq', d), False, 300)
    if p:
        cands.append(p)
    eng.fail(l, 'sides differ: %s' % X.pstr(res, 4), cands, r, resid=(a, b), syms=d)


class Explorer(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.nobl = 0
        self.proved = 0
        self.fails = []
        self.reached = set()
        self.obs = []
        self.traces = []
        self.normtime = 0.0
        self.zt_assert = 20000
        self.errors = []
        self.labn = {}
        self.totsteps = 0
        self.exits = 0
        self.incomplete = None

    def fail(self, label, msg, pts, verdict='sat', resid=None, syms=None, kind='assert'):
        ints = dict(self.state.get('ints', {}))
        cands = []
        for p in pts[:3]:
            q = dict(p)
            q.update(ints)
            pred = None
            if resid is not None:
                try:
                    ev = X.Ev(p)
                    pred = (float(ev.val(resid[0])), float(ev.val(resid[1])))
                except Exception:
                    pred = None
            cands.append({'pt': {k: v for k, v in q.items()}, 'pred': pred})
        # more points on the same path
        if kind == 'assert' and resid is not None and cands:
            for _ in range(4):
                p = self.sample_path()
                if p:
                    q = dict(p); q.update(ints)
                    try:
                        ev = X.Ev(p)
                        pred = (float(ev.val(resid[0])), float(ev.val(resid[1])))
                    except Exception:
                        pred = None
                    cands.append({'pt': q, 'pred': pred})
        self.fails.append({'label': label, 'occ': self.labn.get(label, 1) - 1, 'msg': msg, 'verdict': verdict, 'kind': kind, 'cands': cands,
                           'path': [str(x) for x in self.trail][:60]})

    def sample_path(self, n=40):
        for _ in range(n):
            pt = {}
            for nm, (lo, hi) in self.enc.rng.items():
                l = -1.0 if lo is None else float(lo)
                h = l + 2.0 if hi is None else float(hi)
                pt[nm] = float('%.7g' % (l + (h - l) * self.rng.random()))
            try:
                if self.holds_at(pt):
                    return pt
            except Exception:
                pass
        return None

    def explore(self, fname, maxpaths=2000, maxfails=12):
        work = [([], {})]
        f = self.ext[fname]
        while work:
            if self.paths >= maxpaths:
                self.incomplete = 'path limit %d' % maxpaths
                break
            if len(self.fails) >= maxfails:
                self.incomplete = 'stopped after %d failures' % maxfails
                break
            prefix, pt = work.pop()
            self.reset(prefix, dict(pt) if pt is not None else None)
            self.obs = []
            self.paths += 1
            try:
                self.exec(f, [])
                self.trace('done')
            except PathEnd as e:
                if e.kind == 'exit' and not self.state.get('exit_ok'):
                    self.nobl += 1
                    se = ''.join(self.state.get('stderr', []))[-300:]
                    self.fail('no-abort', 'program exits with status %d: %s' % (e.code, se), [dict(self.pt)] if self.pt else [], kind='exit')
                elif e.kind == 'exit':
                    self.exits += 1
                    self.trace('exit')
                elif e.kind in ('assume', 'infeasible'):
                    pass
            except MemError as e:
                self.nobl += 1
                self.fail('memory:' + e.kind, '%s in %s' % (e, '>'.join(self.callstack_err or [])), [dict(self.pt)] if self.pt else [], kind='memory')
            except Budget:
                self.incomplete = 'time budget exhausted'
                break
            except (X.Unsupported, ZeroDivisionError, X.TooBig) as e:
                import traceback
                self.errors.append('%r in %s' % (e, '>'.join(self.callstack_err or [])) + traceback.format_exc()[-400:])
                if len(self.errors) > 5:
                    break
            finally:
                self.totsteps += self.steps
            work.extend(self.pending)
        return self

    callstack_err = None

    def exec(self, f, args):
        try:
            return Engine.exec(self, f, args)
        except (MemError, X.Unsupported, ZeroDivisionError):
            if self.callstack_err is None or len(self.callstack) + 1 > len(self.callstack_err):
                self.callstack_err = list(self.callstack) + [f.name]
            raise

    def reset(self, prefix, pt):
        Engine.reset(self, prefix, pt)
        self.callstack_err = None
        self.labn = {}

    def trace(self, how):
        if len(self.traces) < 6 and self.pt is not None:
            vals = []
            for l, a, b in self.obs:
                try:
                    vals.append((l, float(self.ev.val(a)), float(self.ev.val(b))))
                except Exception:
                    vals.append((l, None, None))
            pt = dict(self.pt)
            pt.update(self.state.get('ints', {}))
            self.traces.append({'pt': {k: v for k, v in pt.items() if not k.startswith('undef!')}, 'how': how, 'obs': vals})
