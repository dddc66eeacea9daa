"""Build the IR / native binaries from /repo's working tree and run symbolic harnesses."""
import threading, glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, as_completed
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CEXT = os.path.join(REPO, 'pygrt', 'C_extension')
INC = os.path.join(VERIF, 'lib', 'inc')
DEFS = ['-D_GNU_SOURCE', '-DGRT_VERSION="verif"', '-DGRT_DATE="verif"', '-std=gnu99']
IRFLAGS = ['-w', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fcx-limited-range',
           '-fno-pic', '-fno-pie', '-g0', '-fno-builtin-printf', '-fno-builtin-fprintf', '-fno-unroll-loops',
           '-U_FORTIFY_SOURCE', '-fno-stack-protector']


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for r, d, fs in os.walk(os.path.join(CEXT, 'src')):
        for f in fs:
            if f.endswith('.c'):
                p = os.path.join(r, f)
                if os.path.relpath(p, os.path.join(CEXT, 'src')) != 'grt.c':
                    out.append(p)
    return sorted(out)


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp_pygrt_')
        self.ir_done = {}
        self.nat = {}
        self.objs = {}
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _run(self, cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(' '.join(cmd[-3:]) + '\n' + r.stderr[-2000:])

    def tag(self, src):
        return hashlib.sha1(src.encode()).hexdigest()[:12] + '_' + os.path.basename(src)

    def ir(self, harness, extra=()):
        """compile every source (and the harness) to textual IR; returns list of .ll paths, harness first"""
        srcs = [harness] + repo_sources()
        todo = []
        outs = []
        for s in srcs:
            o = os.path.join(self.dir, self.tag(s) + '.ll')
            outs.append(o)
            if o not in self.ir_done:
                self.ir_done[o] = 1
                todo.append(['clang', '-S', '-emit-llvm'] + IRFLAGS + DEFS + ['-I' + INC, '-I' + os.path.join(CEXT, 'include'), '-I' + os.path.join(CEXT, 'src')] + list(extra) + ['-o', o, s])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(self._run, todo))
        return outs

    def native(self, harness, mode='plain', extra=(), runtime='native.c'):
        with self.lock:
            return self._native(harness, mode, extra, runtime)

    def _native(self, harness, mode, extra, runtime):
        key = (harness, mode)
        if key in self.nat:
            return self.nat[key]
        fl = {'plain': ['-O2'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'], 'o0': ['-O0', '-g']}[mode]
        objs = []
        todo = []
        for s in [harness, os.path.join(VERIF, 'lib', runtime)] + repo_sources():
            o = os.path.join(self.dir, self.tag(s) + '.' + mode + '.o')
            objs.append(o)
            if (o) not in self.objs:
                self.objs[o] = 1
                inc = [] if s.startswith(REPO) else ['-I' + INC]
                todo.append(['gcc', '-c', '-w', '-fopenmp', '-rdynamic'] + fl + DEFS + inc + ['-I' + os.path.join(CEXT, 'include'), '-I' + os.path.join(CEXT, 'src')] + ([] if s.startswith(REPO) else list(extra)) + ['-o', o, s])
        # gcc has its own omp.h: the stub directory must not shadow it
        for c in todo:
            if '-I' + INC in c:
                c[c.index('-I' + INC)] = '-I' + nomp(self)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(self._run, todo))
        exe = os.path.join(self.dir, 'nat_%s_%s' % (mode, os.path.basename(harness)))
        self._run(['gcc', '-fopenmp', '-rdynamic'] + fl + ['-o', exe] + objs + ['-lm', '-lfftw3', '-lfftw3f', '-lnetcdf', '-ldl', '-Wl,--allow-multiple-definition'])
        self.nat[key] = exe
        return exe

    def run_native(self, exe, func, pt, timeout=60, wrap=()):
        """one native run; calls of vdiff() get central differences of the same code at shifted inputs"""
        r = self.run_native1(exe, func, pt, timeout, wrap)
        if r['vdiff']:
            q = dict(pt)
            for s in sorted({d[1] for d in r['vdiff']}):
                best = {}
                if ',' in s:
                    # mixed second derivative
                    a, c = s.split(',')
                    ha, hc = (2e-3 * max(abs(pt[v]), 1e-1) for v in (a, c))
                    for n, sn, e in r['vdiff']:
                        if sn == s:
                            best[n] = 0.0
                    for sg, da, dc in ((1, 1, 1), (-1, 1, -1), (-1, -1, 1), (1, -1, -1)):
                        rr = self.run_native1(exe, func, dict(pt, **{a: pt[a] + da * ha, c: pt[c] + dc * hc}), timeout, wrap)
                        v = {d[0]: d[2] for d in rr['vdiff']}
                        for n in list(best):
                            if n in v:
                                best[n] += sg * v[n] / (4 * ha * hc)
                            else:
                                del best[n]
                    for n, v in best.items():
                        q['__vdiff_%d' % n] = v
                    continue
                x = pt[s]
                for rel in (1e-3, 1e-4):
                    h = rel * max(abs(x), 1e-2)
                    vals = []
                    for k in (-2, -1, 1, 2):
                        rr = self.run_native1(exe, func, dict(pt, **{s: x + k * h}), timeout, wrap)
                        vals.append({d[0]: d[2] for d in rr['vdiff']})
                    for n, sn, e in r['vdiff']:
                        if sn == s and all(n in v for v in vals):
                            best[n] = (vals[0][n] - 8 * vals[1][n] + 8 * vals[2][n] - vals[3][n]) / (12 * h)
                for n, v in best.items():
                    q['__vdiff_%d' % n] = v
            nd = r['vdiff']
            r = self.run_native1(exe, func, q, timeout, wrap)
            r['vdiff'] = nd
        return r

    def run_native1(self, exe, func, pt, timeout=60, wrap=()):
        d = tempfile.mkdtemp(prefix='run_', dir=self.dir)
        vf, of = os.path.join(d, '_vals'), os.path.join(d, '_out')
        w = os.path.join(d, 'w')
        os.mkdir(w)
        with open(vf, 'w') as f:
            for k, v in pt.items():
                if not k.startswith('undef!'):
                    f.write('%s %.17g\n' % (k, v))
        env = dict(os.environ, OMP_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='exitcode=77')
        try:
            r = subprocess.run(list(wrap) + [exe, func, vf, of], cwd=w, capture_output=True, timeout=timeout, env=env, errors='replace', text=True)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = -999, 'timeout'
        lines = open(of).read().split('\n') if os.path.exists(of) else []
        shutil.rmtree(d, ignore_errors=True)
        res = {'rc': rc, 'err': err[-3000:], 'eq': {}, 'true': {}, 'end': None, 'assumefail': False, 'vdiff': [], 'reach': []}
        for l in lines:
            p = l.split()
            if not p:
                continue
            if p[0] == 'EQ':
                res['eq'].setdefault(p[1], []).append((float(p[2]), float(p[3])))
            elif p[0] == 'TRUE':
                res['true'].setdefault(p[1], []).append(int(p[2]))
            elif p[0] == 'VDIFF':
                res['vdiff'].append((int(p[1]), p[2], float(p[3])))
            elif p[0] == 'REACH':
                res['reach'].append(p[1])
            elif p[0] == 'ASSUMEFAIL':
                res['assumefail'] = True
            elif p[0] in ('DONE', 'EXIT', 'EXIT-OK'):
                res['end'] = p[0]
        return res


def nomp(b):
    d = os.path.join(b.dir, 'inc_native')
    if not os.path.isdir(d):
        os.mkdir(d)
        shutil.copy(os.path.join(INC, 'verif.h'), d)
        shutil.copy(os.path.join(INC, 'vcb.h'), d)
    return d


def _explore(lls, func, opts, q):
    """child process: symbolic exploration of one harness function"""
    try:
        sys.path.insert(0, os.path.join(VERIF, 'lib'))
        import gc
        gc.disable() if opts.get('nogc') else None
        from irsym.ir import parse_module
        from irsym.api import Explorer
        from irsym.libc import STUBS
        from irsym import smt
        import irsym.expr as X
        t0 = time.time()
        mods = [parse_module(os.path.basename(l), open(l).read()) for l in lls]
        tp = time.time() - t0
        e = Explorer(mods, dict(STUBS), seed=opts.get('seed', 1), deadline=time.time() + opts.get('budget', 300), zt=opts.get('zt', 4000))
        e.zt_assert = opts.get('zt_assert', 20000)
        for nm in opts.get('unstub', ()):
            e.stubs.pop(nm, None)
        e.explore(func, maxpaths=opts.get('maxpaths', 3000))
        q.put({'func': func, 'paths': e.paths, 'steps': e.totsteps, 'obl': e.nobl, 'proved': e.proved, 'fails': e.fails,
               'reached': sorted(e.reached), 'errors': e.errors, 'incomplete': e.incomplete, 'smt': dict(smt.STATS),
               'normtime': e.normtime, 'encoded': sorted(e.encoded), 'stubs': sorted(e.called_stubs), 'traces': e.traces,
               'wall': time.time() - t0, 'exits': e.exits, 'gens': len(X.SP.gens), 'nodes': len(X.SP.nodes),
               'syms': {k: [None if a is None else float(a) for a in v] for k, v in e.enc.rng.items() if not k.startswith('undef!')}})
    except Exception:
        q.put({'func': func, 'crash': traceback.format_exc()})


def explore_many(jobs, nproc=8):
    """jobs: list of (lls, func, opts); returns results in order; one process per job"""
    ctx = mp.get_context('fork')
    res = [None] * len(jobs)
    pend = list(range(len(jobs)))
    run = {}
    while pend or run:
        while pend and len(run) < nproc:
            i = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_explore, args=(jobs[i][0], jobs[i][1], jobs[i][2], q))
            p.start()
            run[i] = (p, q, time.time())
        for i in list(run):
            p, q, t0 = run[i]
            try:
                res[i] = q.get(timeout=0.05)
                p.join()
                del run[i]
            except Exception:
                lim = jobs[i][2].get('budget', 300) * 1.5 + 60
                if not p.is_alive():
                    try:
                        res[i] = q.get(timeout=1)
                    except Exception:
                        res[i] = {'func': jobs[i][1], 'crash': 'process died (exit %s)' % p.exitcode}
                    del run[i]
                elif time.time() - t0 > lim:
                    p.terminate(); p.join()
                    res[i] = {'func': jobs[i][1], 'crash': 'time limit %ds' % lim}
                    del run[i]
    return res
