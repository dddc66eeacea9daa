"""CBMC tasks: bounded model checking of the real C files (goto-cc on /repo's sources) plus native replay."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vrun

CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check', '--pointer-overflow-check', '--undefined-shift-check', '--unwinding-assertions']


def run_one(b, t):
    t0 = time.time()
    name = '%s:%s' % (t.file, t.func)
    res = {'name': name, 'func': t.func, 'harness': os.path.join(vrun.VERIF, 'harness', t.file), 'steps': 0, 'vccs': 0, 'props': 0, 'fails': [], 'queries': 0,
           'solver_time': 0.0, 'encoded': [], 'unwind': t.unwind, 'wall': 0, 'bound': t.bound, 'error': None, 'samples': [], 'validated': 0, 'extra': t.defs}
    d = tempfile.mkdtemp(prefix='cb_', dir=b.dir)
    try:
        srcs = [os.path.join(vrun.CEXT, 'src', s) for s in t.srcs]
        gb = os.path.join(d, 'a.gb')
        cmd = ['goto-cc', '-D__VCBMC__', '-o', gb, '--function', t.func] + vrun.DEFS + ['-D' + x for x in t.defs] + \
              ['-I' + os.path.join(vrun.INC, 'cb'), '-I' + vrun.INC, '-I' + os.path.join(vrun.CEXT, 'include'), '-I' + os.path.join(vrun.CEXT, 'src'), res['harness'], os.path.join(vrun.VERIF, 'lib', 'vcb_cbmc.c')] + srcs
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            res['error'] = 'goto-cc: ' + r.stderr[-800:]
            return res
        cmd = ['cbmc', gb, '--function', t.func, '--unwind', str(t.unwind), '--json-ui', '--verbosity', '8', '--trace', '--slice-formula', '--drop-unused-functions'] + \
              (CHECKS if t.checks else ['--unwinding-assertions', '--no-standard-checks']) + list(t.args)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=t.timeout)
        except subprocess.TimeoutExpired:
            res['error'] = 'cbmc time limit %ds' % t.timeout
            return res
        try:
            js = json.loads(r.stdout)
        except Exception:
            res['error'] = 'cbmc output unreadable: ' + r.stdout[-300:] + r.stderr[-300:]
            return res
        status = None
        reach = False
        for m in js:
            tx = m.get('messageText', '')
            mm = re.search(r'size of program expression: (\d+) steps', tx)
            if mm:
                res['steps'] += int(mm.group(1))
            mm = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', tx)
            if mm:
                res['vccs'] += int(mm.group(1))
            mm = re.search(r'Runtime decision procedure: ([\d.e+-]+)s', tx)
            if mm:
                res['solver_time'] += float(mm.group(1))
                res['queries'] += 1
            if m.get('messageType') == 'ERROR':
                res['error'] = tx[:400]
            if 'no body for function' in tx or 'no body for callee' in tx:
                fn = tx.split()[-1]
                if fn.strip("'`") not in t.allow:
                    res['error'] = (res['error'] or '') + ' no body: ' + fn
            if 'result' in m:
                for p in m['result']:
                    desc = p.get('description', '')
                    if desc == 'VREACH':
                        # vacuity twin: this assertion must fail (the end is reachable)
                        reach = p['status'] == 'FAILURE'
                        if reach and p.get('trace'):
                            res['samples'].append({'harness': name, 'inputs': inputs(p['trace'])[:40]})
                            res['witness'] = inputs(p['trace'])
                        continue
                    loc = p.get('sourceLocation', {})
                    fnm = loc.get('function', '')
                    if fnm:
                        res['encoded'].append(fnm)
                    res['props'] += 1
                    if p['status'] == 'FAILURE':
                        if 'unwinding assertion' in desc:
                            res['error'] = 'unwinding bound %d too small: %s' % (t.unwind, p.get('property'))
                            continue
                        lab = desc.replace(' ', '_') if not p['property'].startswith(fnm + '.') or '.assertion.' in p['property'] else p['property']
                        res['fails'].append({'label': lab, 'msg': '%s at %s:%s' % (desc, os.path.basename(loc.get('file', '?')), loc.get('line', '?')),
                                             'verdict': 'sat', 'kind': 'assert' if '.assertion.' in p['property'] else 'memory', 'inputs': inputs(p.get('trace', [])), 'cands': [1], 'occ': 0})
            if 'cProverStatus' in m:
                status = m['cProverStatus']
        res['encoded'] = sorted(set(res['encoded']))
        if status is None and not res['error']:
            res['error'] = 'cbmc gave no verdict'
        if status is not None and not reach and not res['fails'] and not res['error']:
            res['error'] = 'vacuous: the end of the harness is unreachable'
        # the witness of the reachability query runs on the native build with all checks
        if res.get('witness') is not None and not res['error']:
            exe = native(b, res, 'asan')
            rr = run_native(b, exe, t.func, res['witness'])
            if rr['end'] == 'DONE':
                res['validated'] = 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
        res['wall'] = round(time.time() - t0, 2)
    return res


def inputs(trace):
    out = []
    for s in trace:
        if s.get('stepType') == 'input':
            for v in s.get('values', []):
                out.append(val(v))
    return out


def val(v):
    w = v.get('binary')
    k = v.get('name')
    if k == 'integer' and w:
        n = int(w, 2)
        if v.get('type', '').startswith('unsigned') or '_Bool' in v.get('type', ''):
            return n
        return n - (1 << len(w)) if w[0] == '1' else n
    if k == 'float' and w and len(w) == 64:
        import struct
        return struct.unpack('<d', struct.pack('<Q', int(w, 2)))[0]
    try:
        return int(v.get('data', '0').rstrip('lu'))
    except Exception:
        return 0


def native(b, r, mode):
    return b.native(r['harness'], mode, runtime='vcb_native.c', extra=['-D' + x for x in r['extra']])


def run_native(b, exe, func, ins, wrap=()):
    d = tempfile.mkdtemp(prefix='run_', dir=b.dir)
    vf, of, w = os.path.join(d, '_vals'), os.path.join(d, '_out'), os.path.join(d, 'w')
    os.mkdir(w)
    with open(vf, 'w') as f:
        for x in ins:
            f.write('%s\n' % (('%.17g' % x) if isinstance(x, float) else x))
    env = dict(os.environ, OMP_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:exitcode=77', UBSAN_OPTIONS='exitcode=77')
    try:
        r = subprocess.run(list(wrap) + [exe, func, vf, of], cwd=w, capture_output=True, text=True, errors='replace', timeout=120, env=env)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = -999, 'timeout'
    ls = open(of).read().split('\n') if os.path.exists(of) else []
    shutil.rmtree(d, ignore_errors=True)
    return {'rc': rc, 'err': err[-2000:], 'bad': [l[4:] for l in ls if l.startswith('BAD ')], 'end': 'DONE' if 'DONE' in ls else None, 'assume': 'ASSUMEFAIL' in ls}


def confirm(b, r, f):
    for mode, wrap in (('asan', ()), ('o0', ('valgrind', '-q', '--error-exitcode=78', '--leak-check=no'))):
        exe = native(b, r, mode)
        rr = run_native(b, exe, r['func'], f['inputs'], wrap)
        if rr['assume']:
            return None
        if rr['bad']:
            return {'inputs': f['inputs'], 'how': 'native assertion fails', 'failed': rr['bad'][:5]}
        if rr['rc'] in (77, 78) or (rr['rc'] < 0) or 'AddressSanitizer' in rr['err'] or 'runtime error' in rr['err']:
            return {'inputs': f['inputs'], 'how': mode, 'rc': rr['rc'], 'stderr': rr['err'][-1200:]}
    return None


def run_all(b, ts, verbose=False):
    if not ts:
        return []
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(lambda t: run_one(b, t), ts))
    if verbose:
        for r in rs:
            print('  cbmc %-30s props %d fails %d vccs %d solver %.1fs wall %.1fs %s' % (r['name'], r['props'], len(r['fails']), r['vccs'], r['solver_time'], r['wall'], r['error'] or ''))
    return rs
