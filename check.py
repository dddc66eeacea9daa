#!/opt/veriftools/pyvenv/bin/python
"""Driver: python3-vt check.py <PROPERTY> [--tier quick|thorough] [--only func,...] [-v]

exit 0  every obligation discharged within the stated bounds (known findings are listed)
exit 1  VIOLATION line: the solver found a counterexample and the real code, run natively on it, misbehaves
exit 2  no verdict (engine limit, timeout, counterexample that does not replay)"""
import json, os, re, sys, time, shutil, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import vrun, cbmcrun, tasks

FTOL = 2e-5       # replay threshold for flows through single-precision data
DTOL = 1e-8


def confirm(b, harness, func, f, opts):
    """replay a candidate on the natively compiled real code; returns description or None"""
    ftol = opts.get('tol', DTOL)
    for c in f['cands']:
        pt = c['pt']
        und = any(k.startswith('undef!') for k in pt)
        if f['kind'] == 'memory':
            for mode, wrap in (('asan', ()), ('o0', ('valgrind', '-q', '--error-exitcode=78', '--leak-check=no'))):
                exe = b.native(harness, mode)
                r = b.run_native(exe, func, pt, wrap=wrap, timeout=300)
                if r['rc'] in (77, 78) or r['rc'] < 0 or 'AddressSanitizer' in r['err'] or 'runtime error' in r['err']:
                    return {'pt': pt, 'how': mode, 'rc': r['rc'], 'stderr': r['err'][-1500:]}
            continue
        exe = b.native(harness, 'plain')
        r = b.run_native(exe, func, pt)
        if r['assumefail']:
            continue
        if r['rc'] < 0 and r['rc'] != -999 and f['kind'] != 'exit':
            return {'pt': pt, 'how': 'native run crashes', 'rc': r['rc'], 'stderr': r['err'][-1500:]}
        if f['kind'] == 'exit':
            if r['end'] == 'EXIT':
                return {'pt': pt, 'how': 'native run exits', 'rc': r['rc'], 'stderr': r['err'][-1500:]}
            continue
        if f['label'] in r['true']:
            v = r['true'][f['label']]
            if f['occ'] < len(v) and v[f['occ']] == 0:
                return {'pt': pt, 'how': 'native condition false', 'label': f['label']}
            continue
        if f['label'] in r['eq']:
            v = r['eq'][f['label']]
            if f['occ'] >= len(v):
                continue
            na, nb = v[f['occ']]
            if na != na or nb != nb or abs(na) == float('inf') or abs(nb) == float('inf'):
                if (na != na) != (nb != nb) or abs(na) == float('inf') or abs(nb) == float('inf') or na != na:
                    if 'non-finite' in f['msg'] or c['pred'] is None:
                        return {'pt': pt, 'how': 'native values', 'native': [str(na), str(nb)]}
                continue
            if 'non-finite' in f['msg']:
                continue
            if c['pred'] is None:
                continue
            pa, pb = c['pred']
            dp, dn = pa - pb, na - nb
            tol = 2e-5 if r['vdiff'] and ftol < 2e-5 else ftol
            if abs(dp) > tol * max(abs(pa), abs(pb)) and abs(dn - dp) <= 0.2 * abs(dp):
                return {'pt': pt, 'how': 'native values', 'native': [na, nb], 'predicted': [pa, pb]}
            if und and abs(dn) > tol * max(abs(na), abs(nb)):
                return {'pt': pt, 'how': 'native values (result depends on uninitialised memory)', 'native': [na, nb]}
    return None


def validate(b, harness, func, res, opts):
    """translation validation: the same inputs through the natively compiled code; compares every observed value"""
    ok = bad = 0
    notes = []
    exe = b.native(harness, 'plain')
    tol = opts.get('vtol', 1e-6)
    for t in res['traces'][:opts.get('ntrace', 4)]:
        r = b.run_native(exe, func, t['pt'])
        if r['assumefail'] or r['end'] is None:
            bad += 1
            notes.append('%s: native run ended with %r' % (func, r['end'] or r['rc']))
            continue
        cnt = {}
        good = True
        for l, a, bb in t['obs']:
            i = cnt.get(l, 0)
            cnt[l] = i + 1
            v = r['eq'].get(l, [])
            if i >= len(v):
                good = False
                notes.append('%s:%s missing natively' % (func, l))
                break
            na, nb = v[i]
            if a is None or bb is None or a != a or bb != bb:
                continue
            sc = max(abs(a), abs(bb), abs(na), abs(nb))
            for p, q in ((a, na), (bb, nb)):
                if q != q or abs(p - q) > (2e-4 if r['vdiff'] and tol < 2e-4 else tol) * sc + opts.get('vabs', 1e-7):
                    good = False
                    notes.append('%s:%s predicted %.9g native %.9g' % (func, l, p, q) + (' at %r' % t['pt'] if os.environ.get('VDBG') else ''))
                    break
            if not good:
                break
        ok += good
        bad += not good
    return ok, bad, notes


def known_findings(pid):
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    verbose = '-v' in sys.argv
    only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    b = vrun.Build()
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': 0.0,
          'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}}
    cov = ev['coverage']
    rc = 2
    lines = []
    try:
        rc, lines = run(pid, tier, seed, b, cov, verbose, only)
    except vrun.BuildError as e:
        lines = ['UNDECIDED: the tree does not compile for the check: %s' % str(e)[-1500:]]
    except Exception:
        lines = ['UNDECIDED: ' + traceback.format_exc()]
    finally:
        b.close()
    ev['wall_s'] = round(time.time() - t0, 2)
    cov['verdict'] = {0: 'holds within bounds', 1: 'violated', 2: 'undecided'}[rc]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print('%s %s: %s, %d obligations, %d paths, %d queries, %.1fs' % (pid, tier, cov['verdict'], cov.get('obligations_discharged', 0), cov['states'], cov.get('solver_queries', 0), ev['wall_s']))
    sys.stdout.flush()
    sys.exit(rc)


def run(pid, tier, seed, b, cov, verbose, only):
    T = [t for t in tasks.TASKS[pid] if tier == 'thorough' or t.tier == 'quick']
    jobs, meta, cb = [], [], []
    for t in T:
        if isinstance(t, tasks.Sym):
            h = os.path.join(V, 'harness', t.file)
            lls = b.ir(h)
            for fn in t.funcs:
                if only and fn not in only:
                    continue
                o = dict(t.opts, seed=seed)
                jobs.append((lls, fn, o))
                meta.append((h, fn, o, t))
        elif not only or t.func in only:
            cb.append(t)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][2].get('weight', 1))
    res = [None] * len(jobs)
    for i, r in zip(order, vrun.explore_many([jobs[i] for i in order])):
        res[i] = r
    lines, fails, und = [], [], []
    nq = {'queries': 0, 'time': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0}
    enc, stubs, bounds, mism = set(), set(), [], []
    nob = npr = 0
    for r, (h, fn, o, t) in zip(res, meta):
        if r is None or 'crash' in r:
            und.append('%s: %s' % (fn, (r or {}).get('crash', 'no result')[-1500:]))
            continue
        if verbose:
            print('  %-28s paths %4d steps %8d obl %4d proved %4d fails %d q %d wall %.1f %s' % (fn, r['paths'], r['steps'], r['obl'], r['proved'], len(r['fails']), r['smt']['queries'], r['wall'], r['incomplete'] or ''))
        cov['states'] += r['paths']
        cov['transitions'] += r['steps']
        nob += r['obl']
        npr += r['proved']
        for k in nq:
            nq[k] += r['smt'][k]
        enc |= set(r['encoded'])
        stubs |= set(r['stubs'])
        bounds.append({'harness': os.path.basename(h) + ':' + fn, 'paths': r['paths'], 'obligations': r['obl'], 'symbolic_inputs': r['syms'],
                       'exits': r['exits'], 'wall_s': round(r['wall'], 2)})
        if r['errors']:
            und.append('%s: %s' % (fn, r['errors'][0]))
        if r['incomplete'] and not (r['fails'] and 'failures' in r['incomplete']):
            und.append('%s: %s' % (fn, r['incomplete']))
        if not r['fails'] and not r['errors'] and 'end' not in r['reached'] and not o.get('noreach'):
            und.append('%s: vacuous, the end of the harness was never reached' % fn)
        for f in r['fails']:
            fails.append((h, fn, o, f))
        if r['traces']:
            ok, bad, notes = validate(b, h, fn, r, o)
            cov['traces_validated_against_impl'] += ok
            mism += notes
            if len(cov['samples']) < 4:
                cov['samples'].append({'harness': fn, 'inputs': r['traces'][0]['pt'], 'checked': r['traces'][0]['obs'][:4]})
    cbres = cbmcrun.run_all(b, cb, verbose)
    for r in cbres:
        cov['states'] += r['steps']
        cov['transitions'] += r['vccs']
        nob += r['props']
        npr += r['props'] - len(r['fails'])
        nq['queries'] += r['queries']
        nq['time'] += r['solver_time']
        enc |= set(r['encoded'])
        bounds.append({'harness': r['name'], 'unwind': r['unwind'], 'obligations': r['props'], 'wall_s': r['wall'], 'bound': r['bound']})
        if r['error']:
            und.append('%s: %s' % (r['name'], r['error']))
        for f in r['fails']:
            fails.append(('cbmc', r['name'], r, f))
        if r['samples'] and len(cov['samples']) < 6:
            cov['samples'] += r['samples'][:1]
        cov['traces_validated_against_impl'] += r['validated']
    # replay
    kn = known_findings(pid)
    hit, viol = {}, []
    unconf = []
    per = {}
    for h, fn, o, f in fails:
        key = '%s:%s' % (fn, f['label'])
        per[fn] = per.get(fn, 0) + 1
        if per[fn] > 12:
            continue
        k = [x for x in kn if x[0] == key]
        c = cbmcrun.confirm(b, o, f) if h == 'cbmc' else confirm(b, h, fn, f, o)
        if verbose and per[fn] <= 2:
            c0 = f['cands'][0] if f.get('cands') else None
            print('  FAIL %s %s [%s] %s -> %s' % (key, f['msg'][:300], f['verdict'], str(c0['pt'])[:300] + ' pred ' + str(c0['pred']) if isinstance(c0, dict) else '', str(c)[:600]))
        if c is None:
            unconf.append('%s: %s (%s)' % (key, f['msg'][:200], f['verdict']))
            continue
        if k:
            hit[key] = k[0][1]
        else:
            viol.append((key, f, c, h))
    cov.update(obligations=nob, obligations_discharged=npr, solver_queries=nq['queries'], solver_time_s=round(nq['time'], 2),
               solver_verdicts={k: nq[k] for k in ('sat', 'unsat', 'unknown')}, functions_encoded=sorted(enc), stubbed_externals=sorted(stubs),
               bounds=bounds, model='doubles/floats as exact reals (rounding not modelled); decimal literals read as the decimal they spell',
               translation_mismatches=mism[:10], undecided=[u[:600] for u in und], unconfirmed=unconf[:20])
    for k, d in hit.items():
        lines.append('KNOWN-FINDING: property=%s %s %s' % (pid, k, d))
    if mism and verbose:
        for m in mism[:20]:
            lines.append('  note: ' + m)
    if viol:
        rp = os.path.join(V, 'evidence', 'replay_%s.json' % pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as fo:
            json.dump([{'where': k, 'message': f['msg'], 'solver': f['verdict'], 'counterexample': c, 'path': f.get('path'),
                        'harness': h} for k, f, c, h in viol], fo, indent=1, default=str)
        for k, f, c, h in viol[:3]:
            lines.append('violated: %s %s | %s' % (k, f['msg'][:200], json.dumps(c, default=str)[:500]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1, lines
    if unconf:
        lines += ['UNCONFIRMED (counterexample does not replay on the native code): ' + u for u in unconf[:5]]
    if und:
        lines += ['UNDECIDED: ' + u for u in und[:5]]
    return (2 if und or unconf else 0), lines


if __name__ == '__main__':
    main()
