#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from the table below (run by hand after editing it)."""
import json
C = 'pygrt/C_extension/src/'
T = 'symbolic execution of the compiled LLVM IR + SMT (z3, exact reals)'
LN = ('Every input in the stated symbolic ranges is covered on every explored path; sizes are bounded as listed in evidence. '
      'Trusts: clang IR, lib/irsym semantics (cross-checked by native runs each time), z3, reals for floating point, stubs of libc/FFTW/NetCDF.')
P = []; DES = {}
def p(id, title, st, over, qt, why, files, mech, technique=T, note=LN):
    P.append(dict(id=id, title=title, statement=st, quantifier={'over': over, 'text': qt}, why_tests_cant=why,
                  anchors={'files': [C + f for f in files], 'mechanism': [{'name': a, 'where': C + b} for a, b in mech]}, technique=technique, note=note))
exec(open('props_table.py').read())
with open('properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt lib/selfcheck.py', 'checks': [], 'not_applicable': NA,
     'notes': 'One driver (check.py) for all properties; harnesses in harness/, engine in lib/irsym, task table in lib/tasks.py.'}
na = {x['property'] for x in NA}
for x in P:
    if x['id'] in na: continue
    M['checks'].append({'property': x['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % x['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % x['id'],
                        'technique': x['technique'], 'level': 'model_checking', 'level_note': x['note'], 'evidence_file': 'evidence/%s.json' % x['id']})
json.dump(M, open('MANIFEST.json', 'w'), indent=1)
D = open('docs/head.md').read() + '\n## Properties\n\n'
for x in P:
    D += '### %s — %s\n\n%s\n\n%s\n\n' % (x['id'], x['title'], x['statement'], ' '.join(DES[x['id']].split()) if x['id'] in DES else '')
D += '## Not applicable\n\n' + (''.join('- **%s**: %s\n' % (x['property'], x['reason']) for x in NA) or 'None.\n') + '\n' + open('docs/tail.md').read()
open('DESIGN.md', 'w').write(D)
