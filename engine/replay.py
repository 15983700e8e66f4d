#!/usr/bin/env python3-vt
"""replay.py <replay json>: run the recorded failing input against the real code"""
import sys, os, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, V)
import check, props
d = json.load(open(sys.argv[1]))
if not d.get('inputs'):
    print('no failing input recorded; failed obligations:'); print(json.dumps(d.get('failed_obligations'), indent=1)); sys.exit(2)
os.makedirs(check.BUILD, exist_ok=True)
w = tempfile.mkdtemp(prefix='r_', dir=check.BUILD)
try:
    U = props.UNITS[d['unit']]; h = [h for p in props.PROPS.values() for h in p['harnesses'] if h.key == d['harness']][0]
    exe = check.build_native(d['unit'], U['harness'], U['sources'], U.get('defs', []), w, U.get('native_extra', ()))
    inp = os.path.join(w, 'in'); open(inp, 'w').write('\n'.join('%s %d' % kv for kv in d['inputs'].items()))
    rc, o = check.native_run(exe, [h.name, 'replay', inp, os.path.join(w, 'out')], 60, check.nopts(h)); print(o); print('exit', rc)
    sys.exit(1 if check.read_fail(os.path.join(w, 'out')) else 0)
finally: shutil.rmtree(w, ignore_errors=True)
