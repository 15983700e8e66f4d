# development aid: run only the native executions of a harness.  nat.py PROP HARNESS [seconds] [seed]
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props
pid, hn = sys.argv[1:3]; secs = int(sys.argv[3]) if len(sys.argv) > 3 else 20; seed = sys.argv[4] if len(sys.argv) > 4 else '1'
os.makedirs(check.BUILD, exist_ok=True); w = tempfile.mkdtemp(prefix='w_nat_', dir=check.BUILD)
try:
    for h in props.PROPS[pid]['harnesses']:
        if h.name != hn: continue
        U = props.UNITS[h.unit]; x = check.build_native(h.unit, U['harness'], U['sources'], U.get('defs', []), w, U.get('native_extra', ()))
        out = os.path.join(w, 'out'); rc, o = check.native_run(x, [hn, 'search', seed, str(secs * 1000), out, '100000000'], secs + 60, check.nopts(h))
        print(rc, o[-2500:]); 
        if rc not in (0, 9): print(check.read_fail(out)); shutil.copy(out, '/tmp/nat.fail') if os.path.exists(out) else None
finally: shutil.rmtree(w, ignore_errors=True)
