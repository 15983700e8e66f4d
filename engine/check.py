#!/usr/bin/env python3-vt
"""check.py <property>: decide one property against /repo's current working tree."""
import sys, os, json, time, subprocess, hashlib, shutil, pickle, traceback, tempfile, concurrent.futures as cf, resource, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, V)
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(V, '.build')
import faulthandler, signal; faulthandler.register(signal.SIGUSR1)
T0 = time.time()

def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tool_irdump():
    out = os.path.join(BUILD, 'irdump'); src = os.path.join(V, 'engine', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest(); st = out + '.hash'
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h: return out
    os.makedirs(BUILD, exist_ok=True)
    fl = sh(['llvm-config-18', '--cxxflags']).stdout.split(); ld = sh(['llvm-config-18', '--ldflags', '--libs', '--system-libs']).stdout.split()
    tmp = out + '.%d' % os.getpid()
    r = sh(['clang++-18', *fl, '-O1', '-w', src, '-o', tmp, *ld])
    if r.returncode: raise RuntimeError('irdump build failed: ' + r.stdout)
    os.rename(tmp, out); open(st, 'w').write(h)
    return out

BASE = ['-include', 'cstdint', '-DDEBUG', '-DSPECTRE_COLOURED_OUTPUT', '-I', os.path.join(REPO, 'src'), '-I', os.path.join(V, 'harness'), '-DCOMPILER_NAME="vc"', '-DCOMPILER_VERSION="1"', '-w', '-DJPEG_FOUND_NOT']

def compile_one(src, out, defs, native, cfrontend=None):
    isc = src.endswith('.c')
    cc = 'clang-18' if isc else 'clang++-18'
    fl = [x for x in BASE]
    if isc: fl = fl[2:] + ['-std=gnu99']
    else: fl += ['-std=c++14']
    fl += defs
    if native:
        fl += ['-O1', '-g1', '-fno-omit-frame-pointer', '-DVC_NATIVE', '-ffp-contract=off', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-c']
    else:
        fl += ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only' if False else '-g', '-fno-discard-value-names', '-ffp-contract=off', '-fno-math-errno', '-fno-access-control', '-fno-threadsafe-statics', '-D_GLIBCXX_EXTERN_TEMPLATE=0' if False else '-DVC_IR', '-emit-llvm', '-c']
        if isc: fl = [x for x in fl if x not in ('-fno-access-control', '-fno-threadsafe-statics')]
    if native and not isc: fl += ['-fno-access-control']
    r = sh([cc, *fl, src, '-o', out])
    if r.returncode: raise RuntimeError('compile failed: %s\n%s' % (src, r.stdout[-3000:]))
    return out

def build_ir(tag, harness, sources, defs, work):
    jobs = [(os.path.join(V, 'harness', harness), os.path.join(work, tag + '.h.bc'))]
    for i, s in enumerate(sources):
        jobs.append((s if s.startswith('/') else os.path.join(REPO, 'src', s), os.path.join(work, '%s.%d.bc' % (tag, i))))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: compile_one(j[0], j[1], defs, False), jobs))
    lnk = os.path.join(work, tag + '.bc')
    r = sh(['llvm-link-18', *[j[1] for j in jobs], '-o', lnk])
    if r.returncode: raise RuntimeError('link failed ' + r.stdout)
    opt = os.path.join(work, tag + '.opt.bc')
    r = sh(['opt-18', '-passes=mem2reg', lnk, '-o', opt])
    if r.returncode: raise RuntimeError('opt failed ' + r.stdout)
    js = os.path.join(work, tag + '.json')
    with open(js, 'w') as f:
        r = subprocess.run([tool_irdump(), opt, 'vch_', 'vcstub_', 'vcloop_'], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise RuntimeError('irdump failed ' + r.stderr)
    return js

def build_native(tag, harness, sources, defs, work, extra=()):
    jobs = [(os.path.join(V, 'harness', harness), os.path.join(work, tag + '.n.h.o')), (os.path.join(V, 'harness', 'vc_native.cpp'), os.path.join(work, tag + '.n.vc.o'))]
    for i, s in enumerate(list(sources) + list(extra)):
        jobs.append((s if s.startswith('/') else os.path.join(REPO, 'src', s), os.path.join(work, '%s.n.%d.o' % (tag, i))))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: compile_one(j[0], j[1], defs, True), jobs))
    out = os.path.join(work, tag + '.native')
    r = sh(['clang++-18', '-fsanitize=address,undefined', *[j[1] for j in jobs], '-o', out, '-lpthread', '-Wl,--wrap=exit'])
    if r.returncode: raise RuntimeError('native link failed ' + r.stdout[-3000:])
    return out

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_allocation_size_mb=2000', UBSAN_OPTIONS='print_stacktrace=0')

def native_run(exe, args, timeout, tame=()):
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout, env=dict(ENV, **({'VC_TAME': '1'} if 'tame' in tame else {}), **({'VC_ALLOW_EXIT': '1'} if 'exit' in tame else {})), errors='replace', text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 3, 'timeout'

def nopts(h): return (['tame'] if h.mode == 'real' else []) + (['exit'] if h.opts.get('critical') == 'exit' else [])

class H:
    """one contract harness"""
    def __init__(self, name, unit, mode='fp', bounded=None, search_ms=20000, hard_s=150, cover_iters=20000, what='', timeout=600, **opts):
        self.name = name; self.unit = unit; self.key = unit + '.' + name; self.mode = mode; self.bounded = bounded; self.opts = opts; self.search_ms = search_ms; self.hard_s = hard_s
        self.cover_iters = cover_iters; self.what = what; self.timeout = timeout

def run_harness(h, js, nproc, outq):
    from interp import Interp
    from vcgen import Module, Unsupported
    import solve
    t0 = time.time()
    res = {'harness': h.name, 'mode': h.mode, 'bounded': h.bounded, 'obls': [], 'trivial': 0, 'error': None, 'notes': [], 'funcs': [], 'contracts': []}
    m = Module(js)
    opts = dict(h.opts)
    hooks = {}
    ctors = opts.pop('ctors', ())
    hk = opts.pop('hooks', None)
    if hk: 
        import hooks as HK
        hooks = HK.get(hk)
    e = Interp(m, fmode=h.mode, hooks=hooks, **opts)
    if os.environ.get('VC_TRACE'):
        def tr(*_): print('AT', e.loc, e.fnstack[-6:], 'steps', e.steps, 'paths', e.paths, 'feas', e.nfeas, flush=True); signal.alarm(3)
        signal.signal(signal.SIGALRM, tr); signal.alarm(3)
    try:
        e.start('vch_' + h.name, ctors)
    except Unsupported as x:
        res['error'] = 'unsupported: %s (in %s)' % (x, '/'.join(e.fnstack[-3:]))
    except RecursionError:
        res['error'] = 'unsupported: recursion'
    except Exception as x:
        res['error'] = 'engine: %r %s (in %s)' % (x, traceback.format_exc()[-1500:], '/'.join(e.fnstack[-3:]))
    if res['error']: e.finish_obls()
    res['exec_s'] = time.time() - t0
    res['steps'] = e.steps; res['paths'] = e.paths; res['feas'] = e.nfeas
    t1 = time.time()
    solve.discharge(e.obls, h.mode, nproc=nproc, hard_s=h.hard_s, budget=h.timeout)
    res['solve_s'] = time.time() - t1
    res['trivial'] = sum(e.trivial.values()); res['trivial_by'] = e.trivial
    res['contract_hits'] = e.covers
    for o in e.obls:
        res['obls'].append((o.name, o.kind, o.status, o.backend, o.time, o.loc, o.model))
    res['notes'] = sorted(e.notes)
    res['funcs'] = sorted(e.funcs); res['contracts'] = sorted(e.contracts_used)
    return res

def proc_harness(h, js, nproc, path):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
            x = run_harness(h, js, nproc, None)
        except BaseException as e:
            x = {'harness': h.name, 'mode': h.mode, 'bounded': h.bounded, 'obls': [], 'trivial': 0, 'trivial_by': {}, 'contract_hits': {}, 'error': 'engine: %r %s' % (e, traceback.format_exc()[-800:]), 'notes': [], 'funcs': [], 'contracts': [], 'exec_s': 0, 'solve_s': 0, 'steps': 0, 'paths': 0}
        with open(path, 'wb') as f: pickle.dump(x, f)
        os._exit(0)
    return pid

def demangle(names):
    try:
        p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split('\n')[:len(names)]
    except Exception: return list(names)

def main():
    import props
    pid = sys.argv[1]
    P = props.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else None
    verbose = '-v' in sys.argv
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=BUILD)
    try:
        rc = decide(pid, P, tier, seed, work, only, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(pid, P, tier, seed, work, only, verbose):
    import props
    hs = [h for h in P['harnesses'] if (only is None or h.name == only)]
    if tier != 'thorough': hs = [h for h in hs if not h.opts.get('thorough_only')]
    for h in hs: h.opts.pop('thorough_only', None)
    units = {}
    for h in hs: units.setdefault(h.unit, None)
    built = {}; natives = {}; builderr = {}
    with cf.ThreadPoolExecutor(4) as ex:
        fut = {}
        for u in units:
            U = props.UNITS[u]
            fut[ex.submit(build_ir, u, U['harness'], U['sources'], U.get('defs', []), work)] = (u, 'ir')
            fut[ex.submit(build_native, u, U['harness'], U['sources'], U.get('defs', []), work, U.get('native_extra', ()))] = (u, 'native')
        for f in cf.as_completed(fut):
            u, k = fut[f]
            try:
                if k == 'ir': built[u] = f.result()
                else: natives[u] = f.result()
            except Exception as e:
                builderr.setdefault(u, []).append('%s: %s' % (k, e))
    if builderr and verbose:
        for u, l in builderr.items():
            print('BUILD', u, '\n'.join(x for y in l[:1] for x in y.split('\n') if 'error' in x or 'undefined' in x)[:3000])
        if '-b' in sys.argv: return 1
    results = []
    # symbolic runs, several harnesses at a time
    pend = [h for h in hs if h.unit in built]
    run = {}
    NP = os.cpu_count() or 4
    par = min(len(pend), 6) or 1
    done = {}
    while pend or run:
        while pend and len(run) < par:
            h = pend.pop(0); path = os.path.join(work, h.key + '.res')
            p = proc_harness(h, built[h.unit], max(2, NP // par), path); run[p] = (h, path, time.time())
        q, st = os.waitpid(-1, 0)
        if q not in run: continue
        h, path, t = run.pop(q)
        try: x = pickle.load(open(path, 'rb'))
        except Exception as e: x = {'harness': h.name, 'mode': h.mode, 'bounded': h.bounded, 'obls': [], 'trivial': 0, 'trivial_by': {}, 'contract_hits': {}, 'error': 'engine died (memory?)', 'notes': [], 'funcs': [], 'contracts': [], 'exec_s': 0, 'solve_s': 0, 'steps': 0, 'paths': 0}
        done[h.key] = x
        if verbose: report(x)
    for h in hs:
        if h.unit not in built: done[h.key] = {'harness': h.name, 'mode': h.mode, 'bounded': h.bounded, 'obls': [], 'trivial': 0, 'trivial_by': {}, 'contract_hits': {}, 'error': 'build: ' + '; '.join(builderr.get(h.unit, ['?'])), 'notes': [], 'funcs': [], 'contracts': [], 'exec_s': 0, 'solve_s': 0, 'steps': 0, 'paths': 0}
    # native execution of the same contracts: reachability witness (vacuity guard)
    cover = {}; natfail = {}
    def cov(h):
        if h.unit not in natives: return h.key, None, None, None
        out = os.path.join(work, h.key + '.cov')
        rc, o = native_run(natives[h.unit], [h.name, 'search', str(seed), '8000', out, str(h.cover_iters)], 60, nopts(h))
        return h.key, rc, o, out
    with cf.ThreadPoolExecutor(NP) as ex:
        for n, rc, o, out in ex.map(cov, hs):
            if rc is None: continue
            c = {m.group(2): int(m.group(1)) for m in re.finditer(r'^check (\d+) (.*)$', o, re.M)}
            it = re.search(r'iters (\d+) passed (\d+)', o)
            cover[n] = {'checks': c, 'iters': int(it.group(1)) if it else 0, 'passed': int(it.group(2)) if it else 0}
            if rc not in (0, 9):
                # a proof over the reals is not contradicted by a rounding artefact of one native run
                hh = [h for h in hs if h.key == n][0]; x = done[n]
                if hh.mode == 'real' and not x['error'] and all(o[2] == 'proved' for o in x['obls']) and (read_fail(out) or ('',))[0] not in ('sanitizer', 'crash', 'hang', 'abort'):
                    x['notes'].append('native run differs from the real-arithmetic proof by rounding on one input: ' + str(read_fail(out)))
                    if verbose: print('   ROUNDING', n, read_fail(out))
                else: natfail[n] = (rc, o, out)
    known = load_known()
    viol = []; vac = []
    hmap = {h.key: h for h in hs}
    for h in hs:
        x = done[h.key]
        bad = [o for o in x['obls'] if o[2] != 'proved']
        ncontract = sum(1 for o in x['obls'] if o[1] == 'contract') + sum(v for k, v in x['contract_hits'].items())
        if not x['error'] and not bad and h.key not in natfail:
            if nontrivial(x) == 0: vac.append((h, 'no obligation generated'))
            elif h.key in cover and not h.opts.get('nocover'):
                miss = [k for k in x['contract_hits'] if cover[h.key]['checks'].get(k, 0) == 0]
                x['uncovered_natively'] = miss
                if cover[h.key]['passed'] == 0 : vac.append((h, 'precondition never satisfied in %d native runs' % cover[h.key]['iters']))
            continue
        viol.append((h, x, bad))
    findings = []
    nviol = 0
    lines = []
    for h, x, bad in viol:
        v = confirm(pid, h, x, bad, natives.get(h.unit), natfail.get(h.key), work, seed, tier, builderr)
        kf = match_known(known, pid, v)
        if kf:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf['what'])); continue
        nviol += 1
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, v['replay'], '' if v['confirmed'] else ' no-failing-input-found'))
        lines.append('  harness %s: %s' % (h.key, v['why']))
    for h, why in vac:
        nviol += 1
        rp = write_replay(pid, h, {'harness': h.name, 'why': 'vacuous contract: ' + why, 'confirmed': False})
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); lines.append('  %s vacuous: %s' % (h.name, why))
    evidence(pid, P, tier, seed, hs, done, cover, nviol, findings, only)
    for l in lines: print(l)
    if nviol == 0: print('OK property=%s obligations=%d' % (pid, sum(len(x['obls']) + x['trivial'] for x in done.values())))
    return 1 if nviol else 0

def nontrivial(x): return len(x['obls']) + sum(x['contract_hits'].values())

def report(x):
    st = {}
    for o in x['obls']: st[o[2]] = st.get(o[2], 0) + 1
    print('%-28s %-5s exec %.1fs solve %.1fs steps %d paths %d obls %s trivial %d checks %s %s' % (x['harness'], x['mode'], x['exec_s'], x['solve_s'], x['steps'], x['paths'], st, x['trivial'], sum(x['contract_hits'].values()), 'ERROR ' + x['error'] if x['error'] else ''), flush=True)
    seen = set()
    for o in x['obls']:
        if o[2] != 'proved' and (o[0], o[2]) not in seen:
            seen.add((o[0], o[2])); print('     %s %s [%s] at %s by %s %.1fs model %s' % (o[2], o[0], o[1], o[5], o[3], o[4], o[6]))
    slow = sorted(x['obls'], key=lambda o: -o[4])[:2]
    for o in slow:
        if o[4] > 5: print('     slow %.1fs %s %s %s' % (o[4], o[0], o[3], o[2]))

def confirm(pid, h, x, bad, exe, nat, work, seed, tier, builderr):
    """replay the verifier's counterexample against the real code; otherwise search for a failing input"""
    v = {'harness': h.key, 'property': pid, 'confirmed': False}
    v['failed_obligations'] = [{'name': o[0], 'kind': o[1], 'status': o[2], 'backend': o[3], 'location': o[5], 'counterexample': o[6]} for o in bad[:20]]
    v['why'] = x['error'] or ('; '.join(sorted({'%s [%s]' % (o[0], o[2]) for o in bad}))[:400] if bad else '')
    tried = 0
    if exe:
        if nat:
            rc, o, out = nat
            got = read_fail(out)
            if got: return finish(pid, h, v, got, 'native execution of the contract', o)
        for o in bad:
            if o[6] is None or tried >= 40: continue
            tried += 1
            for mod in variants(o[6]):
                inp = os.path.join(work, 'rep.in'); out = os.path.join(work, 'rep.out')
                open(inp, 'w').write('\n'.join('%s %d' % kv for kv in mod.items()))
                if os.path.exists(out): os.unlink(out)
                rc, txt = native_run(exe, [h.name, 'replay', inp, out], 60, nopts(h))
                got = read_fail(out)
                if got: 
                    v['why'] = 'obligation "%s" refuted by %s; replayed: %s' % (o[0], o[3], got[0])
                    return finish(pid, h, v, got, "solver counterexample for '%s'" % o[0], txt)
        # directed search with the executable contract
        ms = h.search_ms * (4 if tier == 'thorough' else 1)
        outs = []
        with cf.ThreadPoolExecutor(8) as ex:
            fs = []
            for k in range(8):
                out = os.path.join(work, 'search.%s.%d' % (h.key, k)); outs.append(out)
                fs.append(ex.submit(native_run, exe, [h.name, 'search', str(seed * 1000 + k), str(ms), out], ms / 1000 + 60, nopts(h)))
            rs = [f.result() for f in fs]
        for out, (rc, txt) in zip(outs, rs):
            got = read_fail(out)
            if got: return finish(pid, h, v, got, 'search with the executable contract after the proof failed', txt)
    v['why'] = v['why'] or 'proof could not be redone'
    v['replay'] = write_replay(pid, h, v)
    return v

def variants(m):
    yield m

def read_fail(out):
    if not out or not os.path.exists(out): return None
    l = open(out).read().split('\n')
    if not l or not l[0].startswith('FAIL'): return None
    return l[0][5:], dict((a.rsplit(' ', 1)[0], int(a.rsplit(' ', 1)[1])) for a in l[1:] if ' ' in a)

def finish(pid, h, v, got, how, txt):
    v['confirmed'] = True; v['native_failure'] = got[0]; v['inputs'] = got[1]; v['found_by'] = how; v['native_output'] = txt[-3000:]
    v['why'] = (v['why'] + ' | ' if v['why'] else '') + 'real code fails: %s (%s)' % (got[0], how)
    v['replay'] = write_replay(pid, h, v)
    return v

def write_replay(pid, h, v):
    d = os.path.join(V, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.json' % (pid, h.key))
    v['how_to_replay'] = 'engine/replay.py %s' % p
    v['unit'] = h.unit
    json.dump(v, open(p, 'w'), indent=1, default=str)
    return p

def load_known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)).get('open', []) if os.path.exists(p) else []

def match_known(known, pid, v):
    for k in known:
        if k['property'] == pid and k['harness'] == v['harness']:
            names = {o['name'] for o in v['failed_obligations']}
            if v.get('native_failure'): names.add(v['native_failure'])
            if names and names <= set(k['obligations']): return k
    return None

def evidence(pid, P, tier, seed, hs, done, cover, nviol, findings, only):
    obl = dis = triv = 0; back = {}; st = 0.0; ex = 0.0; fns = set(); con = set(); notes = set(); per = []
    bobl = bdis = 0
    for h in hs:
        x = done[h.key]
        n = len(x['obls']); d = sum(1 for o in x['obls'] if o[2] == 'proved')
        if h.bounded: bobl += n + x['trivial']; bdis += d + x['trivial']
        else: obl += n + x['trivial']; dis += d + x['trivial']
        triv += x['trivial']; st += x['solve_s']; ex += x['exec_s']
        for o in x['obls']:
            if o[2] == 'proved': back[o[3]] = back.get(o[3], 0) + 1
        fns |= set(x['funcs']); con |= set(x['contracts']); notes |= set(x['notes'])
        per.append({'harness': h.name, 'what': h.what, 'arithmetic': h.mode, 'bounded': h.bounded, 'obligations': n + x['trivial'], 'discharged': d + x['trivial'], 'by_simplification': x['trivial'], 'paths': x.get('paths', 0), 'instructions': x.get('steps', 0), 'exec_s': round(x['exec_s'], 2), 'solver_s': round(x['solve_s'], 2), 'error': x['error'],
                    'contract_clauses': sorted(x['contract_hits']), 'native_reachability': cover.get(h.key, {}), 'contract_clauses_not_reached_natively': x.get('uncovered_natively', [])})
    real = [n for n in demangle(sorted(f for f in fns if not f.startswith('vc'))) ]
    back['simplifier'] = triv
    tb = ['clang-18 front end and mem2reg (IR of the real sources)', 'engine/irdump.cpp, engine/vcgen.py, engine/interp.py (VC generator)', 'z3 %s / cvc5 CLI' % __import__('z3').get_version_string()]
    tb += ['assumed callee contract: ' + c for c in demangle(sorted(con))]
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - T0, 2), 'violations': nviol,
         'coverage': {'obligations': obl, 'discharged': dis, 'bounded_obligations': bobl, 'bounded_discharged': bdis, 'checker_cmd': 'engine/check.py ' + pid, 'trusted_base': tb,
                      'discharged_by_backend': back, 'solver_s': round(st, 2), 'symbolic_execution_s': round(ex, 2), 'functions_under_contract': real, 'harnesses': per},
         'assumptions': sorted(notes) + P.get('assumptions', [])}
    d = os.path.join(V, 'evidence'); os.makedirs(d, exist_ok=True)
    if only is None: json.dump(e, open(os.path.join(d, pid + '.json'), 'w'), indent=1, default=str)

if __name__ == '__main__':
    main()
