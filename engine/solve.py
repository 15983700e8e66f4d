"""discharge of obligations by z3 (API, several tactics) and cvc5 (CLI), in forked workers"""
import os, sys, time, signal, pickle, select, struct, subprocess, tempfile, multiprocessing as mp
import z3
from fractions import Fraction
import numpy as np

def consts(e, cache):
    k = e.get_id()
    r = cache.get(k)
    if r is not None: return r
    out = set(); seen = set(); stack = [e]
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(x.children())
    cache[k] = out
    return out

def slice_pc(pc, cond):
    cache = {}
    want = set(consts(cond, cache)); rest = [(c, consts(c, cache)) for c in pc]
    keep = [False] * len(rest); ch = True
    while ch:
        ch = False
        for i, (c, v) in enumerate(rest):
            if not keep[i] and (not v or v & want):
                keep[i] = True; want |= v; ch = True
    return [c for i, (c, v) in enumerate(rest) if keep[i]]

def valbits(v, t):
    """z3 model value -> integer bit pattern of the input"""
    if t == 'i1': return 1 if z3.is_true(v) else 0
    if t[0] == 'i': return v.as_long()
    if isinstance(v, z3.FPNumRef):
        b = z3.simplify(z3.fpToIEEEBV(v)); 
        return b.as_long() if z3.is_bv_value(b) else 0x7fc00000
    if z3.is_rational_value(v): x = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    elif z3.is_algebraic_value(v):
        a = v.approx(30); x = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    elif z3.is_fp(v):
        b = z3.simplify(z3.fpToIEEEBV(v)); return b.as_long() if z3.is_bv_value(b) else 0
    else: x = 0.0
    return int(np.array(np.float32(x)).view(np.uint32)) if t == 'f32' else int(np.array(np.float64(x)).view(np.uint64))

def model_inputs(m, inputs):
    out = {}
    for k, (t, v) in inputs.items():
        try: out[k] = valbits(m.eval(v, model_completion=True), t)
        except Exception: out[k] = 0
    return out

def z3_try(cons, inputs, tactic, ms):
    if tactic is None: s = z3.Solver()
    elif tactic.startswith('logic:'): s = z3.SolverFor(tactic[6:])
    else: s = z3.TryFor(z3.Tactic(tactic), ms).solver() if False else z3.Tactic(tactic).solver()
    s.set('timeout', ms)
    s.add(*cons)
    r = s.check()
    if r == z3.unsat: return ('proved', None)
    if r == z3.sat: return ('refuted', model_inputs(s.model(), inputs))
    return ('unknown', None)

def lra_try(cons, inputs, ms):
    import polyabs
    t = time.time()
    if polyabs.solve(cons, ms): return ('proved', None)
    for r in (1, 2, 3):
        left = ms - (time.time() - t) * 1000
        if left < 50: break
        if polyabs.solve(cons, int(left), rounds=r): return ('proved', None)
    return ('unknown', None)

def rel_try(cons, goal, inputs, ms):
    """relevance filter: only hypotheses over symbols close to the goal's (dropping hypotheses can only lose proofs)"""
    cache = {}; W = set(consts(goal, cache)); hy = [(c, consts(c, cache)) for c in cons]; last = -1
    for k in (1, 2, 3, 4, 6, 9):
        sub = [c for c, v in hy if v and v <= W]
        if len(sub) != last:
            last = len(sub)
            for tac in (None, 'qfnra-nlsat'):
                if z3_try(sub + [goal], inputs, tac, int(ms / 12))[0] == 'proved': return ('proved', None)
        W2 = set(W)
        for c, v in hy:
            if v & W and len(v - W) <= k: W2 |= v
        W = W2
    return ('unknown', None)

def cvc5_try(cons, inputs, ms, opts=()):
    s = z3.Solver(); s.add(*cons)
    txt = s.to_smt2()
    txt = txt.replace('(check-sat)', '')
    txt = '(set-logic ALL)\n(set-option :produce-models true)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
    names = [v for k, (t, v) in inputs.items()]
    q = '(check-sat)\n'
    for v in names: q += '(get-value (%s))\n' % v.sexpr() if z3.is_const(v) else ''
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt + q); fn = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, *opts, fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=ms / 1000 + 20)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = ''
    finally:
        os.unlink(fn)
    l = out.strip().split('\n')[0] if out.strip() else ''
    if l == 'unsat': return ('proved', None)
    if l == 'sat': 
        # obtain the model through the text values
        return ('refuted', cvc5_model(out, inputs))
    return ('unknown', None)

def cvc5_model(out, inputs):
    import re
    res = {}
    lines = [x for x in out.strip().split('\n')[1:]]
    txt = ' '.join(lines)
    for k, (t, v) in inputs.items():
        nm = v.sexpr()
        i = txt.find('((' + nm + ' ')
        if i < 0: res[k] = 0; continue
        j = i + 3 + len(nm); d = 2; e = j
        while d > 0 and e < len(txt):
            if txt[e] == '(': d += 1
            if txt[e] == ')': d -= 1
            e += 1
        s = txt[j:e - 2].strip()
        try:
            if t == 'i1': res[k] = 1 if s == 'true' else 0
            elif t[0] == 'i': res[k] = int(s[2:], 2) if s.startswith('#b') else int(s[2:], 16)
            elif s.startswith('(fp'):
                p = s[3:-1].split(); res[k] = int(''.join(x[2:] if x.startswith('#b') else bin(int(x[2:], 16))[2:].zfill(4 * len(x[2:])) for x in p), 2)
            elif s.startswith('(_ '): res[k] = {'+zero': 0, '-zero': 0x80000000, '+oo': 0x7f800000, '-oo': 0xff800000}.get(s.split()[1], 0x7fc00000)
            else:
                def ev(x):
                    x = x.replace('(', ' ( ').replace(')', ' ) ').split()
                    def rd(p):
                        if x[p] == '(':
                            op = x[p + 1]; p += 2; a = []
                            while x[p] != ')': y, p = rd(p); a.append(y)
                            r = -a[0] if op == '-' and len(a) == 1 else a[0] / a[1] if op == '/' else a[0]
                            return r, p + 1
                        return Fraction(x[p]), p + 1
                    return rd(0)[0]
                x = float(ev(s))
                res[k] = int(np.array(np.float32(x)).view(np.uint32)) if t == 'f32' else int(np.array(np.float64(x)).view(np.uint64))
        except Exception: res[k] = 0
    return res

def forked(fn, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r); os.setpgid(0, 0)
        try: res = fn(*a)
        except BaseException as e: res = ('unknown', None)
        try:
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        finally: os._exit(0)
    os.close(w)
    return pid, r

def killpid(p):
    for k in (os.killpg, os.kill):
        try: k(p, signal.SIGKILL)
        except Exception: pass
    try: os.waitpid(p, 0)
    except Exception: pass

def portfolio(jobs, secs):
    """jobs: list of (name, fn, args). first definitive result wins"""
    run = {}
    for n, fn, a in jobs:
        pid, fd = forked(fn, *a); run[fd] = (pid, n)
    end = time.time() + secs
    res = ('unknown', None, 'none')
    while run and time.time() < end:
        rd, _, _ = select.select(list(run), [], [], max(0.05, min(1.0, end - time.time())))
        for fd in rd:
            pid, n = run.pop(fd)
            try:
                with os.fdopen(fd, 'rb') as f: x = pickle.load(f)
            except Exception: x = ('unknown', None)
            killpid(pid)
            if x[0] != 'unknown':
                res = (x[0], x[1], n)
                for fd2, (p2, _) in run.items(): killpid(p2); os.close(fd2)
                return res
    for fd2, (p2, _) in run.items(): killpid(p2); os.close(fd2)
    return res

def solve(pc, cond, inputs, mode, quick_ms, hard_s):
    neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
    sl = slice_pc(pc, cond) if cond is not False else list(pc)
    cons = [z3.simplify(c) for c in sl] + [neg]
    full = list(pc) + [neg]
    sliced = len(sl) < len(pc)
    if mode in ('fp', 'fpa'): tacs = ['qffp', 'logic:QF_FPBV', None]
    elif mode == 'real' or mode == 'uf': tacs = [None, 'qfnra-nlsat', 'logic:QF_NRA']
    else: tacs = [None, 'logic:QF_AUFBV']
    t0 = time.time()
    # quick attempt, forked so that a stuck solver cannot block us
    js = [('z3', z3_try, (cons, inputs, None, quick_ms))]
    if mode == 'real': js.insert(0, ('z3-lra-abstraction', lra_try, (cons, inputs, quick_ms)))
    r = portfolio(js, quick_ms / 1000 + 3)
    if r[0] == 'unknown':
        jobs = [('z3:%s' % (t or 'default'), z3_try, (cons, inputs, t, int(hard_s * 1000))) for t in tacs]
        if mode == 'real': jobs.append(('z3-relevance', rel_try, (cons[:-1], neg, inputs, int(hard_s * 1000))))
        if mode == 'real': jobs.append(('z3-lra-abstraction', lra_try, (cons, inputs, int(hard_s * 1000))))
        jobs.append(('cvc5', cvc5_try, (cons, inputs, int(hard_s * 1000), ('--nl-cov',) if mode == 'real' else ())))
        r = portfolio(jobs, hard_s + 5)
    if r[0] == 'refuted' and sliced:
        # slicing drops only constraints over disjoint symbols: complete the model with the full query if it is easy
        q = portfolio([('z3', z3_try, (full, inputs, None, 20000)), ('cvc5', cvc5_try, (full, inputs, 20000, ()))], 25)
        if q[0] != 'unknown': r = (q[0], q[1], q[2])
    return r

def discharge(obls, mode, nproc=8, quick_ms=4000, hard_s=120, stop_first=False, budget=None):
    """solve all; mutates obls"""
    uniq = {}
    for i, o in enumerate(obls):
        k = (o.name, o.cond if o.cond is False else o.cond.get_id(), tuple(c.get_id() for c in o.pc))
        uniq.setdefault(k, []).append(i)
    groups = list(uniq.values())
    # hardest-looking last does not matter; keep order
    nxt = mp.Value('i', 0); stop = mp.Value('i', 0)
    q = mp.SimpleQueue()
    ws = []
    n = min(nproc, len(groups))
    tend = time.time() + budget if budget else None
    fail = mp.Value('d', 0.0) # time of the first obligation not proved: the verdict is then decided, the rest gets a short grace period
    def worker():
        while True:
            with nxt.get_lock():
                i = nxt.value; nxt.value += 1
            if i >= len(groups): break
            o = obls[groups[i][0]]
            if stop.value or (tend and time.time() > tend) or (fail.value and time.time() > fail.value + 60):
                q.put((i, 'unknown', None, 'skipped', 0.0)); continue
            t = time.time()
            try: r = solve(o.pc, o.cond, o.inputs, mode, quick_ms, hard_s if not fail.value else min(hard_s, 30))
            except BaseException as e: r = ('unknown', None, 'error %r' % e)
            if r[0] != 'proved' and os.environ.get('VC_DUMP'): open('/tmp/vcdump.%d.txt' % i, 'w').write(o.name + '\nCOND ' + str(o.cond) + '\nPC\n' + '\n'.join(str(c) for c in o.pc))
            if o.kind == 'by' and r[0] == 'refuted': r = ('unknown', None, r[2]) # premises were dropped: no counterexample
            if r[0] != 'proved' and not fail.value: fail.value = time.time()
            if r[0] == 'refuted' and stop_first: stop.value = 1
            q.put((i, r[0], r[1], r[2], time.time() - t))
        os._exit(0)
    for _ in range(n):
        pid = os.fork()
        if pid == 0: worker()
        ws.append(pid)
    got = 0
    while got < len(groups):
        i, s, m, b, t = q.get(); got += 1
        for j in groups[i]:
            obls[j].status = s; obls[j].model = m; obls[j].backend = b; obls[j].time = t
    for p in ws: os.waitpid(p, 0)
