"""symbolic interpreter for the JSON IR: path enumeration with optional merging, contract stubs,
loop invariants."""
import re, os, heapq, math
from vcgen import *

NOOP_PAT = re.compile(r'^_ZNK?7Console(?!8critical)|^_ZSt9terminate|^__cxa_atexit|^_ZNSt8ios_base4InitC|^llvm\.(lifetime|assume|stacksave|stackrestore|invariant|experimental\.noalias|dbg|va_start|va_end|prefetch|donothing)')

class Interp(Engine):
    # ------------------------------------------------------------ top level
    def start(self, fname, ctors=()):
        st = State()
        for g in ctors:
            for n in list(self.m.funs):
                if n.startswith('_GLOBAL__sub_I_') and g in n and 'blocks' in self.m.funs[n]:
                    rs = self.run(self.m.funs[n], [], st)
                    assert len(rs) == 1, 'constructor forks'
                    st = rs[0][0]
        f = self.m.funs[fname]
        self.fnstack = []
        st.regs = {}
        fin = self.run(f, [], st)
        self.final = fin
        self.finish_obls()
        return fin
    def finish_obls(self):
        for o in self.obls:
            if self.axioms and o.cond is not False: o.pc = o.pc + [x for x in self.axioms_for(o.pc + [o.cond])]
            elif self.axioms: o.pc = o.pc + self.axioms_for(o.pc)
    def domerge(self, f):
        if self.merge is True: return True
        if self.merge is False: return False
        if any(x[0] == '!' and x[1:] in f['name'] for x in self.merge): return False
        return any(x[0] != '!' and x in f['name'] for x in self.merge)
    # ------------------------------------------------------------ function
    def run(self, f, args, st):
        name = f['name']
        if len(self.fnstack) > 200: raise Unsupported('recursion too deep in ' + name)
        self.funcs.add(name)
        self.fnstack.append(name)
        saved = st.regs
        regs = {}
        for i, (a, v) in enumerate(zip(f['args'], args)): regs[i] = v
        st.regs = regs
        allocas = []
        self.m.live(f)
        if 'lspecs' not in f: self.loopspec(f, -1)
        res = []
        mg = self.domerge(f)
        pend = {}
        def push(b, s):
            pend.setdefault(b, []).append(s)
        push(0, st)
        order = None
        while pend:
            if mg:
                b = min(pend)
                # innermost loops first: back edges have smaller indices (RPO), so min() runs loops to completion
                lst = pend.pop(b)
                lst = self.mergestates(lst, f['live'][b] | {i['id'] for i in f['phis'][b]}) if len(lst) > 1 else lst
                for s in lst:
                    for kind, x, s2 in self.block(f, b, s, args):
                        if kind == 'ret': res.append((s2, x))
                        else: push(x, s2)
            else:
                b = max(pend)  # depth first
                lst = pend[b]; s = lst.pop()
                if not lst: del pend[b]
                for kind, x, s2 in self.block(f, b, s, args):
                    if kind == 'ret': res.append((s2, x))
                    else: push(x, s2)
        self.fnstack.pop()
        if mg and len(res) > 1:
            rt = f['ret']
            for s, v in res: s.regs = {'ret': v}
            ss = self.mergestates([s for s, _ in res], {'ret'}, rt)
            res = [(s, s.regs.get('ret')) for s in ss]
        # kill allocas of this frame: stack addresses must not be used afterwards (drop to keep the state small)
        out = []
        for s, v in res:
            out.append((s, v))
        return out
    def dropallocas(self, s, ids):
        for i in ids:
            if i in s.mem:
                o = s.mem[i]
                if o.alive:
                    o = Obj(i, o.size, o.name, o.kind); o.alive = False
                    s.mem[i] = o; s.own.add(i)
    def edge(self, f, frm, to, st):
        phis = f['phis'][to]
        if phis:
            vals = []
            for p in phis:
                for pb, o in p['in']:
                    if pb == frm:
                        vals.append((p['id'], self.val(st, o))); break
            for k, v in vals: st.regs[k] = v
        # prune dead registers (keeps merging and forking cheap)
        live = f['live'][to]
        keep = live | {p['id'] for p in phis}
        na = len(f['args'])
        st.regs = {k: v for k, v in st.regs.items() if k in keep or (isinstance(k, int) and k < na) or isinstance(k, str)}
        return ('goto', to, st)
    def block(self, f, b, st, args):
        """execute block b; returns list of (kind, x, state)"""
        out = []
        if st.dead: return out
        if b in f['headers']:
            spec = self.loopspec(f, b)
            if spec is not None: return self.loop_enter(f, b, st, spec, args)
        return self.blockbody(f, b, st, args)
    def blockbody(self, f, b, st, args):
        out = []
        ins = f['blocks'][b]
        stack = [(0, st)]
        while stack:
            i, s = stack.pop()
            while True:
                if s.dead: break
                I = ins[i]; op = I['op']
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step budget exceeded')
                if op == 'phi': i += 1; continue
                if op == 'dbg':
                    self.dbgupd(f, I, s); i += 1; continue
                self.loc = (f['name'], I.get('ln'))
                try:
                    if op == 'br':
                        if 'c' not in I:
                            out.append(self.edge(f, b, I['s'][0], s)); break
                        c = self.truth(self.need(s, self.val(s, I['c']), 'i1'))
                        if c is True or c is False:
                            out.append(self.edge(f, b, I['s'][0 if c else 1], s)); break
                        t = self.fork2(s, c)
                        if t[1] is not None: out.append(self.edge(f, b, I['s'][1], t[1]))
                        if t[0] is not None: out.append(self.edge(f, b, I['s'][0], t[0]))
                        break
                    if op == 'ret':
                        v = self.val(s, I['a'][0]) if I['a'] else None
                        out.append(('ret', v, s)); break
                    if op == 'switch':
                        self.switch(f, b, I, s, out); break
                    if op == 'unreachable':
                        self.oblige(s, False, 'unreachable code / missing return reached', self.loc); break
                    if op in ('call', 'invoke'):
                        rs = self.call(f, I, s)
                        nxt = i + 1
                        rs = [(s2, v) for s2, v in rs if not s2.dead]
                        if not rs: break
                        if op == 'invoke':
                            for s2, v in rs:
                                if 'id' in I: s2.regs[I['id']] = v
                                out.append(self.edge(f, b, I['s'][0], s2))
                            break
                        for s2, v in rs[1:]:
                            if 'id' in I: s2.regs[I['id']] = v
                            stack.append((nxt, s2))
                        s, v = rs[0]
                        if 'id' in I: s.regs[I['id']] = v
                        i = nxt
                        continue
                    self.instr(f, I, s)
                    i += 1
                except NeedFork as nf:
                    for s2 in self.concretize(s, nf.p): stack.append((i, s2))
                    break
                except CantMerge:
                    if op != 'select': raise Unsupported('pointer ite in ' + op)
                    c = self.val(s, I['a'][0])
                    a, bb = self.fork2(s, c)
                    if a is not None: a.regs[I['id']] = self.val(a, I['a'][1]); stack.append((i + 1, a))
                    if bb is not None: bb.regs[I['id']] = self.val(bb, I['a'][2]); stack.append((i + 1, bb))
                    break
        return out
    def fork2(self, s, c):
        """split on condition c (z3 Bool). returns (true state | None, false state | None)"""
        nc = z3.Not(c)
        t = self.feas2(s, c); fz = True if not t else self.feas2(s, nc)
        self.paths += 1
        if self.paths > self.max_paths: raise Unsupported('too many paths')
        a = b = None
        if t and fz:
            a = s.fork(); b = s
            a.pc.append(self.branch(c)); b.pc.append(self.branch(nc))
        elif t:
            a = s; a.pc.append(self.branch(c))
        elif fz:
            b = s; b.pc.append(self.branch(nc))
        return a, b
    def addax(self, l):
        if self.axioms:
            for x in self.axioms_for(l): self.solver.add(*self.absconv(x))
    def absconv(self, c):
        if self.fmode != 'real': return (c,)
        if not hasattr(self, 'PA'):
            import polyabs
            self.PA = polyabs.PolyAbs()
        return self.PA.convert([c])
    def feas2(self, s, c):
        if not self.feas_on: return True
        self.feasible(s) if False else None
        pc = s.pc
        i = 0
        n = len(pc)
        ids = self.sstack
        while i < len(ids) and i < n and ids[i] == pc[i].get_id(): i += 1
        if i < len(ids):
            self.solver.pop(len(ids) - i); del ids[i:]
        cv = self.absconv
        for j in range(i, n):
            self.solver.push(); self.solver.add(*cv(pc[j])); self.addax([pc[j]]); ids.append(pc[j].get_id()); self.keep.append(pc[j])
        self.nfeas += 1
        self.solver.push(); self.solver.add(*cv(c)); self.addax([c])
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat
    def concretize(self, s, p):
        off = p.off(); res = []
        sol = z3.Solver(); sol.set('timeout', 10000)
        for c in s.pc: sol.add(c)
        n = 0
        while True:
            r = sol.check()
            if r == z3.unsat: break
            if r != z3.sat: raise Unsupported('cannot enumerate pointer offsets')
            v = sol.model().eval(off, model_completion=True).as_long()
            n += 1
            if n > self.concretize_max: raise Unsupported('symbolic pointer with too many targets')
            s2 = s.fork(); s2.pc.append(self.branch(off == v))
            for k, x in list(s2.regs.items()):
                if isinstance(x, Ptr) and x.obj == p.obj and x.terms and len(x.terms) == len(p.terms) and all(a[0] == b[0] and a[1].eq(b[1]) for a, b in zip(x.terms, p.terms)):
                    s2.regs[k] = Ptr(x.obj, sgn((v + x.c - p.c) & MASK[64], 64))
            res.append(s2); sol.add(off != v)
        return res
    def switch(self, f, b, I, s, out):
        w = tybits(I['ct'])
        c = self.need(s, self.val(s, I['c']), I['ct'])
        if isinstance(c, z3.ExprRef): c = z3.simplify(c)
        if z3.is_bv_value(c) if isinstance(c, z3.ExprRef) else False: c = c.as_long()
        if isinstance(c, int):
            for v, t in I['cs']:
                if int(v) == c: out.append(self.edge(f, b, t, s)); return
            out.append(self.edge(f, b, I['def'], s)); return
        bydest = {}
        for v, t in I['cs']: bydest.setdefault(t, []).append(c == int(v))
        alln = z3.And([c != int(v) for v, t in I['cs']])
        items = [(t, z3.Or(l) if len(l) > 1 else l[0]) for t, l in bydest.items()]
        if I['def'] in bydest:
            items = [(t, z3.Or(cc, alln) if t == I['def'] else cc) for t, cc in items]
        elif I['def'] >= 0: items.append((I['def'], alln))
        for t, cc in items:
            if self.feas2(s, cc):
                s2 = s.fork(); s2.pc.append(self.branch(cc))
                self.paths += 1
                out.append(self.edge(f, b, t, s2))
    # ------------------------------------------------------------ merging
    def mergestates(self, lst, live, rt=None):
        lst = [s for s in lst if not s.dead]
        out = []
        while lst:
            a = lst.pop(0)
            rest = []
            for b in lst:
                m = self.merge2(a, b, live, rt)
                if m is None: rest.append(b)
                else: a = m
            out.append(a); lst = rest
        return out
    def merge2(self, a, b, live, rt=None):
        if a.cover != b.cover: pass
        if a.inputs.keys() != b.inputs.keys(): return None
        if a.ghost is not b.ghost and a.ghost != b.ghost: return None
        k = 0
        n = min(len(a.pc), len(b.pc))
        while k < n and a.pc[k].eq(b.pc[k]): k += 1
        sa, sb = a.pc[k:], b.pc[k:]
        ib = {x.get_id() for x in sb}; common = [x for x in sa if x.get_id() in ib]; ic = {x.get_id() for x in common}
        if common: sa = [x for x in sa if x.get_id() not in ic]; sb = [x for x in sb if x.get_id() not in ic]
        ca = z3.And(sa) if len(sa) > 1 else (sa[0] if sa else z3.BoolVal(True))
        cb = z3.And(sb) if len(sb) > 1 else (sb[0] if sb else z3.BoolVal(True))
        # selector: ca is exclusive with cb because paths are disjoint
        c = sa[0] if sa and sb and sa[0].eq(z3.Not(sb[0])) else ca
        if sa and sb and sb[0].eq(z3.Not(sa[0])): c = sa[0]
        elif c is ca:
            br = [x for x in sa if x.get_id() in self.brid]
            if br and len(br) < len(sa): c = z3.And(br) if len(br) > 1 else br[0]
        try:
            regs = {}
            for r in live:
                if r in a.regs and r in b.regs:
                    x, y = a.regs[r], b.regs[r]
                    regs[r] = self.mval(c, x, y, rt)
            mem = {}
            for oid in a.mem.keys() | b.mem.keys():
                oa, ob = a.mem.get(oid), b.mem.get(oid)
                if oa is None or ob is None: mem[oid] = oa or ob; continue
                if oa is ob: mem[oid] = oa; continue
                mem[oid] = self.mobj(c, oa, ob, a, b)
        except CantMerge:
            return None
        m = State()
        m.regs = regs; m.mem = mem; m.own = set(); a.own = set(); b.own = set()
        for r in a.regs:
            if r not in regs and r in b.regs and (a.regs[r] is b.regs[r] or (isinstance(r, str) and self.samevar(a.regs[r], b.regs[r]))): regs[r] = a.regs[r]
        d = z3.Or(ca, cb)
        m.pc = a.pc[:k] + common
        if not (len(sa) == 1 and len(sb) == 1 and (sa[0].eq(z3.Not(sb[0])) or sb[0].eq(z3.Not(sa[0])))): m.pc.append(self.branch(d))
        m.inputs = a.inputs; m.ghost = a.ghost; m.depth = a.depth
        return m
    def samevar(self, x, y):
        if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]): return False
        x, y = x[1], y[1]
        if x is y: return True
        if type(x) != type(y): return False
        if isinstance(x, z3.ExprRef): return x.eq(y)
        if isinstance(x, Ptr): return x.obj == y.obj and x.c == y.c and len(x.terms) == len(y.terms) and all(p[0] == q[0] and p[1].eq(q[1]) for p, q in zip(x.terms, y.terms))
        try: return bool(x == y)
        except Exception: return False
    def mval(self, c, x, y, t=None):
        if x is y: return x
        if isinstance(x, tuple):
            return tuple(self.mval(c, p, q) for p, q in zip(x, y))
        t = self.guess(x, y)
        return self.ite(c, x, y, t)
    def guess(self, x, y):
        for v in (x, y):
            if isinstance(v, bool): return 'i1'
            if isinstance(v, z3.BoolRef): return 'i1'
            if isinstance(v, z3.BitVecRef): return 'i%d' % v.size()
            if isinstance(v, z3.FPRef): return 'f32' if v.sort() == FS['f32'] else 'f64'
            if isinstance(v, z3.ArithRef): return 'f32'
            if isinstance(v, np.float32): return 'f32'
            if isinstance(v, np.float64): return 'f64'
            if isinstance(v, Fraction): return 'f32'
            if isinstance(v, (Ptr, FnPtr, PInt)): return 'ptr'
        if isinstance(x, int) and isinstance(y, int):
            if x == y: return 'i64'
            raise CantMerge()   # width unknown: keep concrete loop counters apart
        if x is UNDEF or y is UNDEF: return 'i64'
        raise CantMerge()
    def mobj(self, c, oa, ob, a, b):
        if oa.alive != ob.alive:
            raise CantMerge()
        if not oa.alive: return oa
        o = oa.copy()
        if (oa.arrs is None) != (ob.arrs is None): raise CantMerge()
        if oa.parr != ob.parr and oa.parr is not ob.parr:
            for key in set(oa.parr or {}) | set(ob.parr or {}):
                x, y = (oa.parr or {}).get(key), (ob.parr or {}).get(key)
                if x is y: continue
                if x is None or y is None or x[0] != 'idx' or y[0] != 'idx' or x[1].obj != y[1].obj or x[1].c != y[1].c or x[2] != y[2]: raise CantMerge()
                o.parr[key] = ('idx', x[1], x[2], x[3] if x[3].eq(y[3]) else z3.If(c, x[3], y[3]), x[4])
        if oa.arrs is not None:
            for key in oa.arrs.keys() | ob.arrs.keys():
                x, y = oa.arrs.get(key), ob.arrs.get(key)
                if x is None or y is None:
                    o.arrs[key] = x if x is not None else y   # unread on the other side; same initial contents
                    if oa.default != 'zero' and x is None: pass
                    continue
                o.arrs[key] = x if x.eq(y) else z3.If(c, x, y)
            return o
        for off in oa.cells.keys() | ob.cells.keys():
            x, y = oa.cells.get(off), ob.cells.get(off)
            if x is None or y is None:
                ct, cv = x or y
                miss, other = (oa, a) if x is None else (ob, b)
                if miss._has(off, tysize(ct)) if hasattr(miss, '_has') else self._conflict(miss, off, tysize(ct)): raise CantMerge()
                if miss.default == 'zero': mv = self.zero(None, ct)
                elif miss.default == 'undef': o.cells[off] = (ct, cv); continue   # undefined on one side: any value
                else: raise CantMerge()
                o.cells[off] = (ct, self.ite(c, mv, cv, ct) if x is None else self.ite(c, cv, mv, ct)); continue
            if x is y: continue
            if x[1] is y[1] or (isc(x[1]) and isc(y[1]) and type(x[1]) == type(y[1]) and x[1] == y[1]): o.cells[off] = x; continue
            if x[0] != y[0]:
                if tysize(x[0]) != tysize(y[0]): raise CantMerge()
                if x[0][0] != y[0][0]: raise CantMerge()
            o.cells[off] = (x[0], self.ite(c, x[1], y[1], x[0]))
        return o
    # ------------------------------------------------------------ instructions
    def instr(self, f, I, st):
        op = I['op']; t = I['t']
        if op == 'load':
            st.regs[I['id']] = self.load(st, self.val(st, I['a'][0]), t, self.loc); return
        if op == 'store':
            self.store(st, self.val(st, I['a'][1]), self.val(st, I['a'][0]), I['at'][0], self.loc); return
        if op == 'getelementptr':
            p = self.val(st, I['p'])
            if isinstance(p, FnPtr): raise Unsupported('gep on function')
            if p is UNDEF: st.regs[I['id']] = UNDEF; return
            c = I['off']; terms = []
            for o, ot, stride in I['ix']:
                v = self.need(st, self.val(st, o), ot)
                w = tybits(ot)
                if isinstance(v, int): c += sgn(v, w) * stride
                else:
                    if w < 64: v = z3.SignExt(64 - w, v)
                    self.linterms(v, stride, terms)
            # constants hidden in terms
            tt = []
            for k, x in terms:
                if isinstance(x, int): c += k * x
                else: tt.append((k, x))
            st.regs[I['id']] = p.add(c, tuple(tt)); return
        if op == 'alloca':
            n = self.val(st, I['n'])
            if not isinstance(n, int): raise Unsupported('variable alloca')
            o = self.newobj(st, I['sz'] * n, 'local!%s:%d' % (f['name'], I['id']), 'alloca')
            st.regs[I['id']] = Ptr(o.id); return
        if op == 'icmp': st.regs[I['id']] = self.icmp(st, I); return
        if op == 'fcmp':
            a = self.need(st, self.val(st, I['a'][0]), I['at']); b = self.need(st, self.val(st, I['a'][1]), I['at'])
            st.regs[I['id']] = self.F.cmp(I['pr'], a, b, I['at']); return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if isinstance(t, list):
                et = t[2][0][1]
                x, y = self.val(st, I['a'][0]), self.val(st, I['a'][1])
                st.regs[I['id']] = tuple(self.F.bin(self, st, op, self.need(st, a, et), self.need(st, b, et), et) for a, b in zip(x, y)); return
            a = self.need(st, self.val(st, I['a'][0]), t); b = self.need(st, self.val(st, I['a'][1]), t)
            st.regs[I['id']] = self.F.bin(self, st, op, a, b, t); return
        if op == 'fneg':
            st.regs[I['id']] = self.F.neg(self.need(st, self.val(st, I['a'][0]), t), t); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            st.regs[I['id']] = self.intop(st, I, op, t); return
        if op == 'select':
            c = self.truth(self.need(st, self.val(st, I['a'][0]), 'i1'))
            if c is True: v = self.val(st, I['a'][1])
            elif c is False: v = self.val(st, I['a'][2])
            else: v = self.ite(c, self.val(st, I['a'][1]), self.val(st, I['a'][2]), t)
            st.regs[I['id']] = v; return
        if op in ('zext', 'sext', 'trunc'):
            v = self.need(st, self.val(st, I['a'][0]), I['at'][0]); st.regs[I['id']] = self.cast(v, op, I['at'][0], t); return
        if op in ('sitofp', 'uitofp'):
            t0 = I['at'][0]
            v = self.need(st, self.val(st, I['a'][0]), t0)
            if t0 == 'i1': v = int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)); w = 8
            else: w = tybits(t0)
            r = self.F.tofp(self, st, v, w, op == 'sitofp', t)
            st.regs[I['id']] = r; return
        if op in ('fptosi', 'fptoui'):
            v = self.F.toint(self, st, self.need(st, self.val(st, I['a'][0]), I['at'][0]), I['at'][0], tybits(t), op == 'fptosi', self.loc)
            st.regs[I['id']] = v; return
        if op in ('fpext', 'fptrunc'):
            st.regs[I['id']] = self.F.conv(self.need(st, self.val(st, I['a'][0]), I['at'][0]), I['at'][0], t); return
        if op == 'bitcast':
            v = self.val(st, I['a'][0]); t0 = I['at'][0]
            st.regs[I['id']] = self.bitcast(st, v, t0, t); return
        if op == 'ptrtoint':
            st.regs[I['id']] = self.ptrtoint(self.val(st, I['a'][0])); return
        if op == 'inttoptr':
            st.regs[I['id']] = self.inttoptr(st, self.val(st, I['a'][0])); return
        if op == 'extractvalue':
            v = self.val(st, I['a'][0])
            for k in I['x']: v = v[k] if v is not UNDEF else UNDEF
            st.regs[I['id']] = v; return
        if op == 'insertvalue':
            def ins(v, x, val):
                if not x: return val
                l = list(v); l[x[0]] = ins(l[x[0]], x[1:], val); return tuple(l)
            st.regs[I['id']] = ins(self.val(st, I['a'][0]), I['x'], self.val(st, I['a'][1])); return
        if op == 'extractelement':
            v = self.val(st, I['a'][0]); k = self.val(st, I['a'][1])
            st.regs[I['id']] = v[k]; return
        if op == 'insertelement':
            v = list(self.val(st, I['a'][0])); k = self.val(st, I['a'][2]); v[k] = self.val(st, I['a'][1])
            st.regs[I['id']] = tuple(v); return
        if op == 'shufflevector':
            a = self.val(st, I['a'][0]); b = self.val(st, I['a'][1]); l = list(a) + list(b)
            st.regs[I['id']] = tuple(UNDEF if k < 0 else l[k] for k in I['x']); return
        if op == 'freeze':
            v = self.val(st, I['a'][0]); st.regs[I['id']] = self.need(st, v, t); return
        if op == 'fence': return
        if op == 'atomicrmw':
            p = self.val(st, I['a'][0]); v = self.val(st, I['a'][1]); old = self.load(st, p, t, self.loc)
            old = self.need(st, old, t)
            w = tybits(t)
            k = I['rmw']
            if k == 'add': n = (old + v) & MASK[w] if isinstance(old, int) and isinstance(v, int) else bv(old, w) + bv(v, w)
            elif k == 'sub': n = (old - v) & MASK[w] if isinstance(old, int) and isinstance(v, int) else bv(old, w) - bv(v, w)
            elif k == 'xchg': n = v
            else: raise Unsupported('atomicrmw ' + k)
            self.store(st, p, n, t, self.loc); st.regs[I['id']] = old; return
        raise Unsupported('instruction %s in %s' % (op, f['name']))
    def linterms(self, v, k, out):
        """decompose a 64-bit index into a linear form (wrap-free decomposition of + and * by const is exact mod 2^64)"""
        v = z3.simplify(v) if False else v
        if z3.is_bv_value(v):
            out.append((k * sgn(v.as_long(), 64), 1) if False else (k, sgn(v.as_long(), 64))); return
        d = v.decl().kind()
        if d == z3.Z3_OP_BADD:
            for c in v.children(): self.linterms(c, k, out)
            return
        if d == z3.Z3_OP_BMUL and len(v.children()) == 2:
            a, b = v.children()
            if z3.is_bv_value(a): self.linterms(b, k * sgn(a.as_long(), 64), out); return
            if z3.is_bv_value(b): self.linterms(a, k * sgn(b.as_long(), 64), out); return
        out.append((k, v))
    def cast(self, v, op, t0, t1):
        w1 = tybits(t1)
        if isinstance(v, PInt):
            if w1 == 64: return v
            raise Unsupported('pointer truncation')
        if t0 == 'i1':
            if isinstance(v, bool): r = int(v)
            elif op == 'zext': return z3.If(v, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
            else: return z3.If(v, z3.BitVecVal(MASK[w1], w1), z3.BitVecVal(0, w1))
            return (MASK[w1] if r else 0) if op == 'sext' else r
        w0 = tybits(t0)
        if op == 'trunc':
            if t1 == 'i1':
                return bool(v & 1) if isinstance(v, int) else z3.Extract(0, 0, v) == 1
            if isinstance(v, int): return v & MASK[w1]
            return z3.Extract(w1 - 1, 0, v)
        if op == 'zext': return v if isinstance(v, int) else z3.ZeroExt(w1 - w0, v)
        return sgn(v, w0) & MASK[w1] if isinstance(v, int) else z3.SignExt(w1 - w0, v)
    def bitcast(self, st, v, t0, t1):
        if t0 == t1 or v is UNDEF: return v
        if isinstance(t0, list) or isinstance(t1, list):
            o = self.newobj(st, max(tysize(t0), tysize(t1)), 'cast', 'alloca')
            self.store(st, Ptr(o.id), v, t0); return self.load(st, Ptr(o.id), t1)
        if t0[0] == 'f' and t1[0] == 'i': return self.F.bits(self, v, t0)
        if t0[0] == 'i' and t1[0] == 'f': return self.F.frombits(self, v, t1)
        raise Unsupported('bitcast %s %s' % (t0, t1))
    def icmp(self, st, I):
        t = I['at']; pr = I['pr']
        a = self.need(st, self.val(st, I['a'][0]), t) if t != 'ptr' else self.val(st, I['a'][0])
        b = self.need(st, self.val(st, I['a'][1]), t) if t != 'ptr' else self.val(st, I['a'][1])
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undefined pointer')
        if isinstance(a, PInt): a = a.p; b = b.p if isinstance(b, PInt) else (Ptr(0, b) if isinstance(b, int) else b)
        elif isinstance(b, PInt): b = b.p; a = Ptr(0, a) if isinstance(a, int) else a
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                if pr == 'eq': return same
                if pr == 'ne': return not same
                raise Unsupported('function pointer order')
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('pointer/integer comparison')
            if a.obj == b.obj:
                if not a.terms and not b.terms:
                    x, y = a.c, b.c
                    return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pr]
                d = a.add(-b.c, tuple((-k, x) for k, x in b.terms))
                if not d.terms:
                    x = d.c
                    return {'eq': x == 0, 'ne': x != 0, 'ult': x < 0, 'ule': x <= 0, 'ugt': x > 0, 'uge': x >= 0}[pr]
                if pr in ('eq', 'ne'):
                    e = None
                    if len(d.terms) == 1 and d.c % d.terms[0][0] == 0:
                        e = d.terms[0][1] == z3.BitVecVal((-d.c // d.terms[0][0]) & MASK[64], 64)   # offsets in range: no wrap
                    if len(d.terms) == 2 and d.c == 0 and d.terms[0][0] == -d.terms[1][0]:
                        e = d.terms[0][1] == d.terms[1][1]
                    if e is None: e = d.off() == 0
                    return e if pr == 'eq' else z3.Not(e)
                x, y = bv(a.off(), 64), bv(b.off(), 64)
                return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pr](x, y)
            if pr == 'eq': return False
            if pr == 'ne': return True
            # order between distinct objects (e.g. std::less on pointers): object id order, null lowest
            x, y = a.obj, b.obj
            return {'ult': x < y, 'ule': x < y, 'ugt': x > y, 'uge': x > y}[pr]
        if t == 'i1':
            if isinstance(a, bool) and isinstance(b, bool):
                x, y = int(a), int(b)
            else:
                a, b = zb(a), zb(b)
                return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.And(z3.Not(a), b), 'ugt': lambda: z3.And(a, z3.Not(b)),
                        'ule': lambda: z3.Implies(a, b), 'uge': lambda: z3.Implies(b, a)}[pr]()
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pr]
        w = tybits(t)
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
            p = pr if pr in ('eq', 'ne') else pr[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        a, b = bv(a, w), bv(b, w)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]()
    def intop(self, st, I, op, t):
        if isinstance(t, list): raise Unsupported('vector int op')
        a = self.need(st, self.val(st, I['a'][0]), t); b = self.need(st, self.val(st, I['a'][1]), t)
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pintop(st, op, a, b)
        if t == 'i1':
            if isinstance(a, bool) and isinstance(b, bool):
                return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b}[op]
            za, zc = zb(a), zb(b)
            return {'and': lambda: z3.And(za, zc), 'or': lambda: z3.Or(za, zc), 'xor': lambda: z3.Xor(za, zc), 'add': lambda: z3.Xor(za, zc)}[op]()
        w = tybits(t); M = MASK[w]
        cc = isinstance(a, int) and isinstance(b, int)
        if op in ('add', 'sub', 'mul'):
            if cc:
                x = a + b if op == 'add' else a - b if op == 'sub' else a * b
                if I.get('nsw') and self.overflow:
                    sx = sgn(a, w), sgn(b, w)
                    y = sx[0] + sx[1] if op == 'add' else sx[0] - sx[1] if op == 'sub' else sx[0] * sx[1]
                    if not -(1 << (w - 1)) <= y < (1 << (w - 1)): self.oblige(st, False, 'signed integer overflow', self.loc)
                return x & M
            if op == 'mul' and isinstance(a, int): a, b = b, a
            if op == 'mul' and b is not None and isinstance(b, int) and b == 1: return a
            if op == 'mul' and isinstance(b, int) and b == 0: return 0
            if op in ('add', 'sub') and isinstance(b, int) and b == 0: return a
            if op == 'add' and isinstance(a, int) and a == 0: return b
            za, zc = bv(a, w), bv(b, w)
            if I.get('nsw') and self.overflow:
                if op == 'add': c = z3.And(z3.BVAddNoOverflow(za, zc, True), z3.BVAddNoUnderflow(za, zc))
                elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(za, zc), z3.BVSubNoUnderflow(za, zc, True))
                else: c = z3.And(z3.BVMulNoOverflow(za, zc, True), z3.BVMulNoUnderflow(za, zc))
                self.oblige(st, c, 'signed integer overflow', self.loc)
            r = za + zc if op == 'add' else za - zc if op == 'sub' else za * zc
            return r
        if op in ('and', 'or', 'xor'):
            if cc: return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            za, zc = bv(a, w), bv(b, w)
            return za & zc if op == 'and' else za | zc if op == 'or' else za ^ zc
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if b >= w: self.oblige(st, False, 'shift amount out of range', self.loc); return 0
            else: self.oblige(st, z3.ULT(b, w), 'shift amount out of range', self.loc)
            if cc:
                return (a << b) & M if op == 'shl' else a >> b if op == 'lshr' else (sgn(a, w) >> b) & M
            if op == 'ashr' and isinstance(b, int):
                l = self.lins(a)
                if l is not None and all(k % (1 << b) == 0 for k, _ in l[1]) and l[0] % (1 << b) == 0: return self.lin_to_bv(l, 1 << b)
            za, zc = bv(a, w), bv(b, w)
            return za << zc if op == 'shl' else z3.LShR(za, zc) if op == 'lshr' else za >> zc
        # divisions
        if isinstance(b, int):
            if b == 0: self.oblige(st, False, 'integer division by zero', self.loc); return 0
        else: self.oblige(st, b != 0, 'integer division by zero', self.loc)
        if cc:
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            if op == 'sdiv':
                if q >= 1 << (w - 1): self.oblige(st, False, 'signed division overflow', self.loc)
                return q & M
            return (x - q * y) & M
        if op == 'sdiv' and isinstance(b, int):
            l = self.lins(a); k0 = sgn(b, w)
            if l is not None and all(k % k0 == 0 for k, _ in l[1]) and l[0] % k0 == 0: return self.lin_to_bv(l, k0)
        za, zc = bv(a, w), bv(b, w)
        if op in ('sdiv', 'srem') and self.overflow and not (isinstance(b, int) and sgn(b, w) != -1):
            self.oblige(st, z3.Or(za != (1 << (w - 1)), zc != M), 'signed division overflow', self.loc)
        return {'udiv': lambda: z3.UDiv(za, zc), 'urem': lambda: z3.URem(za, zc), 'sdiv': lambda: za / zc, 'srem': lambda: z3.SRem(za, zc)}[op]()
    def lins(self, v):
        return self.memos.get(('lin', v.get_id())) if isinstance(v, z3.ExprRef) else None
    def lin_to_bv(self, l, k):
        c = l[0] // k; e = None
        for q, x in l[1]:
            m = q // k; y = x if m == 1 else x * z3.BitVecVal(m & MASK[64], 64)
            e = y if e is None else e + y
        if e is None: return c & MASK[64]
        return e if c == 0 else e + z3.BitVecVal(c & MASK[64], 64)
    def pintop(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            p, q = a.p, b.p
            if not isinstance(p, Ptr) or not isinstance(q, Ptr): raise Unsupported('fn ptr diff')
            if p.obj != q.obj: raise Unsupported('difference of pointers to distinct objects')
            d = p.add(-q.c, tuple((-k, x) for k, x in q.terms))
            r = d.off()
            if isinstance(r, z3.ExprRef):
                self.memos[('lin', r.get_id())] = (d.c, d.terms); self.keep.append(r)
            return r
        if op in ('add', 'sub') and isinstance(a, PInt):
            if isinstance(b, int): return PInt(a.p.add(sgn(b, 64) if op == 'add' else -sgn(b, 64)))
            return PInt(a.p.add(0, ((1 if op == 'add' else -1, b),)))
        if op == 'add' and isinstance(b, PInt): return self.pintop(st, 'add', b, a)
        if op == 'sub' and isinstance(b, PInt) and isinstance(a, int) : raise Unsupported('int - ptr')
        if op == 'and' and isinstance(b, int) and isinstance(a.p, Ptr) and not a.p.terms:
            # objects are at least 16-byte aligned
            if b < 16: return a.p.c & b
            if b >= MASK[64] - 15: return PInt(Ptr(a.p.obj, a.p.c & sgn(b, 64) if a.p.c >= 0 else a.p.c))
        if op == 'or' and isinstance(b, int) and isinstance(a.p, Ptr) and not a.p.terms and b < 16: return PInt(Ptr(a.p.obj, a.p.c | b))
        raise Unsupported('integer arithmetic %s on pointers' % op)
    # ------------------------------------------------------------ calls
    def call(self, f, I, st):
        fo = I['f']
        if fo[0] == 'asm':
            return [(st, None)]
        target = self.val(st, fo) if fo[0] != 'g' or fo[1] in self.m.funs else FnPtr(fo[1])
        if not isinstance(target, FnPtr):
            if target is UNDEF: self.oblige(st, False, 'call through an uninitialised pointer', self.loc); return []
            if isinstance(target, Ptr) and target.obj == 0: self.oblige(st, False, 'call through a null pointer', self.loc); return []
            raise Unsupported('indirect call through %r in %s' % (target, f['name']))
        n = target.name
        if n.startswith('llvm.dbg'): return [(st, None)]
        args = [None if a == ['?', 'meta'] else self.val(st, a) for a in I['a']]
        return self.dispatch(st, n, args, I)
    def dispatch(self, st, n, args, I):
        regs = st.regs
        bvs = I.get('bv') or []
        for k, sz in enumerate(bvs):
            if sz:
                o = self.newobj(st, sz, 'byval!', 'alloca'); self.memcpy(st, Ptr(o.id), args[k], sz); args[k] = Ptr(o.id)
        h = self.hooks.get(n)
        if h is None:
            for pat, hk in self.hooks.items():
                if pat[0] == '~' and re.search(pat[1:], n): h = hk; break
        if h is not None:
            self.contracts_used.add(n)
            r = h(self, st, args, I)
            return r if isinstance(r, list) else [(st, r)]
        stub = 'vcstub_' + n
        if stub in self.m.funs and self.fnstack[-1] != stub:
            self.contracts_used.add(n)
            rs = self.run(self.m.funs[stub], args, st)
            return self.back(rs, regs)
        if n in LIBM:
            fn, t = LIBM[n]
            loc = self.loc
            a = [self.need(st, x, t) for x in args[:(2 if fn in ('pow', 'atan2', 'fmin', 'fmax', 'fmod', 'minnum', 'maxnum', 'copysign') else 1)]]
            return [(st, self.F.fn(self, st, fn, a, t, loc))]
        m = getattr(self, 'x_' + n.replace('.', '_'), None)
        if m is not None: return m(st, args, I)
        if n.startswith('_ZN7Console8critical') or n in ('exit', 'abort', '_exit'):
            if self.critical == 'exit': self.note('paths ending in a fatal-error exit are allowed by the contract'); return []
            self.oblige(st, False, 'fatal error exit reached', self.loc); return []
        if NOOP_PAT.match(n):
            return [(st, self.zero(st, I['t']) if I['t'] != 'void' else None)]
        if n.startswith('llvm.'):
            return self.intrinsic(st, n, args, I)
        fn = self.m.funs.get(n)
        if fn is not None and 'blocks' in fn:
            st.depth += 1
            rs = self.run(fn, args, st)
            return self.back(rs, regs)
        if n.startswith('_ZSt') and 'throw' in n or n in ('__cxa_throw', '__cxa_rethrow', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__assert_fail'):
            self.oblige(st, False, 'exception/abort: ' + n, self.loc); return []
        raise Unsupported('external function ' + n)
    def back(self, rs, regs):
        out = []
        first = True
        for s, v in rs:
            if s.dead: continue
            s.regs = dict(regs); s.depth -= 1
            out.append((s, v))
        return out
    def memcpy(self, st, d, s, n):
        n = self.fixval(st, n)
        if not isinstance(n, int):
            return self.memcpy_sym(st, d, s, n)
        if n == 0: return
        so = self.chkptr(st, s, n, False, self.loc)
        if so is None: return
        do = self.chkptr(st, d, n, True, self.loc)
        if do is None: return
        if not s.terms and not d.terms and s.c == 0 and d.c == 0 and so.size == n == do.size and (so.arrs is not None or n > 65536):
            so2 = st.mem[s.obj]; do = st.wobj(d.obj)
            if so2.arrs is not None and so2.default == 'undef':
                so2 = st.wobj(s.obj)
            do.cells = dict(so2.cells); do.arrs = dict(so2.arrs) if so2.arrs is not None else None; do.stride = so2.stride; do.default = so2.default; do.gen = so2.gen; do.org = so2.org
            if hasattr(so2, 'esz'): do.esz = so2.esz
            return
        if so.arrs is not None or do.arrs is not None or s.terms or d.terms:
            return self.memcpy_arr(st, d, s, n)
        cells = []
        base = s.c
        covered = set()
        keys = so.cells.keys() if len(so.cells) <= n else [k for k in range(base - 16, base + n) if k in so.cells]
        part = False
        for k in sorted(keys):
            t, v = so.cells[k]; m = tysize(t)
            if k >= base and k + m <= base + n: cells.append((k - base, t, v))
            elif k < base + n and base < k + m: part = True
        if part:
            bs = [self.getbyte(st, st.mem[s.obj], base + i) for i in range(n)]
            do = st.wobj(d.obj)
            for i, b in enumerate(bs):
                if isinstance(b, tuple): raise Unsupported('partial pointer copy')
                self.cstore(st, do, d.c + i, b, 'i8')
            return
        do = st.wobj(d.obj)
        # clear the destination range
        for k in self._conflict(do, d.c, n):
            t, v = do.cells[k]
            if k >= d.c and k + tysize(t) <= d.c + n: del do.cells[k]
            else: self.cstore(st, do, max(k, d.c), 0, 'i8') if False else self._split(st, do, k, d.c, n)
        for k, t, v in cells: do.cells[d.c + k] = (t, v)
        # uncovered bytes keep the source default
        cov = [False] * n
        for k, t, v in cells:
            for i in range(k, k + tysize(t)): cov[i] = True
        if not all(cov):
            if so.default == do.default == 'undef': return
            for i in range(n):
                if not cov[i]:
                    if so.default == 'zero': b = 0
                    elif so.default == 'fresh': b = self.getbyte(st, st.mem[s.obj], base + i)
                    else: b = UNDEF
                    if not (b == 0 and do.default == 'zero'): do.cells[d.c + i] = ('i8', b)
    def _split(self, st, o, k, lo, n):
        t, v = o.cells.pop(k)
        bs = self.tobytes(st, v, t)
        for i, b in enumerate(bs):
            if not (lo <= k + i < lo + n):
                if isinstance(b, tuple): raise Unsupported('partial overwrite of pointer')
                o.cells[k + i] = ('i8', b)
    def memcpy_arr(self, st, d, s, n):
        so = st.mem[s.obj]; do = st.mem[d.obj]
        # element-wise copy of small blocks using the structure known on either side
        flds = None
        if so.arrs is not None and so.arrs:
            k = so.esz
            r = s.c % k
            flds = [(fo - r + j * k, t) for j in range((n + k - 1) // k + 1) for fo, t in so.arrs if 0 <= fo - r + j * k and fo - r + j * k + tysize(t) <= n]
        elif do.arrs is not None and do.arrs:
            k = do.esz; r = d.c % k
            flds = [(fo - r + j * k, t) for j in range((n + k - 1) // k + 1) for fo, t in do.arrs if 0 <= fo - r + j * k and fo - r + j * k + tysize(t) <= n]
        if not flds and so.arrs is None and not s.terms:
            flds = [(k - s.c, t) for k, (t, v) in so.cells.items() if s.c <= k and k + tysize(t) <= s.c + n]
        if not flds:
            if n % 4 == 0: flds = [(i, 'i32') for i in range(0, n, 4)]
            else: flds = [(i, 'i8') for i in range(n)]
        if len(flds) > 512: raise Unsupported('large symbolic memcpy')
        cov = set()
        for o, t in flds: cov |= set(range(o, o + tysize(t)))
        vals = [(o, t, self.load(st, s.add(o), t)) for o, t in sorted(flds)]
        for o, t, v in vals: self.store(st, d.add(o), v, t)
    def memcpy_sym(self, st, d, s, n):
        # whole-object copies with symbolic length: dst[d.c .. d.c+n) = src[s.c ..)
        so = self.chkptr(st, s, 0, False, self.loc); do = self.chkptr(st, d, 0, True, self.loc)
        if so is None or do is None: return
        for p, o, w in ((s, so, 'read'), (d, do, 'write')):
            off = bv(p.off(), 64); sz = bv(o.size, 64)
            lin = self.lin_le(n, o, p)
            self.oblige(st, lin if lin is not None else z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off)), 'out-of-bounds memcpy %s of %s' % (w, o.name.split('!')[0]), self.loc)
        if s.terms or d.terms or s.c or d.c: raise Unsupported('symbolic-length memcpy with offset')
        if so.arrs is None and do.arrs is None and not (so.cells or do.cells) and so.default == 'undef': return
        if so.arrs is None: so = self.toarr(st, so, s, 'i8' if not isinstance(so.stride, tuple) else 'i8')
        raise Unsupported('symbolic-length memcpy')
    def lin_le(self, n, o, p): return None
    def memset(self, st, d, v, n):
        n = self.fixval(st, n)
        if isinstance(n, int):
            if n == 0: return
            o = self.chkptr(st, d, n, True, self.loc)
            if o is None: return
            if v == 0 and d.c == 0 and not d.terms and o.size == n:
                o = st.wobj(o.id); o.cells = {}; o.default = 'zero'
                if o.arrs is not None: o.arrs = {}; o.gen = next(self.cnt)
                return
            if o.arrs is not None or d.terms: raise Unsupported('memset on array object')
            o = st.wobj(o.id)
            for k in self._conflict(o, d.c, n):
                t, cv = o.cells[k]
                if k >= d.c and k + tysize(t) <= d.c + n: del o.cells[k]
                else: self._split(st, o, k, d.c, n)
            if v == 0 and d.c == 0 and o.size == n: o.default = 'zero'; return
            if v == 0 and o.default == 'zero': return
            v = v if not isinstance(v, int) else v & 255
            i = 0
            if v == 0:
                while i < n:
                    m = 8 if n - i >= 8 and False else 1
                    o.cells[d.c + i] = ('i8', 0); i += 1
            else:
                for i in range(n): o.cells[d.c + i] = ('i8', v)
            return
        o = self.chkptr(st, d, 0, True, self.loc)
        if o is None: return
        off = bv(d.off(), 64); sz = bv(o.size, 64)
        self.oblige(st, z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off)), 'out-of-bounds memset of ' + o.name.split('!')[0], self.loc)
        if isinstance(v, int) and v == 0 and d.c == 0 and not d.terms and isinstance(o.size, z3.ExprRef) and z3.is_true(z3.simplify(o.size == n)):
            o = st.wobj(o.id); o.cells = {}; o.default = 'zero'
            if o.arrs is not None: o.arrs = {}; o.gen = next(self.cnt)
            return
        raise Unsupported('symbolic memset')
    def intrinsic(self, st, n, a, I):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, a[0], a[1], a[2]); return [(st, None)]
        if n.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2]); return [(st, None)]
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            t = I['t']; return [(st, self.F.bin(self, st, 'fadd', self.F.bin(self, st, 'fmul', a[0], a[1], t), a[2], t))]
        if n.startswith('llvm.trap'): self.oblige(st, False, 'trap', self.loc); return []
        if n.startswith('llvm.expect'): return [(st, a[0])]
        if n.startswith('llvm.is.fpclass'):
            if self.fmode != 'fp':
                if isinstance(a[0], float): return [(st, bool((math.isnan(a[0]) and a[1] & 3) or (math.isinf(a[0]) and a[1] & 0x204)))]
                return [(st, False)]
            v = a[0]; m = a[1]; t = I['at'][0]; v = self.F.z(v, t); r = []
            if m & 3: r.append(z3.fpIsNaN(v))
            if m & 0x204: r.append(z3.fpIsInf(v))
            if m & 0x108: r.append(z3.fpIsNormal(v))
            return [(st, z3.Or(r))]
        w = None
        mm = re.match(r'llvm\.(umin|umax|smin|smax|abs|ctlz|cttz|ctpop|bswap|fshl|fshr)\.i(\d+)', n)
        if mm:
            w = int(mm.group(2)); k = mm.group(1)
            x = bv(a[0], w); y = bv(a[1], w) if len(a) > 1 and not isinstance(a[1], (bool, z3.BoolRef)) else None
            if k == 'umin': r = z3.If(z3.ULT(x, y), x, y)
            elif k == 'umax': r = z3.If(z3.UGT(x, y), x, y)
            elif k == 'smin': r = z3.If(x < y, x, y)
            elif k == 'smax': r = z3.If(x > y, x, y)
            elif k == 'abs': r = z3.If(x < 0, -x, x)
            elif k == 'bswap': r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
            elif k == 'ctlz':
                r = z3.BitVecVal(w, w)
                for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            elif k == 'cttz':
                r = z3.BitVecVal(w, w)
                for i in range(w - 1, -1, -1): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
            elif k == 'ctpop':
                r = sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)][1:], z3.ZeroExt(w - 1, z3.Extract(0, 0, x)))
            else: raise Unsupported(n)
            r = z3.simplify(r)
            return [(st, r.as_long() if z3.is_bv_value(r) else r)]
        mm = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if mm:
            w = int(mm.group(3)); x, y = bv(a[0], w), bv(a[1], w); sg = mm.group(1) == 's'
            if mm.group(2) == 'add': r = x + y; ok = z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y) if sg else True)
            elif mm.group(2) == 'sub': r = x - y; ok = z3.And(z3.BVSubNoOverflow(x, y) if sg else True, z3.BVSubNoUnderflow(x, y, sg))
            else: r = x * y; ok = z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y) if sg else True)
            r = z3.simplify(r); r = r.as_long() if z3.is_bv_value(r) else r
            ok = self.truth(ok)
            return [(st, (r, (not ok) if isinstance(ok, bool) else z3.Not(ok)))]
        if n.startswith('llvm.objectsize'): return [(st, MASK[64])]
        raise Unsupported('intrinsic ' + n)
    # allocation -----------------------------------------------------------
    def fixval(self, st, n):
        """concrete value of a term that can take only one value on this path, else the term"""
        if isinstance(n, int) or n is UNDEF: return n
        n = z3.simplify(n)
        if z3.is_bv_value(n): return n.as_long()
        if not self.feasible(st, z3.BoolVal(True)): return n
        m = self.lastmodel
        if m is None: return n
        v = m.eval(n, model_completion=True)
        if not z3.is_bv_value(v): return n
        if not self.feasible(st, n != v): return v.as_long()
        return n
    def alloc(self, st, n, kind):
        stride = None
        n = self.fixval(st, n)
        o = self.newobj(st, n, kind + '!', kind)
        if not isinstance(n, int):
            # size of the form k*count
            k, cnt = self.factor(n)
            o.stride = (k, cnt)
        return [(st, Ptr(o.id))]
    def factor(self, n):
        if n.decl().kind() == z3.Z3_OP_BMUL and len(n.children()) == 2:
            a, b = n.children()
            if z3.is_bv_value(a): return a.as_long(), b
            if z3.is_bv_value(b): return b.as_long(), a
        if n.decl().kind() == z3.Z3_OP_CONCAT:
            ch = n.children()
            last = ch[-1]
            if z3.is_bv_value(last) and last.as_long() == 0 and last.size() < 32:
                s = last.size(); rest = ch[0] if len(ch) == 2 else z3.Concat(*ch[:-1])
                return 1 << s, z3.simplify(z3.ZeroExt(s, rest))
        if n.decl().kind() == z3.Z3_OP_BADD and len(n.children()) == 2:
            a, b = n.children()
            if z3.is_bv_value(b): a, b = b, a
            if z3.is_bv_value(a):
                k, c = self.factor(b)
                if k > 1 and a.as_long() % k == 0: return k, c + a.as_long() // k
        return 1, n
    def x__Znwm(self, st, a, I): return self.alloc(st, a[0], 'new')
    def x__Znam(self, st, a, I): return self.alloc(st, a[0], 'new[]')
    def x__ZnwmRKSt9nothrow_t(self, st, a, I): return self.alloc(st, a[0], 'new')
    def x__ZnamRKSt9nothrow_t(self, st, a, I): return self.alloc(st, a[0], 'new[]')
    def x_malloc(self, st, a, I): return self.alloc(st, a[0], 'malloc')
    def x_calloc(self, st, a, I):
        if not (isinstance(a[0], int) and isinstance(a[1], int)): raise Unsupported('calloc')
        r = self.alloc(st, a[0] * a[1], 'malloc'); st.mem[r[0][1].obj].default = 'zero'; return r
    def dealloc(self, st, p, kind):
        if isinstance(p, Ptr) and p.obj == 0 : return [(st, None)]
        if p is UNDEF: self.oblige(st, False, 'free of an uninitialised pointer', self.loc); return []
        o = st.mem[p.obj]
        if not o.alive: self.oblige(st, False, 'double free', self.loc); return []
        if p.c != 0 or p.terms or o.kind not in ('new', 'new[]', 'malloc'): self.oblige(st, False, 'free of a non-heap pointer', self.loc); return []
        if o.kind != kind: self.oblige(st, False, 'allocation/deallocation mismatch (%s freed as %s)' % (o.kind, kind), self.loc); return []
        o2 = Obj(o.id, o.size, o.name, o.kind); o2.alive = False
        st.mem[o.id] = o2; st.own.add(o.id)
        return [(st, None)]
    def x__ZdlPv(self, st, a, I): return self.dealloc(st, a[0], 'new')
    def x__ZdlPvm(self, st, a, I): return self.dealloc(st, a[0], 'new')
    def x__ZdaPv(self, st, a, I): return self.dealloc(st, a[0], 'new[]')
    def x__ZdaPvm(self, st, a, I): return self.dealloc(st, a[0], 'new[]')
    def x_free(self, st, a, I): return self.dealloc(st, a[0], 'malloc')
    def x_memcpy(self, st, a, I): self.memcpy(st, a[0], a[1], a[2]); return [(st, a[0])]
    def x_memmove(self, st, a, I): self.memcpy(st, a[0], a[1], a[2]); return [(st, a[0])]
    def x_memset(self, st, a, I): self.memset(st, a[0], a[1], a[2]); return [(st, a[0])]
    def x_strlen(self, st, a, I):
        p = a[0]; n = 0
        while True:
            b = self.load(st, p.add(n), 'i8', self.loc)
            if st.dead: return []
            if not isinstance(b, int):
                c = self.truth(self.need(st, b, 'i8') == 0)
                if not isinstance(c, bool): return self.strlen_fork(st, p)
                b = 0 if c else 1
            if b == 0: return [(st, n)]
            n += 1
    def strlen_fork(self, st, p):
        out = []; n = 0; s = st
        while s is not None:
            b = self.load(s, p.add(n), 'i8', self.loc)
            if s.dead: break
            z, s2 = self.fork2(s, bv(self.need(s, b, 'i8'), 8) == 0) if not isinstance(b, int) else ((s, None) if b == 0 else (None, s))
            if z is not None: out.append((z, n))
            s = s2; n += 1
            if n > 4096: raise Unsupported('strlen')
        return out
    def x_memcmp(self, st, a, I):
        n = a[2]
        if not isinstance(n, int): raise Unsupported('memcmp')
        if n == 0: return [(st, 0)]
        r = z3.BitVecVal(0, 32)
        for i in range(n - 1, -1, -1):
            x = self.need(st, self.load(st, a[0].add(i), 'i8', self.loc), 'i8'); y = self.need(st, self.load(st, a[1].add(i), 'i8', self.loc), 'i8')
            if isinstance(x, int) and isinstance(y, int):
                if x != y: r = z3.BitVecVal((x - y) & MASK[32], 32)
                continue
            x, y = bv(x, 8), bv(y, 8)
            r = z3.If(x == y, r, z3.ZeroExt(24, x) - z3.ZeroExt(24, y))
        r = z3.simplify(r)
        return [(st, r.as_long() if z3.is_bv_value(r) else r)]
    def x___cxa_guard_acquire(self, st, a, I):
        b = self.load(st, a[0], 'i8'); return [(st, 0 if isinstance(b, int) and b == 1 else 1)]
    def x___cxa_guard_release(self, st, a, I):
        self.store(st, a[0], 1, 'i8'); return [(st, None)]
    def x_abs(self, st, a, I):
        v = a[0]
        if isinstance(v, int): return [(st, abs(sgn(v, 32)) & MASK[32])]
        self.oblige(st, v != (1 << 31), 'signed integer overflow', self.loc)
        return [(st, z3.If(v < 0, -v, v))]
    # harness intrinsics -----------------------------------------------------
    def cstr(self, st, p):
        s = b''
        o = st.mem[p.obj]; k = p.c
        while True:
            b = self.getbyte(st, o, k)
            if b == 0: break
            s += bytes([b]); k += 1
        return s.decode()
    def inp(self, st, p, t):
        n = self.cstr(st, p)
        k = 0
        while '%s#%d' % (n, k) in st.inputs: k += 1
        key = '%s#%d' % (n, k)
        if t[0] == 'f': v = self.F.fresh(key, t)
        elif t == 'i1': v = z3.Bool(key)
        else: v = z3.BitVec(key, tybits(t))
        st.inputs[key] = (t, v)
        return v
    def x_vc_u8(self, st, a, I): return [(st, self.inp(st, a[0], 'i8'))]
    def x_vc_u16(self, st, a, I): return [(st, self.inp(st, a[0], 'i16'))]
    def x_vc_u32(self, st, a, I): return [(st, self.inp(st, a[0], 'i32'))]
    def x_vc_u64(self, st, a, I): return [(st, self.inp(st, a[0], 'i64'))]
    def x_vc_bool(self, st, a, I):
        v = self.inp(st, a[0], 'i1'); return [(st, v)]
    def x_vc_f64(self, st, a, I): return [(st, self.inp(st, a[0], 'f64'))]
    def x_vc_f32(self, st, a, I):
        v = self.inp(st, a[0], 'f32')
        if self.fmode == 'fp': st.assume(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        return [(st, v)]
    def x_vc_f32any(self, st, a, I): return [(st, self.inp(st, a[0], 'f32'))]
    def x_vc_f32in(self, st, a, I):
        v = self.inp(st, a[0], 'f32')
        st.assume(self.F.cmp('oge', v, a[1], 'f32')); st.assume(self.F.cmp('ole', v, a[2], 'f32'))
        if self.F.name == 'real' and isc(a[1]) and a[1] >= 0 and not isc(v): self.nonneg.add(v.get_id()); self.keep.append(v)
        return [(st, v)]
    def x_vc_u32in(self, st, a, I):
        v = self.inp(st, a[0], 'i32')
        st.assume(z3.And(z3.UGE(v, bv(a[1], 32)), z3.ULE(v, bv(a[2], 32))))
        return [(st, v)]
    def x_vc_pick(self, st, a, I):
        """small enumeration: forks into concrete values 0..n-1"""
        n = self.cstr(st, a[0]); out = []
        k = 0
        while '%s#%d' % (n, k) in st.inputs: k += 1
        key = '%s#%d' % (n, k)
        v = z3.BitVec(key, 32)
        for i in range(a[1]):
            s = st.fork() if i < a[1] - 1 else st
            s.inputs[key] = ('i32', v); s.pc.append(self.branch(v == i))
            out.append((s, i))
        return out
    def x_vc_assume(self, st, a, I):
        c = self.truth(self.need(st, a[0], 'i1'))
        if c is False: return []
        st.assume(c)
        if c is not True and not self.feas2(st, z3.BoolVal(True)): return []
        return [(st, None)]
    def x_vc_check(self, st, a, I):
        n = self.cstr(st, a[1])
        self.covers.setdefault(n, 0)
        self.covers[n] += 1
        c = a[0]
        self.oblige(st, zb(c) if not isinstance(c, bool) else c, n, self.loc, kind='contract')
        return [] if st.dead else [(st, None)]
    def x_vc_lemma(self, st, a, I):
        n = self.cstr(st, a[1])
        self.oblige(st, a[0], 'lemma ' + n, self.loc, kind='contract')
        return [] if st.dead else [(st, None)]
    def x_vc_by(self, st, a, I):
        """prove a[1] from the already established a[0] alone"""
        n = self.cstr(st, a[2]); h = zb(a[0]); c = zb(a[1]); have = {x.get_id() for x in st.pc} | {z3.simplify(x).get_id() for x in st.pc}
        def conj(x): return [z for y in x.children() for z in conj(y)] if z3.is_and(x) else [x]
        known = set()
        for x in st.pc:
            for y in conj(x) + conj(z3.simplify(x)): known.add(y.get_id()); self.keep.append(y)
        for x in conj(h):
            if x.get_id() in known or z3.simplify(x).get_id() in known: continue
            self.oblige(st, x, 'lemma ' + n + ' (premise)', self.loc, kind='contract')
        cc = z3.simplify(c)
        if not z3.is_true(cc):
            o = Obligation('lemma ' + n, [h], c, dict(st.inputs), self.loc, 'by'); self.obls.append(o); st.assume(c)
        else: self.trivial['lemma ' + n] = self.trivial.get('lemma ' + n, 0) + 1
        return [] if st.dead else [(st, None)]
    def x_vc_name(self, st, a, I):
        """a fresh name for a value (definitional)"""
        if not z3.is_expr(a[0]) or not z3.is_real(a[0]): return [(st, a[0])]
        v = z3.Real(self.fresh_name('name')); st.assume(v == a[0]); return [(st, v)]
    def x_vc_symbolic(self, st, a, I): return [(st, True)]
    def x_vc_and(self, st, a, I): return [(st, self.truth(z3.And(zb(a[0]), zb(a[1]))))]
    def x_vc_or(self, st, a, I): return [(st, self.truth(z3.Or(zb(a[0]), zb(a[1]))))]
    def x_vc_implies(self, st, a, I): return [(st, self.truth(z3.Implies(zb(a[0]), zb(a[1]))))]
    def x_vc_feq(self, st, a, I): return [(st, self.truth(self.F.cmp('oeq', a[0], a[1], 'f32') if not (self.F.conc(a[0]) and self.F.conc(a[1])) else bool(a[0] == a[1])))]
    def x_vc_fle(self, st, a, I): return [(st, self.truth(self.F.cmp('ole', a[0], a[1], 'f32')))]
    def x_vc_feqtol(self, st, a, I): return self.x_vc_feq(st, a, I)
    def x_vc_fletol(self, st, a, I): return self.x_vc_fle(st, a, I)
    def x_vc_nat(self, st, a, I): return [(st, None)]
    def x_vc_note(self, st, a, I):
        self.note(self.cstr(st, a[0])); return [(st, None)]
    def x_vc_split(self, st, a, I):
        c = self.truth(a[0])
        if isinstance(c, bool): return [(st, c)]
        x, y = self.fork2(st, c)
        return [(s, v) for s, v in ((x, True), (y, False)) if s is not None]
    def mkarr(self, st, p, esz):
        o = st.wobj(p.obj)
        if p.c or p.terms: raise Unsupported('pointer array must start at an object')
        if o.arrs is None:
            if any(v is not UNDEF for _, v in o.cells.values()): raise Unsupported('array object already written')
            o.arrs = {}; o.cells = {}; o.esz = esz; o.stride = o.stride if isinstance(o.stride, tuple) else (esz, None)
        o.parr = o.parr or {}
        return o
    def x_vc_protos(self, st, a, I):
        '''vc_protos(arr, n, esz, proto): every element's pointer fields equal those of proto'''
        o = self.mkarr(st, a[0], a[2]); q = st.mem[a[3].obj]
        for off, (t, v) in q.cells.items():
            if t == 'ptr' and a[3].c <= off < a[3].c + a[2]: o.parr[off - a[3].c] = ('const', v)
        return [(st, None)]
    def x_vc_ptrarray(self, st, a, I):
        '''vc_ptrarray(arr, esz, field, base, stride, count): field of each element points to some element of base'''
        if self.invmode is not None and self.invmode != 'decl': return [(st, None)]
        o = self.mkarr(st, a[0], a[1])
        o.parr[a[2]] = ('idx', a[3], a[4], z3.Array(self.fresh_name('parr'), BV64, BV64), a[5])
        return [(st, None)]
    def x_vc_debug(self, st, a, I):
        print('DBG', [str(z3.simplify(x)) if isinstance(x, z3.ExprRef) else x for x in a]); return [(st, None)]
    # ------------------------------------------------------------ loops
    # A contract for loop k of function F is a harness function
    #   extern "C" void vcloop_<mangled F>__<k>(T1 var1, T2 var2, ...)     (k = ordinal of the loop header)
    # whose parameters are named after source variables in scope at the loop head and whose body states
    # the invariant with vc_inv(cond, name) and, optionally, a decreasing measure with vc_variant(n).
    # Rule: invariant holds on entry; everything the body can modify is havocked (the frame is inferred to a
    # fixpoint, so nothing the body writes keeps its entry value); the invariant is assumed; the body is
    # executed once; at every back edge the invariant must hold again and the measure must have decreased.
    def loopspec(self, f, b):
        if 'lspecs' not in f:
            f['lspecs'] = {}
            pre = 'vcloop_' + f['name'] + '__'
            # array construction/destruction loops made by the compiler carry no source variables and are not counted
            hs = [h for h in sorted(f['headers']) if any(I['op'] == 'dbg' for b2 in f['headers'][h]['b'] for I in f['blocks'][b2])] or sorted(f['headers'])
            for n in self.m.funs:
                if n.startswith(pre):
                    k = int(n[len(pre):])
                    if k >= len(hs): raise Unsupported('loop contract %d of %s: the function has only %d loops' % (k, f['name'], len(hs)))
                    f['lspecs'][hs[k]] = n
        return f['lspecs'].get(b)
    def dbgupd(self, f, I, st):
        v = I.get('v')
        if v is None or 'lspecs' not in f or not f['lspecs']: return
        try: x = self.val(st, v)
        except Exception: return
        st.regs['$' + I['name']] = ('decl' if I['decl'] else 'val', x)
    def invrun(self, f, b, st, spec, mode):
        """run the invariant function on state st (mode 'assert' or 'assume'); returns resulting states"""
        for I in f['blocks'][b]:
            if I['op'] == 'dbg': self.dbgupd(f, I, st)
            elif I['op'] != 'phi': break
        g = self.m.funs[spec]; args = []
        for a in g['args']:
            r = st.regs.get('$' + a['nm']) or (st.regs.get('$this') if a['nm'] == 'self' else None)
            if r is None: raise Unsupported('loop contract %s: variable %s not available at the loop head' % (spec, a['nm']))
            k, v = r
            if k == 'decl' and a['t'] != 'ptr': v = self.load(st, v, a['t'], self.loc)
            elif k == 'val' and v is not UNDEF and a['t'] != 'ptr' and isinstance(v, (Ptr, FnPtr)): raise Unsupported('loop contract variable type ' + a['nm'])
            if a['t'] == 'i1' and k == 'val' and not isinstance(v, (bool, z3.BoolRef)): v = (v & 1 == 1) if isinstance(v, int) else z3.Extract(0, 0, v) == 1
            args.append(self.need(st, v, a['t']) if a['t'] != 'ptr' else v)
        sm = self.invmode; self.invmode = mode; regs = st.regs; sc = self.curspec; self.curspec = 'variant ' + spec
        rs = self.run(g, args, st)
        self.invmode = sm; self.curspec = sc
        out = []
        for s, _ in rs:
            if not s.dead: s.regs = dict(regs); out.append(s)
        return out
    def x_vc_inv(self, st, a, I):
        n = self.cstr(st, a[1]); c = a[0]; c = zb(c) if not isinstance(c, bool) else c
        if self.invmode is None: raise Unsupported('vc_inv outside a loop contract')
        if self.invmode == 'decl': return [(st, None)]
        if self.invmode == 'assume':
            st.assume(c); return [] if st.dead else [(st, None)]
        if not self.quiet:
            k = 'loop invariant: ' + n
            self.covers_inv[k] = self.covers_inv.get(k, 0) + 1
        self.oblige(st, c, ('loop invariant (entry): ' if self.invmode == 'entry' else 'loop invariant preserved: ') + n, self.loc, kind='invariant')
        return [] if st.dead else [(st, None)]
    def x_vc_variant(self, st, a, I):
        v = bv(a[0], 64)
        if self.invmode == 'assume': st.ghost = dict(st.ghost); st.ghost[self.curspec] = v
        elif self.invmode == 'keep':
            v0 = st.ghost.get(self.curspec)
            if v0 is not None: self.oblige(st, z3.And(v < v0, v0 >= 0), 'loop terminates: the measure decreases', self.loc, kind='invariant')
        return [] if st.dead else [(st, None)]
    def usesdecl(self, spec):
        return any(I['op'] == 'call' and 'vc_ptrarray' in str(I) for bl in self.m.funs[spec]['blocks'] for I in bl)
    def havoc_cell(self, t, name):
        if t == 'ptr': return UNDEF
        if isinstance(t, list): return UNDEF
        return self.freshval(None, t, name)
    def memdiff(self, base, s, found):
        """cells of objects existing in base that differ in s"""
        ch = False
        for oid, o0 in base.items():
            o1 = s.mem.get(oid)
            if o1 is o0 or o1 is None: continue
            if o0.alive != o1.alive:
                if o0.kind == 'alloca': continue
                raise Unsupported('loop contract: object freed inside the loop')
            for k, v in (o1.parr or {}).items():
                w = (o0.parr or {}).get(k)
                if w is None: raise Unsupported('loop contract: pointer array created inside the loop')
                if v[0] != w[0]: raise Unsupported('loop contract: pointer array kind changed')
                if v[0] == 'idx' and not v[3].eq(w[3]):
                    if (oid, 'parr', k) not in found: found[(oid, 'parr', k)] = None; ch = True
            if o0.arrs is not None or o1.arrs is not None:
                if (o0.arrs is None): key = (oid, 'all')
                else:
                    if all(k in o0.arrs and o0.arrs[k].eq(v) for k, v in o1.arrs.items()): continue
                    if all((k in o0.arrs and o0.arrs[k].eq(v)) or k not in o0.arrs and z3.is_const(v) for k, v in o1.arrs.items()): continue
                    key = (oid, 'all')
                if key not in found: found[key] = o1.esz; ch = True
                continue
            for off, x in o1.cells.items():
                y = o0.cells.get(off)
                if y is x: continue
                if y is not None and y[0] == x[0] and (y[1] is x[1] or (isinstance(x[1], z3.ExprRef) and isinstance(y[1], z3.ExprRef) and x[1].eq(y[1])) or (type(x[1]) == type(y[1]) and not isinstance(x[1], z3.ExprRef) and x[1] == y[1])): continue
                key = (oid, off, str(x[0]))
                if key not in found: found[key] = x[0]; ch = True
            for off, y in o0.cells.items():
                if off not in o1.cells:
                    key = (oid, off, str(y[0]))
                    if key not in found and not any(k[0] == oid and isinstance(k[1], int) and k[1] <= off < k[1] + 8 for k in found): found[key] = y[0]; ch = True
        return ch
    def loop_enter(self, f, b, st, spec, args):
        L = f['headers'][b]; body = set(L['b'])
        self.contracts_loops.add(spec)
        # 0. declarations of pointer arrays (typing of local objects, no assumption)
        if self.usesdecl(spec):
            ss = self.invrun(f, b, st, spec, 'decl')
            if len(ss) != 1: raise Unsupported('loop contract declarations must not branch')
            st = ss[0]
        # 1. entry
        if not self.quiet or True:
            ss = self.invrun(f, b, st.fork(), spec, 'entry')
        if not ss: return []
        base = st
        found = {}; n = 0
        regs0 = dict(st.regs)
        while True:
            n += 1
            if n > 12: raise Unsupported('loop contract: frame does not stabilise')
            s = base.fork(); s.regs = dict(regs0); again = False
            for p in f['phis'][b]:
                t = p['t']
                if t == 'ptr':
                    v0 = s.regs.get(p['id'])
                    if ('ptr', p['id']) in found: s.regs[p['id']] = found[('ptr', p['id'])]
                    continue
                s.regs[p['id']] = self.freshval(s, t, 'loop')
            for key, t in found.items():
                if key[0] == 'ptr': continue
                o = s.wobj(key[0])
                if key[1] == 'parr':
                    w = o.parr[key[2]]; o.parr[key[2]] = ('idx', w[1], w[2], z3.Array(self.fresh_name('parr'), BV64, BV64), w[4]); continue
                if key[1] == 'all':
                    if o.arrs is None:
                        b0 = base.wobj(key[0]); b0.stride = b0.stride if isinstance(b0.stride, tuple) else (t, None); self.toarr(base, b0, Ptr(key[0], 0), 'i8'); again = True; break
                    o.gen = next(self.cnt)
                    o.arrs = {k: z3.Const(self.fresh_name('hav'), v.sort()) for k, v in o.arrs.items()}; o.default = 'undef' if o.kind == 'alloca' else 'any'
                else:
                    sz = tysize(t)
                    for q in self._conflict(o, key[1], sz):
                        if q in o.cells and q != key[1] and (q < key[1] or q + tysize(o.cells[q][0]) > key[1] + sz): raise Unsupported('loop contract: overlapping cells')
                        o.cells.pop(q, None)
                    o.cells[key[1]] = (t, self.havoc_cell(t, 'mem'))
            if again: continue
            mem0 = dict(s.mem); hregs = dict(s.regs)
            starts = self.invrun(f, b, s, spec, 'assume')
            if len(starts) > 1: starts = self.mergestates(starts, f['live'][b] | {p['id'] for p in f['phis'][b]})
            nob = len(self.obls); tr = dict(self.trivial); cv = dict(self.covers); q0 = self.quiet
            exits = []; backs = []
            heads = {id(x): x for x in starts}
            self.quiet = True
            pend = {}
            for x in starts:
                for kind, to, s2 in self.blockbody(f, b, x, args): self.route(b, body, kind, to, s2, pend, exits, backs)
            mg = self.domerge(f)
            while pend:
                k = min(pend); lst = pend.pop(k)
                if mg and len(lst) > 1: lst = self.mergestates(lst, f['live'][k] | {i['id'] for i in f['phis'][k]})
                for x in lst:
                    for kind, to, s2 in self.block(f, k, x, args): self.route(b, body, kind, to, s2, pend, exits, backs)
            ch = False
            for x in backs:
                if self.memdiff(mem0, x, found): ch = True
                for p in f['phis'][b]:
                    if p['t'] == 'ptr':
                        v1 = x.regs.get(p['id']); v0 = hregs.get(p['id'])
                        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj == v1.obj and v0.c == v1.c and v0.terms == v1.terms: continue
                        if ('ptr', p['id']) in found and v0 is not UNDEF and isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj == v1.obj:
                            continue    # symbolic offset into the same object: covered
                        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj == v1.obj and v0.obj:
                            d = v1.add(-v0.c, tuple((-k, y) for k, y in v0.terms))
                            st_ = abs(d.c) if not d.terms else abs(d.terms[0][0])
                            found[('ptr', p['id'])] = Ptr(v0.obj, v0.c, v0.terms + ((st_ or 1, self.freshval(None, 'i64', 'pofs')),)); ch = True
                        elif ('ptr', p['id']) not in found or found[('ptr', p['id'])] is not UNDEF:
                            found[('ptr', p['id'])] = UNDEF; ch = True
            self.quiet = q0
            if not ch: break
            del self.obls[nob:]; self.trivial = tr; self.covers = cv
        for x in backs:
            self.loc = (f['name'], None)
            self.invrun(f, b, x, spec, 'keep')
        return exits
    def route(self, h, body, kind, to, s, pend, exits, backs):
        if kind == 'ret' or to not in body: exits.append((kind, to, s))
        elif to == h: backs.append(s)
        else: pend.setdefault(to, []).append(s)
