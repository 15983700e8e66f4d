"""linear abstraction of nonlinear real constraints: every nonlinear monomial becomes an opaque variable.
unsat of the abstraction implies unsat of the original."""
import z3
from fractions import Fraction

class PolyAbs:
    def __init__(self):
        self.pc = {}; self.bc = {}; self.mono = {}; self.keep = []; self.n = 0; self.atoms = {}; self.sq = []; self.defs = {}; self.ites = {}; self.dd = {}
    # polynomial = dict: tuple(sorted atom ids) -> Fraction
    def atom(self, e):
        self.atoms[e.get_id()] = e; self.keep.append(e)
        return {(e.get_id(),): Fraction(1)}
    def fresh(self, s=None):
        self.n += 1
        v = z3.Real('pa!%d' % self.n) if s is None else z3.Const('pa!%d' % self.n, s)
        self.keep.append(v); return v
    def poly(self, e):
        k = e.get_id()
        r = self.pc.get(k)
        if r is not None: return r
        self.keep.append(e)
        r = self._poly(e)
        self.pc[k] = r
        return r
    def _poly(self, e):
        dk = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return (({(): f} if f else {}), frozenset())
        if z3.is_int_value(e):
            f = Fraction(e.as_long()); return (({(): f} if f else {}), frozenset())
        if dk == z3.Z3_OP_ADD or dk == z3.Z3_OP_SUB:
            r = {}; d = frozenset()
            for i, c in enumerate(e.children()):
                p, pd = self.poly(c); d |= pd
                s = -1 if (dk == z3.Z3_OP_SUB and i > 0) else 1
                for m, k in p.items():
                    v = r.get(m, 0) + s * k
                    if v: r[m] = v
                    else: r.pop(m, None)
            return r, d
        if dk == z3.Z3_OP_UMINUS:
            p, d = self.poly(e.arg(0)); return {m: -k for m, k in p.items()}, d
        if dk == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}; d = frozenset()
            for c in e.children():
                p, pd = self.poly(c); d |= pd
                r = self.mul(r, p)
            ch = e.children()
            if len(ch) == 2 and ch[0].eq(ch[1]) and len(r) > 1: self.sq.append((r, d))
            return r, d
        if dk == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 < e.arg(1).numerator_as_long() < 8:
            p, d = self.poly(e.arg(0)); r = {(): Fraction(1)}
            for _ in range(e.arg(1).numerator_as_long()): r = self.mul(r, p)
            return r, d
        if dk == z3.Z3_OP_ITE and e.sort() == z3.RealSort():
            v = self.fresh()
            c, cd = self.form(e.arg(0)); a, ad = self.lin(e.arg(1)); b, bd = self.lin(e.arg(2))
            did = v.get_id()
            self.ites[did] = (c, self.poly(e.arg(1))[0], self.poly(e.arg(2))[0])
            self.dd[did] = cd | ad | bd
            self.defs[did] = z3.And(z3.Implies(c, v == a), z3.Implies(z3.Not(c), v == b))
            return self.atom(v), cd | ad | bd | {did}
        if dk == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            d = frozenset(); args = []
            for c in e.children():
                if c.sort() == z3.RealSort(): x, dd = self.lin(c)
                elif c.sort() == z3.BoolSort(): x, dd = self.form(c)
                else: x, dd = c, frozenset()
                args.append(x); d |= dd
            return self.atom(e.decl()(*args)), d
        return self.atom(e), frozenset()
    def mul(self, p, q):
        r = {}
        if len(p) * len(q) > 20000: raise MemoryError('polynomial too large')
        for m, a in p.items():
            for n, b in q.items():
                t = tuple(sorted(m + n)); v = r.get(t, 0) + a * b
                if v: r[t] = v
                else: r.pop(t, None)
        return r
    def var(self, m):
        if len(m) == 1: return self.atoms[m[0]], frozenset()
        v = self.mono.get(m)
        if v is None:
            v = self.fresh(); self.mono[m] = v
            # even powers are non-negative
            ds = []; need = frozenset()
            if all(m.count(x) % 2 == 0 for x in set(m)): ds.append(v >= 0)
            if len(m) == 2 and m[0] == m[1]: ds.append((v == 0) == (self.atoms[m[0]] == 0))
            it = [x for x in m if x in self.ites]
            if it:
                x = it[0]; c, pa, pb = self.ites[x]; rest = list(m); rest.remove(x); rp = {tuple(rest): Fraction(1)}
                la, da = self.tolin(self.mul(rp, pa)); lb, db = self.tolin(self.mul(rp, pb))
                ds += [z3.Implies(c, v == la), z3.Implies(z3.Not(c), v == lb)]
                need = da | db | self.dd[x]
            if ds:
                self.defs[v.get_id()] = z3.And(ds); self.dd[v.get_id()] = need
        if v.get_id() in self.defs: return v, frozenset({v.get_id()}) | self.dd[v.get_id()]
        return v, frozenset()
    def tolin(self, p):
        t = []; d = frozenset(); c = Fraction(0)
        for m, k in p.items():
            if m == (): c = k; continue
            v, dd = self.var(m); d |= dd
            t.append(v if k == 1 else z3.RatVal(k.numerator, k.denominator) * v)
        if c or not t: t.append(z3.RatVal(c.numerator, c.denominator))
        return (t[0] if len(t) == 1 else z3.Sum(t)), d
    def lin(self, e):
        p, d = self.poly(e); l, dd = self.tolin(p); return l, d | dd
    def form(self, e):
        k = e.get_id()
        r = self.bc.get(k)
        if r is not None: return r
        self.keep.append(e)
        r = self._form(e)
        self.bc[k] = r
        return r
    def _form(self, e):
        if z3.is_quantifier(e): return e, frozenset()
        dk = e.decl().kind()
        ch = e.children()
        if ch and ch[0].sort() == z3.RealSort() and dk in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            p, d = self.poly(ch[0]); q, d2 = self.poly(ch[1])
            r = dict(p)
            for m, c in q.items():
                v = r.get(m, 0) - c
                if v: r[m] = v
                else: r.pop(m, None)
            l, d3 = self.tolin(r)
            z = z3.RealVal(0)
            f = {z3.Z3_OP_EQ: lambda: l == z, z3.Z3_OP_LE: lambda: l <= z, z3.Z3_OP_LT: lambda: l < z, z3.Z3_OP_GE: lambda: l >= z, z3.Z3_OP_GT: lambda: l > z, z3.Z3_OP_DISTINCT: lambda: l != z}[dk]()
            return f, d | d2 | d3
        if ch and e.sort() == z3.BoolSort() and all(c.sort() == z3.BoolSort() for c in ch) and dk in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT):
            xs = [self.form(c) for c in ch]
            d = frozenset().union(*[x[1] for x in xs])
            a = [x[0] for x in xs]
            if dk == z3.Z3_OP_AND: return z3.And(a), d
            if dk == z3.Z3_OP_OR: return z3.Or(a), d
            if dk == z3.Z3_OP_NOT: return z3.Not(a[0]), d
            if dk == z3.Z3_OP_IMPLIES: return z3.Implies(a[0], a[1]), d
            if dk == z3.Z3_OP_EQ: return a[0] == a[1], d
            if dk == z3.Z3_OP_ITE: return z3.If(a[0], a[1], a[2]), d
            return z3.Xor(a[0], a[1]), d
        if any(c.sort() == z3.RealSort() for c in ch):
            return self.fresh(z3.BoolSort()), frozenset()
        return e, frozenset()
    def convert(self, cons):
        out = []; need = set()
        for c in cons:
            f, d = self.form(c); out.append(f); need |= d
        return out + [self.defs[i] for i in need if i in self.defs]

def divide(m, t):
    m = list(m)
    for x in t:
        if x in m: m.remove(x)
        else: return None
    return tuple(m)

def topconj(c, out):
    if z3.is_and(c):
        for x in c.children(): topconj(x, out)
    elif z3.is_or(c):
        # conjuncts common to every disjunct
        com = None
        for x in c.children():
            l = []; topconj(x, l); d = {y.get_id(): y for y in l}
            com = d if com is None else {k: v for k, v in com.items() if k in d}
            if not com: break
        out.extend(com.values() if com else [])
        out.append(c)
    else: out.append(c)

def saturate(P, cons, rounds=3, cap=1500, maxdeg=8):
    """consequences  e = 0  =>  e * monomial = 0  for the monomials that occur"""
    eqs = []
    def rec(c, guards, depth):
        if z3.is_and(c):
            for x in c.children(): rec(x, guards, depth)
        elif z3.is_or(c) and depth < 3:
            l = []; topconj(c, l)
            for x in l:
                if not x.eq(c): rec(x, guards, depth + 1)
            ch = c.children()
            for k, x in enumerate(ch):
                if z3.is_eq(x) or z3.is_and(x): rec(x, guards + [y for i, y in enumerate(ch) if i != k], depth + 1)
        elif z3.is_implies(c) and depth < 3: rec(c.arg(1), guards + [z3.Not(c.arg(0))], depth + 1)
        elif z3.is_eq(c) and c.arg(0).sort() == z3.RealSort():
            p, _ = P.poly(c.arg(0)); q, _ = P.poly(c.arg(1)); r = dict(p)
            for m, k in q.items():
                v = r.get(m, 0) - k
                if v: r[m] = v
                else: r.pop(m, None)
            if len(r) <= 40 and any(len(m) >= 1 for m in r): eqs.append((guards, r))
    seenc = set()
    for c in cons:
        if c.get_id() not in seenc:
            seenc.add(c.get_id()); rec(c, [], 0)
    done = set(); out = []; need = set(); seenm = set()
    for _ in range(rounds):
        ms = [m for m in list(P.mono) if m not in seenm]
        if not ms: break
        for m in sorted(ms, key=len):
            seenm.add(m)
            for ei, (gs, e) in enumerate(eqs):
                # leading monomials only: the highest-degree ones of the equation
                d = max(len(t) for t in e)
                for t in e:
                    if len(t) < 1 or (len(t) < d and len(t) < 2): continue
                    q = divide(m, t)
                    if not q or (ei, q) in done: continue
                    if len(q) + d > maxdeg: continue
                    done.add((ei, q))
                    l, dd = P.tolin(P.mul(e, {q: Fraction(1)})); need |= dd
                    f = l == 0
                    for g in gs:
                        gf, gd = P.form(g); need |= gd; f = z3.Or(gf, f)
                    out.append(f)
                    if len(out) >= cap: return out, need
    return out, need

def solve(cons, ms, signs=True, rounds=0):
    P = PolyAbs()
    f = P.convert(cons)
    if rounds:
        x, need = saturate(P, cons, rounds)
        f = f + x + [P.defs[i] for i in need if i in P.defs]
    for r, d in P.sq[:200]:
        l, dd = P.tolin(r); f = f + [l >= 0] + [P.defs[i] for i in dd | d if i in P.defs]
    if signs:
        # sign and monotonicity facts for degree-2 monomials
        ext = []
        for m, v in list(P.mono.items()):
            if len(m) == 2 and m[0] != m[1]:
                a, b = P.atoms[m[0]], P.atoms[m[1]]
            elif len(m) > 2 and m[1:] in P.mono:
                a, b = P.atoms[m[0]], P.mono[m[1:]]
            elif len(m) > 2 and m[:-1] in P.mono:
                a, b = P.atoms[m[-1]], P.mono[m[:-1]]
            else: continue
            ext += [z3.Implies(z3.And(a > 0, b > 0), v > 0), z3.Implies(z3.And(a < 0, b < 0), v > 0), z3.Implies(z3.And(a > 0, b < 0), v < 0), z3.Implies(z3.And(a < 0, b > 0), v < 0), z3.Implies(a == 0, v == 0), z3.Implies(b == 0, v == 0)]
        if len(ext) <= 3000: f = f + ext
    s = z3.Solver(); s.set('timeout', ms)
    s.add(*f)
    return s.check() == z3.unsat
