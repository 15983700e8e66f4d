"""vcgen: deductive VC generator over the LLVM IR of the real /repo sources.

Executes a contract harness function (requires -> call -> ensures, written in C++ against the real
classes) symbolically over ALL inputs; every check (postcondition, bounds, overflow, division, ...)
becomes an obligation  pc |= cond.  Loops are either unrolled to their (concrete) end or cut with
invariants.  No bound is put on inputs.
"""
import json, sys, time, struct, itertools, math
from fractions import Fraction
import z3
sys.setrecursionlimit(20000)
z3.set_param('memory_max_size', 6000)

class Unsupported(Exception): pass

MASK = {w: (1 << w) - 1 for w in range(1, 257)}
FS = {'f32': z3.Float32(), 'f64': z3.Float64()}
RNE = z3.RNE(); RTZ = z3.RTZ(); RTN = z3.RTN(); RTP = z3.RTP(); RNA = z3.RNA()
BV64 = z3.BitVecSort(64)

def tybits(t): return int(t[1:])
def tysize(t):
    if t == 'ptr': return 8
    if t == 'f32': return 4
    if t == 'f64': return 8
    if t == 'f80': return 16
    if isinstance(t, list):
        return t[1]
    return (tybits(t) + 7) // 8

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

# ---------------------------------------------------------------- values
class Ptr:
    """pointer = object id + offset; offset = const + sum(coeff*term64) kept linear."""
    __slots__ = ('obj', 'c', 'terms')
    def __init__(self, obj, c=0, terms=()):
        self.obj = obj; self.c = c; self.terms = terms   # terms: tuple of (coeff, z3 term)
    def add(self, c, terms=()):
        if not terms: return Ptr(self.obj, sgn((self.c + c) & MASK[64], 64), self.terms)
        d = {}
        for k, t in itertools.chain(self.terms, terms):
            i = t.get_id()
            if i in d:
                d[i] = (d[i][0] + k, t)
            else: d[i] = (k, t)
        return Ptr(self.obj, sgn((self.c + c) & MASK[64], 64), tuple(x for x in d.values() if x[0] != 0))
    def off(self):
        if not self.terms: return self.c & MASK[64]
        e = None
        for k, t in self.terms:
            x = t if k == 1 else t * z3.BitVecVal(k & MASK[64], 64)
            e = x if e is None else e + x
        return e if self.c == 0 else e + z3.BitVecVal(self.c & MASK[64], 64)
    def __repr__(self): return 'Ptr(%s,%s%s)' % (self.obj, self.c, ''.join('+%d*%s' % (k, t) for k, t in self.terms))
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'Fn(%s)' % self.name
class PInt:
    """an integer obtained from a pointer (ptrtoint) with low-bit tag arithmetic kept exact"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
NULL = Ptr(0, 0)
class _Undef:
    def __repr__(self): return 'undef'
UNDEF = _Undef()

def isc(v): return isinstance(v, (int, float, Fraction)) and not isinstance(v, z3.ExprRef)
def zb(v): return z3.BoolVal(v) if isinstance(v, bool) else v
def bv(v, w): return z3.BitVecVal(v, w) if isinstance(v, int) else v

# ---------------------------------------------------------------- float modes
import numpy as np
np.seterr(all='ignore')

class FPMode:
    name = 'fp'
    def fromreal(self, x, t): return np.float32(x) if t == 'f32' else np.float64(x)
    def const(self, bits, t):
        return (np.frombuffer(struct.pack('<I', bits), dtype=np.float32)[0] if t == 'f32'
                else np.frombuffer(struct.pack('<Q', bits), dtype=np.float64)[0])
    def conc(self, v): return isinstance(v, (np.floating,))
    def z(self, v, t):
        if self.conc(v):
            b = int(np.array(v).view(np.uint32 if t == 'f32' else np.uint64))
            if np.isnan(v): return z3.fpNaN(FS[t])
            return z3.fpBVToFP(z3.BitVecVal(b, 32 if t == 'f32' else 64), FS[t]) if False else z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, 32 if t == 'f32' else 64), FS[t]))
        return v
    def fresh(self, name, t): return z3.FP(name, FS[t])
    def bin(self, eng, st, op, a, b, t):
        if self.conc(a) and self.conc(b):
            r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b,
                 'fdiv': lambda: np.divide(a, b), 'frem': lambda: np.fmod(a, b)}[op]()
            return r
        a = self.z(a, t); b = self.z(b, t)
        if op == 'fadd': return z3.fpAdd(RNE, a, b)
        if op == 'fsub': return z3.fpSub(RNE, a, b)
        if op == 'fmul': return z3.fpMul(RNE, a, b)
        if op == 'fdiv': return z3.fpDiv(RNE, a, b)
        return eng.uf('frem_' + t, [a, b], FS[t])
    def neg(self, a, t): return -a if self.conc(a) else z3.fpNeg(a)
    def cmp(self, pr, a, b, t):
        if self.conc(a) and self.conc(b):
            un = bool(np.isnan(a) or np.isnan(b))
            base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
            if pr == 'ord': return not un
            if pr == 'uno': return un
            if pr == 'true': return True
            if pr == 'false': return False
            if pr[0] == 'o': return (not un) and bool(base[pr[1:]])
            return un or bool(base[pr[1:]])
        if pr == 'true': return True
        if pr == 'false': return False
        a = self.z(a, t); b = self.z(b, t)
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == 'uno': return z3.fpIsNaN(a) if a.eq(b) else un
        if pr == 'ord': return z3.Not(un)
        f = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pr == 'oeq': return z3.fpEQ(a, b)
        if pr == 'une': return z3.Not(z3.fpEQ(a, b))
        if pr == 'one': return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        if pr == 'ueq': return z3.Or(un, z3.fpEQ(a, b))
        if pr[0] == 'o': return f[pr[1:]](a, b)
        inv = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}
        return z3.Not(f[inv[pr[1:]]](a, b))
    def ite(self, c, a, b, t):
        return z3.If(c, self.z(a, t), self.z(b, t))
    def tofp(self, eng, st, v, w, signed, t):
        if isinstance(v, int):
            x = sgn(v, w) if signed else v
            return np.float32(x) if t == 'f32' else np.float64(x)
        return z3.fpToFP(RNE, v, FS[t]) if signed else z3.fpToFPUnsigned(RNE, v, FS[t])
    def toint(self, eng, st, v, t, w, signed, loc):
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        if self.conc(v):
            if np.isnan(v) or np.isinf(v) or not (lo <= int(v) <= hi):
                eng.oblige(st, False, 'float-to-int conversion in range', loc); return None
            return int(v) & MASK[w]
        # -1 < v < 2^w (trunc in range)
        lof = self.z(np.float64(lo - 1) if t == 'f64' else np.float32(lo - 1), t)
        hif = self.z(np.float64(hi + 1) if t == 'f64' else np.float32(hi + 1), t)
        if t == 'f32' and float(np.float32(lo - 1)) == lo: cl = z3.fpGEQ(v, lof)
        elif t == 'f64' and float(np.float64(lo - 1)) == lo: cl = z3.fpGEQ(v, lof)
        else: cl = z3.fpGT(v, lof)
        eng.oblige(st, z3.And(cl, z3.fpLT(v, hif)), 'float-to-int conversion in range', loc)
        return z3.fpToSBV(RTZ, v, z3.BitVecSort(w)) if signed else z3.fpToUBV(RTZ, v, z3.BitVecSort(w))
    def conv(self, v, t0, t1):
        if self.conc(v): return np.float32(v) if t1 == 'f32' else np.float64(v)
        return z3.fpFPToFP(RNE, v, FS[t1])
    def bits(self, eng, v, t):
        if self.conc(v): return int(np.array(v).view(np.uint32 if t == 'f32' else np.uint64))
        return z3.fpToIEEEBV(v)
    def frombits(self, eng, v, t):
        if isinstance(v, int): return self.const(v, t)
        return z3.fpBVToFP(v, FS[t])
    def fn(self, eng, st, f, a, t, loc):
        x = a[0]
        c = all(self.conc(y) for y in a)
        if f == 'fabs': return np.abs(x) if c else z3.fpAbs(x)
        if f == 'sqrt': return np.sqrt(x) if c else z3.fpSqrt(RNE, x)
        if f in ('floor', 'ceil', 'trunc', 'rint', 'round', 'nearbyint', 'roundeven'):
            if c and f in ('floor', 'ceil', 'trunc', 'rint'): return getattr(np, f)(x)
            rm = {'floor': RTN, 'ceil': RTP, 'trunc': RTZ, 'rint': RNE, 'nearbyint': RNE, 'roundeven': RNE, 'round': RNA}[f]
            return z3.fpRoundToIntegral(rm, self.z(x, t))
        if f in ('fmin', 'minnum'): return z3.fpMin(self.z(a[0], t), self.z(a[1], t)) if not c else min(a)
        if f in ('fmax', 'maxnum'): return z3.fpMax(self.z(a[0], t), self.z(a[1], t)) if not c else max(a)
        if f == 'copysign':
            bb = self.bits(eng, self.z(a[1], t), t); ab = z3.fpToIEEEBV(self.z(a[0], t)); w = 32 if t == 'f32' else 64
            return z3.fpBVToFP(z3.Concat(z3.Extract(w - 1, w - 1, bb), z3.Extract(w - 2, 0, ab)), FS[t])
        if c:
            m = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'atan': math.atan,
                 'atan2': math.atan2, 'acos': math.acos, 'asin': math.asin, 'pow': math.pow, 'fmod': math.fmod, 'exp2': lambda x: 2.0 ** x, 'log2': math.log2}.get(f)
            if m:
                try: r = m(*[float(y) for y in a])
                except (ValueError, OverflowError): r = float('nan')
                return np.float32(r) if t == 'f32' else np.float64(r)
        r = eng.uf(f + '_' + t, [self.z(y, t) for y in a], FS[t])
        one = self.z(np.float32(1) if t == 'f32' else np.float64(1), t)
        if f in ('sin', 'cos'):
            eng.axiom(r, z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(self.z(x, t)), z3.fpIsInf(self.z(x, t)))), z3.And(z3.fpLEQ(r, one), z3.fpGEQ(r, z3.fpNeg(one)))))
        if f in ('exp',):
            eng.axiom(r, z3.Implies(z3.Not(z3.fpIsNaN(self.z(x, t))), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpGEQ(r, self.z(np.float32(0) if t == 'f32' else np.float64(0), t)))))
        eng.note('libm %s is uninterpreted (range axioms only)' % f)
        return r

class FPAMode(FPMode):
    """IEEE-754 values and exact comparisons; results of non-constant + - * / are arbitrary values
    constrained by facts every correctly rounded operation satisfies (signs, NaN/inf rules, magnitude,
    monotonicity in each argument). Anything proved holds bit-for-bit for the machine operation."""
    name = 'fpa'
    def bin(self, eng, st, op, a, b, t):
        if self.conc(a) and self.conc(b): return FPMode.bin(self, eng, st, op, a, b, t)
        if op == 'frem': return FPMode.bin(self, eng, st, op, a, b, t)
        if op == 'fmul':
            if self.conc(a) and a == 1: return b
            if self.conc(b) and b == 1: return a
        if op == 'fdiv' and self.conc(b) and b == 1: return a
        za, zb = z3.simplify(self.z(a, t)), z3.simplify(self.z(b, t))
        if op == 'fadd':  # a+b = a-(-b)
            if za.get_id() > zb.get_id(): za, zb = zb, za
            zb = z3.simplify(z3.fpNeg(zb)); op = 'fsub'
        if op == 'fmul' and za.get_id() > zb.get_id(): za, zb = zb, za
        return eng.memo((op, za.get_id(), zb.get_id()), (za, zb), lambda: self._op(eng, op, za, zb, t))
    def _op(self, eng, op, a, b, t):
        r = z3.FP(eng.fresh_name(op), FS[t])
        I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
        le, lt, ge, gt, eq, ab = z3.fpLEQ, z3.fpLT, z3.fpGEQ, z3.fpGT, z3.fpEQ, z3.fpAbs
        nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
        c = lambda v: self.z(np.float32(v) if t == 'f32' else np.float64(v), t)
        one = c(1.0)
        nn = A(N(nan(a)), N(nan(b)))
        ax = []
        if op == 'fsub':
            ax.append(nan(r) == O(nan(a), nan(b), A(inf(a), inf(b), neg(a) == neg(b))))
            ok = N(nan(r))
            ax += [I(A(ok, lt(a, b)), lt(r, c(0))), I(A(ok, gt(a, b)), gt(r, c(0))), I(A(ok, eq(a, b)), zero(r)), I(A(ok, O(inf(a), inf(b))), inf(r)),
                   I(A(ok, ge(b, c(0))), le(r, a)), I(A(ok, le(b, c(0))), ge(r, a)), I(A(ok, ge(a, c(0))), ge(r, z3.fpNeg(b))), I(A(ok, le(a, c(0))), le(r, z3.fpNeg(b))),
                   I(A(ok, zero(b)), eq(r, a)), I(A(le(ab(a), c(2.0 ** 39)), le(ab(b), c(2.0 ** 39))), le(ab(r), c(2.0 ** 40)))]
        elif op == 'fmul':
            ax.append(nan(r) == O(nan(a), nan(b), A(inf(a), zero(b)), A(inf(b), zero(a))))
            ok = N(nan(r))
            ax += [I(ok, neg(r) == z3.Xor(neg(a), neg(b))), I(A(ok, O(inf(a), inf(b))), inf(r)), I(A(ok, O(zero(a), zero(b))), zero(r)),
                   I(A(ok, le(ab(a), one)), le(ab(r), ab(b))), I(A(ok, le(ab(b), one)), le(ab(r), ab(a))), I(A(ok, ge(ab(a), one)), ge(ab(r), ab(b))), I(A(ok, ge(ab(b), one)), ge(ab(r), ab(a))),
                   I(A(le(ab(a), c(2.0 ** 40)), le(ab(b), c(2.0 ** 40))), le(ab(r), c(2.0 ** 80)))]
        else:
            ax.append(nan(r) == O(nan(a), nan(b), A(inf(a), inf(b)), A(zero(b), zero(a))))
            ok = N(nan(r))
            ax += [I(ok, neg(r) == z3.Xor(neg(a), neg(b))), I(A(ok, O(inf(a), zero(b))), inf(r)), I(A(ok, O(zero(a), inf(b))), zero(r)),
                   I(A(ok, le(ab(b), one)), ge(ab(r), ab(a))), I(A(ok, ge(ab(b), one)), le(ab(r), ab(a))),
                   I(A(ok, le(ab(a), ab(b))), le(ab(r), one)), I(A(ok, ge(ab(a), ab(b))), ge(ab(r), one)),
                   I(A(ok, eq(a, b)), eq(r, one)),
                   I(A(ok, ge(ab(a), one), N(inf(b))), N(zero(r))), I(A(le(ab(a), c(2.0 ** 40)), ge(ab(b), c(2.0 ** -40))), le(ab(r), c(2.0 ** 80))), I(A(eq(a, one), ge(ab(b), c(2.0 ** -40))), le(ab(r), c(2.0 ** 40)))]
        # monotonicity against earlier results of the same operation sharing an argument
        for (x, y, r2) in eng.fpa_terms.setdefault((op, t), []):
            ok2 = A(N(nan(r)), N(nan(r2)))
            def mono(u, v, inc):  # u<=v => r<=r2 when inc
                ax.append(I(A(ok2, inc, le(u, v)), le(r, r2))); ax.append(I(A(ok2, inc, le(v, u)), le(r2, r)))
            def anti(u, v, dec):
                ax.append(I(A(ok2, dec, le(u, v)), le(r2, r))); ax.append(I(A(ok2, dec, le(v, u)), le(r, r2)))
            T = z3.BoolVal(True)
            if op == 'fsub':
                if b.eq(y): mono(a, x, T)
                if a.eq(x): anti(b, y, T)
                # a-b with the mirrored pair
                if a.eq(y) and b.eq(x): ax.append(I(ok2, eq(r, z3.fpNeg(r2))))
            elif op == 'fmul':
                for (p, q) in ((a, b), (b, a)):
                    for (u, v) in ((x, y), (y, x)):
                        if q.eq(v): mono(p, u, ge(q, c(0))); anti(p, u, le(q, c(0)))
            else:
                if b.eq(y): mono(a, x, gt(b, c(0))); anti(a, x, lt(b, c(0)))
        eng.fpa_terms[(op, t)].append((a, b, r))
        for f in ax: eng.axiom(r, f)
        eng.note('floating-point results are constrained only by facts true of every correctly rounded IEEE-754 operation (no exact values needed)')
        return r
    def fn(self, eng, st, f, a, t, loc):
        if f == 'sqrt' and not self.conc(a[0]):
            x = z3.simplify(self.z(a[0], t))
            def mk():
                r = z3.FP(eng.fresh_name('sqrt'), FS[t]); c = lambda v: self.z(np.float32(v) if t == 'f32' else np.float64(v), t)
                I, A = z3.Implies, z3.And
                ok = z3.Not(z3.fpIsNaN(r))
                for g in [z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpLT(x, c(0))), I(ok, z3.fpGEQ(r, c(0))), I(ok, z3.fpIsInf(r) == z3.fpIsInf(x)), I(ok, z3.fpIsZero(r) == z3.fpIsZero(x)),
                          I(A(ok, z3.fpGEQ(x, c(1))), A(z3.fpLEQ(r, x), z3.fpGEQ(r, c(1)))), I(A(ok, z3.fpLEQ(x, c(1))), A(z3.fpGEQ(r, x), z3.fpLEQ(r, c(1))))]: eng.axiom(r, g)
                for (y, r2) in eng.fpa_terms.setdefault(('sqrt', t), []):
                    eng.axiom(r, I(A(ok, z3.Not(z3.fpIsNaN(r2)), z3.fpLEQ(x, y)), z3.fpLEQ(r, r2))); eng.axiom(r, I(A(ok, z3.Not(z3.fpIsNaN(r2)), z3.fpLEQ(y, x)), z3.fpLEQ(r2, r)))
                eng.fpa_terms[('sqrt', t)].append((x, r))
                return r
            return eng.memo(('sqrt', x.get_id()), x, mk)
        return FPMode.fn(self, eng, st, f, a, t, loc)

def R(x): return z3.RealVal(x)
class RealMode:
    """machine floating point treated as mathematical reals (declared assumption)"""
    name = 'real'
    def fromreal(self, x, t): return Fraction(x)
    def const(self, bits, t):
        v = (struct.unpack('<f', struct.pack('<I', bits))[0] if t == 'f32' else struct.unpack('<d', struct.pack('<Q', bits))[0])
        if math.isinf(v) or math.isnan(v): return v
        # decimal literal rounding: interpret the nearest short decimal (0.01f means 1/100)
        return Fraction(repr(np.float32(v)).replace('np.float32(', '').rstrip(')')) if t == 'f32' else Fraction(self._short(v))
    @staticmethod
    def _short(v):
        # f64 constants obtained from float literals keep the exact value unless a short decimal round-trips through f32
        f = np.float32(v)
        if float(f) == v: return repr(f).replace('np.float32(', '').rstrip(')')
        return repr(v)
    def conc(self, v): return isinstance(v, (Fraction, int)) and not isinstance(v, bool)
    def isinf(self, v): return isinstance(v, float)
    def z(self, v, t=None):
        if isinstance(v, Fraction): return z3.RatVal(v.numerator, v.denominator)
        if isinstance(v, float): raise Unsupported('infinite/NaN constant in real arithmetic')
        return v
    def fresh(self, name, t): return z3.Real(name)
    def bin(self, eng, st, op, a, b, t):
        if self.isinf(a) or self.isinf(b):
            if (self.isinf(a) or self.conc(a)) and (self.isinf(b) or self.conc(b)):
                x, y = float(a), float(b)
                r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}.get(op)
                if op == 'fdiv': r = float(np.divide(np.float64(x), np.float64(y)))
                if r is not None: return r if (math.isinf(r) or math.isnan(r)) else Fraction(r)
            raise Unsupported('infinity in real arithmetic')
        if self.conc(a) and self.conc(b):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0: return float('inf') if a > 0 else (float('-inf') if a < 0 else float('nan'))
                return a / b
        if op == 'fmul':
            if self.conc(a) and a == 0: return Fraction(0)
            if self.conc(b) and b == 0: return Fraction(0)
            if self.conc(a) and a == 1: return b
            if self.conc(b) and b == 1: return a
        if op == 'fadd':
            if self.conc(a) and a == 0: return b
            if self.conc(b) and b == 0: return a
        if op == 'fsub' and self.conc(b) and b == 0: return a
        if op == 'fdiv':
            if self.conc(b) and b == 1: return a
            za, zb_ = self.z(a), self.z(b)
            if not self.conc(b):
                eng.domain(st, zb_ != 0, 'division by zero (real)', None)
            elif b == 0: raise Unsupported('division by constant zero')
            if self.conc(b): return za * self.z(1 / Fraction(b))
            zs = z3.simplify(zb_)
            inv = eng.memo(('inv', zs.get_id()), zs, lambda: z3.Real(eng.fresh_name('inv')))
            eng.axiom(inv, z3.Or(zs == 0, inv * zs == 1))
            return inv if (self.conc(a) and a == 1) else za * inv
        a = self.z(a); b = self.z(b)
        if op == 'fadd': return a + b
        if op == 'fsub': return a - b
        if op == 'fmul': return a * b
        if op == 'frem': return eng.uf('frem', [a, b], z3.RealSort())
        raise Unsupported(op)
    def neg(self, a, t): return -a
    def cmp(self, pr, a, b, t):
        if pr in ('true', 'ord'): return True
        if pr in ('false', 'uno'):
            if self.isinf(a) and math.isnan(a): return True
            return False
        p = pr[1:]
        if self.isinf(a) or self.isinf(b):
            if self.isinf(a) and self.isinf(b) or self.conc(a) or self.conc(b):
                x, y = float(a), float(b)
            elif self.isinf(a): x, y = a, 0.0
            else: x, y = 0.0, b
            if math.isnan(x) or math.isnan(y): return pr[0] == 'u'
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if not (self.conc(a) and self.conc(b)):
            a = self.z(a); b = self.z(b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[p]()
    def ite(self, c, a, b, t): return z3.If(c, self.z(a), self.z(b))
    def tofp(self, eng, st, v, w, signed, t):
        if isinstance(v, int): return Fraction(sgn(v, w) if signed else v)
        # keep the link int -> real through an uninterpreted-free definition
        seen = eng.fpa_terms.setdefault('b2i', {})
        if (v.get_id(), signed) not in seen:
            seen[(v.get_id(), signed)] = (v, signed)
            for (o, sg) in list(eng.fpa_terms.get('f2i', {}).values())[-24:]: self.i2link(eng, o, sg, v, signed)
        return z3.ToReal(z3.BV2Int(v, signed))
    def i2link(self, eng, r, sr, o, so):
        # the integer value of a bit-vector is injective and ordered, which the solvers do not see by themselves
        if sr == so and o.size() == r.size() and not r.eq(o):
            a, b = z3.BV2Int(r, sr), z3.BV2Int(o, sr); eng.axiom(r, z3.And((a <= b) == (r <= o if sr else z3.ULE(r, o)), (b <= a) == (o <= r if sr else z3.ULE(o, r))))
    def toint(self, eng, st, v, t, w, signed, loc):
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        if self.isinf(v):
            eng.oblige(st, False, 'float-to-int conversion in range', loc); return None
        if self.conc(v):
            k = int(v)
            if not lo <= k <= hi:
                eng.oblige(st, False, 'float-to-int conversion in range', loc); return None
            return k & MASK[w]
        eng.oblige(st, z3.And(v > lo - 1, v < hi + 1), 'float-to-int conversion in range', loc)
        k = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        r = z3.BitVec(eng.fresh_name('f2i'), w)
        eng.axiom(r, z3.Or(v <= lo - 1, v >= hi + 1, z3.BV2Int(r, signed) == k))
        for (o, sg) in list(eng.fpa_terms.get('b2i', {}).values())[-24:]: self.i2link(eng, r, signed, o, sg)
        for (o, sg) in list(eng.fpa_terms.get('f2i', {}).values())[-8:]: self.i2link(eng, r, signed, o, sg)
        eng.fpa_terms.setdefault('f2i', {})[r.get_id()] = (r, signed)
        return r
    def conv(self, v, t0, t1): return v
    def bits(self, eng, v, t): raise Unsupported('float bits in real mode')
    def frombits(self, eng, v, t):
        if isinstance(v, int): return self.const(v, t)
        raise Unsupported('bits to float in real mode')
    def fn(self, eng, st, f, a, t, loc):
        x = a[0]
        if self.isinf(x): 
            if f == 'fabs': return abs(x)
            raise Unsupported('infinity in libm')
        if f == 'fabs':
            if self.conc(x): return abs(x)
            y = z3.simplify(x)
            if z3.is_mul(y) and z3.is_rational_value(y.arg(0)):  # |k*t| = |k|*|t|
                k = y.arg(0).as_fraction(); t = y.arg(1) if y.num_args() == 2 else z3.Product(*y.children()[1:])
                return (t if t.get_id() in eng.nonneg else z3.If(t >= 0, t, -t)) * z3.Q(abs(k.numerator), k.denominator)
            if y.get_id() in eng.nonneg: return y
            return z3.If(x >= 0, x, -x)
        if f in ('fmin', 'fmax', 'minnum', 'maxnum'):
            y = a[1]
            if self.conc(x) and self.conc(y): return min(x, y) if 'min' in f else max(x, y)
            x, y = self.z(x), self.z(y)
            return z3.If(x < y, x, y) if 'min' in f else z3.If(x > y, x, y)
        if f == 'sqrt':
            if self.conc(x):
                if x < 0:
                    eng.domain(st, False, 'sqrt of a negative number', loc); return Fraction(0)
                r = Fraction(math.isqrt(x.numerator), math.isqrt(x.denominator)) if x.numerator >= 0 else None
                if r is not None and r * r == x: return r
            zx = self.z(x)
            if not self.conc(x): eng.domain(st, zx >= 0, 'sqrt of a negative number', loc)
            zk = z3.simplify(zx, som=True); key = ('sqrt', zk.get_id())
            r = eng.memo(key, zk, lambda: z3.Real(eng.fresh_name('sqrt')))
            eng.axiom(r, z3.And(r >= 0, z3.Or(zx < 0, r * r == zx)))
            return r
        if f == 'floor':
            if self.conc(x): return Fraction(math.floor(x))
            return z3.ToReal(z3.ToInt(x))
        if f == 'ceil':
            if self.conc(x): return Fraction(math.ceil(x))
            return -z3.ToReal(z3.ToInt(-x))
        zx = [z3.simplify(self.z(y), som=True) for y in a]
        if f in ('sin', 'cos'):
            s = eng.uf('sin', zx, z3.RealSort()); c = eng.uf('cos', zx, z3.RealSort())
            if self.conc(x) and x == 0: return Fraction(0 if f == 'sin' else 1)
            ax = z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1); eng.axiom(s, ax); eng.axiom(c, ax); eng.axiom(s, z3.Implies(zx[0] >= 0, z3.And(s <= zx[0], -s <= zx[0])))
            eng.note('sin/cos: only sin^2+cos^2=1 and |sin x| <= x for x >= 0 are assumed')
            return s if f == 'sin' else c
        if f == 'exp':
            if self.conc(x) and x == 0: return Fraction(1)
            r = eng.uf('exp', zx, z3.RealSort())
            eng.axiom(r, z3.And(r > 0, z3.Implies(zx[0] <= 0, r <= 1), z3.Implies(zx[0] >= 0, r >= 1)))
            eng.note('exp: only positivity and exp(0)=1-monotonicity at 0 assumed')
            for (o, ro) in eng.exp_args:
                if not ro.eq(r): eng.axiom(r, z3.And(z3.Implies(o <= zx[0], ro <= r), z3.Implies(zx[0] <= o, r <= ro)))
            eng.exp_args.append((zx[0], r))
            return r
        if f == 'tan':
            s = eng.uf('sin', zx, z3.RealSort()); c = eng.uf('cos', zx, z3.RealSort())
            ax = z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1); eng.axiom(s, ax); eng.axiom(c, ax)
            eng.domain(st, c != 0, 'tan at pi/2', loc)
            zs = z3.simplify(c)
            inv = eng.memo(('inv', zs.get_id()), zs, lambda: z3.Real(eng.fresh_name('inv')))
            eng.axiom(inv, z3.Or(zs == 0, inv * zs == 1))
            return s * inv
        if f == 'atan2':
            r = eng.uf('atan2', zx, z3.RealSort())
            eng.axiom(r, z3.And(r <= R('3.1415927410125732421875'), r >= R('-3.1415927410125732421875')))
            return r
        if f in ('acos',):
            r = eng.uf('acos', zx, z3.RealSort())
            eng.domain(st, z3.And(zx[0] >= -1, zx[0] <= 1), 'acos domain', loc)
            eng.axiom(r, z3.And(r >= 0, r <= R('3.1415927410125732421875')))
            eng.axiom(r, z3.Or(zx[0] < -1, zx[0] > 1, eng.uf('cos', [r], z3.RealSort()) == zx[0]))
            return r
        if f == 'asin':
            r = eng.uf('asin', zx, z3.RealSort())
            eng.domain(st, z3.And(zx[0] >= -1, zx[0] <= 1), 'asin domain', loc)
            eng.axiom(r, z3.Or(zx[0] < -1, zx[0] > 1, eng.uf('sin', [r], z3.RealSort()) == zx[0]))
            return r
        eng.note('libm %s uninterpreted' % f)
        r = eng.uf(f, zx, z3.RealSort())
        if f == 'pow':
            if self.conc(x) and x == 1: return Fraction(1)
            b, p = zx
            eng.axiom(r, z3.And(z3.Implies(b >= 0, r >= 0), z3.Implies(b > 0, r > 0), z3.Implies(z3.And(p > 0, b >= 0, b <= 1), r <= 1), z3.Implies(z3.And(p > 0, b >= 1), r >= 1), z3.Implies(z3.And(p > 0, b == 0), r == 0)))
            for (b2, p2, r2) in eng.fpa_terms.setdefault('pow', []):
                if p2.eq(p) and not r2.eq(r):
                    eng.axiom(r, z3.Implies(z3.And(p > 0, b >= 0, b2 >= 0), z3.And(z3.Implies(b <= b2, r <= r2), z3.Implies(b2 <= b, r2 <= r))))
            eng.fpa_terms['pow'].append((b, p, r))
            eng.note('pow: only sign, the value at 0 and 1 and monotonicity in the base are assumed')
        return r

class UFMode(RealMode):
    """exact comparisons over an ordered carrier; arithmetic uninterpreted (commutativity normalised).
    Sound for every rounding behaviour: whatever holds here holds for IEEE floats without NaN."""
    name = 'uf'
    def const(self, bits, t):
        v = (struct.unpack('<f', struct.pack('<I', bits))[0] if t == 'f32' else struct.unpack('<d', struct.pack('<Q', bits))[0])
        if math.isinf(v) or math.isnan(v): return v
        return Fraction(v)
    def bin(self, eng, st, op, a, b, t):
        if (self.conc(a) or self.isinf(a)) and (self.conc(b) or self.isinf(b)):
            x = np.float32(float(a)) if t == 'f32' else np.float64(float(a)); y = np.float32(float(b)) if t == 'f32' else np.float64(float(b))
            r = float({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: np.divide(x, y), 'frem': lambda: np.fmod(x, y)}[op]())
            return r if math.isinf(r) or math.isnan(r) else Fraction(r)
        for (p, q) in ((a, b), (b, a)):
            if self.conc(p):
                if op == 'fmul' and p == 1: return q
        if op == 'fdiv' and self.conc(b) and b == 1: return a
        if op == 'fadd' and self.conc(b) and b == 0: return a
        if op == 'fadd' and self.conc(a) and a == 0: return b
        if op == 'fsub' and self.conc(b) and b == 0: return a
        za = self._zz(eng, a); zb_ = self._zz(eng, b)
        if op in ('fadd', 'fmul') and za.get_id() > zb_.get_id(): za, zb_ = zb_, za
        return eng.uf(op + '_' + t, [za, zb_], z3.RealSort())
    def _zz(self, eng, v):
        if isinstance(v, float):
            return z3.Real({'inf': 'FP_INF', '-inf': 'FP_NINF', 'nan': 'FP_NAN'}[str(v)])
        return self.z(v)
    def neg(self, a, t): return -a
    def conv(self, v, t0, t1): return v
    def fn(self, eng, st, f, a, t, loc):
        if f in ('fabs', 'fmin', 'fmax', 'minnum', 'maxnum'): return RealMode.fn(self, eng, st, f, a, t, loc)
        r = eng.uf(f + '_' + t, [self._zz(eng, y) for y in a], z3.RealSort())
        if f in ('sqrt', 'exp'): eng.axiom(r, r >= 0)
        return r

# ---------------------------------------------------------------- state
class Obj:
    __slots__ = ('id', 'size', 'name', 'kind', 'alive', 'cells', 'arrs', 'default', 'const', 'stride', 'esz', 'parr', 'gen', 'org')
    def __init__(self, id, size, name, kind, default='undef'):
        self.id = id; self.size = size; self.name = name; self.kind = kind; self.alive = True
        self.cells = {}     # off -> (type, value)
        self.arrs = None    # (field_off, type) -> z3 array (BV64 -> sort)
        self.stride = None
        self.default = default; self.const = False; self.parr = None; self.gen = 0; self.org = id
    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            try: setattr(o, s, getattr(self, s))
            except AttributeError: pass
        o.cells = dict(self.cells)
        o.arrs = dict(self.arrs) if self.arrs is not None else None
        o.parr = dict(self.parr) if self.parr is not None else None
        return o

class State:
    __slots__ = ('regs', 'mem', 'own', 'pc', 'inputs', 'ghost', 'dead', 'depth', 'cover', 'steps')
    def __init__(self):
        self.regs = {}; self.mem = {}; self.own = set(); self.pc = []; self.inputs = {}; self.ghost = {}; self.dead = False
        self.depth = 0; self.cover = ()
    def fork(self):
        s = State.__new__(State)
        s.regs = dict(self.regs); s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.pc = list(self.pc); s.inputs = dict(self.inputs); s.ghost = self.ghost; s.dead = False; s.depth = self.depth; s.cover = self.cover
        return s
    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy(); self.mem[oid] = o; self.own.add(oid)
        return o
    def assume(self, c):
        if c is True: return
        if c is False: self.dead = True; return
        self.pc.append(c)

class Obligation:
    __slots__ = ('name', 'pc', 'cond', 'inputs', 'loc', 'kind', 'status', 'backend', 'time', 'model', 'ghost')
    def __init__(self, name, pc, cond, inputs, loc, kind):
        self.name = name; self.pc = pc; self.cond = cond; self.inputs = inputs; self.loc = loc; self.kind = kind
        self.status = None; self.backend = None; self.time = 0.0; self.model = None

class Fn: pass

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funs = d['funs']; self.globs = d['globs']
        for n, f in self.funs.items():
            f['name'] = n
            if 'blocks' in f:
                f['headers'] = {l['h']: l for l in f['loops']}
    def live(self, f):
        """registers live at block entry"""
        if 'live' in f: return f['live']
        nb = len(f['blocks']); use = [set() for _ in range(nb)]; dfn = [set() for _ in range(nb)]; succ = [set() for _ in range(nb)]
        phiuse = {}
        def ops(x, out):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'r' and isinstance(x[1], int): out.add(x[1]); return
                for y in x: ops(y, out)
        for b, ins in enumerate(f['blocks']):
            for i in ins:
                if i['op'] == 'dbg': continue
                if i['op'] == 'phi':
                    for pb, v in i['in']:
                        s = phiuse.setdefault(pb, set()); ops(v, s)
                    dfn[b].add(i['id']); continue
                u = set()
                for k in ('a', 'c', 'p', 'ix', 'f', 'n'):
                    if k in i: ops(i[k], u)
                use[b] |= (u - dfn[b])
                if 'id' in i: dfn[b].add(i['id'])
                if i['op'] in ('br', 'invoke'):
                    succ[b] |= set(i.get('s', []))
                    if 'uw' in i: succ[b].add(i['uw'])
                if i['op'] == 'switch':
                    succ[b] |= {c[1] for c in i['cs']} | {i['def']}
            succ[b].discard(-1)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                out = set(phiuse.get(b, ()))
                for s in succ[b]: out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        # phi results are already evaluated when a state sits at a block
        for b, ins in enumerate(f['blocks']):
            for i in ins:
                if i['op'] == 'phi':
                    pass
        f['live'] = live
        f['phis'] = [[i for i in ins if i['op'] == 'phi'] for ins in f['blocks']]
        return live

LIBM = {}
for _f in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'atan', 'atan2', 'acos', 'asin', 'pow', 'floor', 'ceil', 'round', 'trunc', 'fabs', 'fmin', 'fmax', 'fmod', 'rint', 'log2', 'exp2', 'nearbyint', 'roundeven', 'copysign', 'tanh', 'cbrt', 'minnum', 'maxnum'):
    LIBM[_f] = (_f, 'f64'); LIBM[_f + 'f'] = (_f, 'f32')
    LIBM['llvm.%s.f32' % _f] = (_f, 'f32'); LIBM['llvm.%s.f64' % _f] = (_f, 'f64')

class Engine:
    def __init__(self, module, fmode='fp', merge=(), domain='check', overflow=True, feas_ms=300, max_steps=3000000, hooks=None, concretize_max=64, verbose=False, uninit='havoc', max_paths=20000, int_checks=True, feas=True, critical='forbid'):
        self.m = module; self.critical = critical
        self.F = {'fp': FPMode, 'fpa': FPAMode, 'real': RealMode, 'uf': UFMode}[fmode]()
        self.fmode = 'fp' if fmode == 'fpa' else fmode; self.fpa_terms = {}
        self.merge = merge
        self.domain_mode = domain; self.overflow = overflow
        self.obls = []; self.trivial = {}; self.covers = {}
        self.notes = set(); self.funcs = set(); self.contracts_used = set()
        self.cnt = itertools.count(1); self.oid = itertools.count(1)
        self.globals = {}; self.memos = {}; self.ufs = {}
        self.solver = z3.Solver(); self.solver.set('timeout', feas_ms); self.sstack = []
        self.feas_cache = {}
        self.hooks = hooks or {}
        self.invmode = None; self.curspec = None; self.quiet = False; self.covers_inv = {}; self.contracts_loops = set()
        self.max_steps = max_steps; self.steps = 0
        self.concretize_max = concretize_max
        self.verbose = verbose
        self.nfeas = 0
        self.keep = []
        self.loc = None
        self.uninit = uninit
        self.fnstack = []
        self.paths = 0; self.max_paths = max_paths
        self.feas_on = feas
        self.prefix_ctors = []; self.nonneg = set()
        self.loopinfo = []; self.axioms = {}; self.exp_args = []; self.brid = set(); self.axseen = {}; self.kids = {}
    # -- misc
    def axiom(self, trig, f):
        """definitional fact about the term trig, available wherever trig occurs"""
        self.keep.append(trig); self.keep.append(f)
        l = self.axioms.setdefault(trig.get_id(), [])
        if not any(x.eq(f) for x in l): l.append(f); self.axseen = {}
    def axioms_for(self, exprs):
        out = []; seen = set(); stack = list(exprs); kids = self.kids; ax = self.axioms
        while stack:
            x = stack.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if i in ax:
                out.extend(ax[i]); stack.extend(ax[i])
            k = kids.get(i)
            if k is None: k = kids[i] = (x, [c for c in x.children()])
            stack.extend(k[1])
        return out
    def branch(self, c):
        self.brid.add(c.get_id()); self.keep.append(c); return c
    def note(self, s): self.notes.add(s)
    def fresh_name(self, p): return '%s!%d' % (p, next(self.cnt))
    def memo(self, key, keep, mk):
        if key not in self.memos:
            self.memos[key] = mk(); self.keep.append(keep)
        return self.memos[key]
    def uf(self, name, args, rs):
        k = (name, tuple(a.sort().name() for a in args), rs.name())
        if k not in self.ufs: self.ufs[k] = z3.Function(name, *([a.sort() for a in args] + [rs]))
        return z3.simplify(self.ufs[k](*[z3.simplify(a) for a in args]))
    def domain(self, st, c, name, loc):
        if self.domain_mode == 'check': self.oblige(st, c, name, loc or self.loc)
        else:
            self.note('real-arithmetic domain side conditions assumed, not proved (%s)' % name)
            st.assume(c)
    def oblige(self, st, cond, name, loc, kind='safety'):
        """record pc => cond ; afterwards cond is assumed on the path"""
        if isinstance(cond, z3.BoolRef):
            s = z3.simplify(cond)
            if z3.is_true(s): cond = True
            elif z3.is_false(s): cond = False
        if cond is True:
            self.trivial[name] = self.trivial.get(name, 0) + 1; return
        o = Obligation(name, list(st.pc), cond, dict(st.inputs), loc if loc else self.loc, kind)
        self.obls.append(o)
        if cond is False: st.dead = True
        else: st.assume(cond)
    def feasible(self, st, extra=None):
        if st.dead: return False
        if not self.feas_on: return True
        pc = st.pc
        i = 0
        ids = [c.get_id() for c in pc]
        while i < len(self.sstack) and i < len(ids) and self.sstack[i] == ids[i]: i += 1
        if i < len(self.sstack):
            self.solver.pop(len(self.sstack) - i); del self.sstack[i:]
        for j in range(i, len(ids)):
            self.solver.push(); self.solver.add(pc[j]); self.sstack.append(ids[j]); self.keep.append(pc[j])
        self.nfeas += 1
        if extra is None: r = self.solver.check()
        else: r = self.solver.check(extra) if z3.is_bool(extra) and False else self._chk(extra)
        return r != z3.unsat
    def _chk(self, extra):
        self.solver.push(); self.solver.add(extra); r = self.solver.check()
        self.lastmodel = self.solver.model() if r == z3.sat else None
        self.solver.pop(); return r
    # -- objects
    def newobj(self, st, size, name, kind, default='undef'):
        o = Obj(next(self.oid), size, name, kind, default)
        st.mem[o.id] = o; st.own.add(o.id)
        return o
    def globptr(self, st, name, off):
        if name in self.m.funs:
            return FnPtr(name)
        if name not in self.globals:
            self.globals[name] = next(self.oid)
        oid = self.globals[name]
        if oid not in st.mem:
            g = self.m.globs.get(name)
            o = Obj(oid, g['size'] if g else 8, '@' + name, 'global', 'zero' if g and 'init' in g else 'ext')
            o.const = bool(g and g['const'])
            st.mem[oid] = o; st.own.add(oid)
            if g and 'init' in g: self.initconst(st, o, 0, g['init'])
        return Ptr(oid, off)
    def initconst(self, st, o, off, c):
        if c[0] == 'z': return
        if c[0] == 'agg':
            t = c[1]
            if t[0] == 'BIG':
                n = len(c[2]); es = t[1] // n
                for i, e in enumerate(c[2]): self.initconst(st, o, off + i * es, e)
                return
            for (eo, et), e in zip(t[2], c[2]): self.initconst(st, o, off + eo, e)
            return
        if c[0] == 'u': return
        v = self.val(st, c)
        t = 'ptr' if c[0] in ('n', 'g') or (c[0] == 'ce' and c[2] == 'ptr') else (c[2] if c[0] == 'ce' else c[1])
        o.cells[off] = (t, v)
    # -- operand evaluation
    def val(self, st, o):
        k = o[0]
        if k == 'r': return st.regs[o[1]]
        if k == 'c':
            t = o[1]
            if t[0] == 'f':
                if t == 'f80': raise Unsupported('f80')
                return self.F.const(int(o[2]), t)
            v = int(o[2])
            return bool(v) if t == 'i1' else v
        if k == 'n': return NULL
        if k == 'g': return self.globptr(st, o[1], o[2])
        if k == 'u': return self.undef(st, o[1])
        if k == 'z': return self.zero(st, o[1])
        if k == 'agg': return tuple(self.val(st, x) for x in o[2])
        if k == 'ce':
            ops = [self.val(st, x) for x in o[3]]
            if o[1] in ('bitcast', 'addrspacecast'): return ops[0]
            if o[1] == 'ptrtoint': return self.ptrtoint(ops[0])
            if o[1] == 'inttoptr': return self.inttoptr(st, ops[0])
            raise Unsupported('constexpr ' + o[1])
        raise Unsupported('operand ' + str(o))
    def undef(self, st, t):
        if isinstance(t, list): return tuple(UNDEF for _ in t[2])
        return UNDEF
    def zero(self, st, t):
        if isinstance(t, list): return tuple(self.zero(st, e) for _, e in t[2])
        if t == 'ptr': return NULL
        if t[0] == 'f': return self.F.const(0, t)
        return False if t == 'i1' else 0
    def freshval(self, st, t, name='h'):
        if isinstance(t, list): return tuple(self.freshval(st, e, name) for _, e in t[2])
        if t == 'ptr': raise Unsupported('use of an undefined pointer (%s)' % name)
        if t[0] == 'f': return self.F.fresh(self.fresh_name(name), t)
        if t == 'i1': return z3.Bool(self.fresh_name(name))
        return z3.BitVec(self.fresh_name(name), tybits(t))
    def need(self, st, v, t):
        """undef used in a computation: any value"""
        if v is UNDEF: return self.freshval(st, t, 'undef')
        return v
    # -- memory
    def chkptr(self, st, p, size, write, loc):
        if isinstance(p, FnPtr): raise Unsupported('load from function pointer')
        if p is UNDEF:
            self.oblige(st, False, 'dereference of an uninitialised pointer', loc); return None
        if not isinstance(p, Ptr): raise Unsupported('deref of non-pointer %r' % (p,))
        if p.obj == 0:
            self.oblige(st, False, 'null pointer dereference', loc); return None
        o = st.mem.get(p.obj)
        if o is None: raise Unsupported('unknown object')
        if not o.alive:
            self.oblige(st, False, 'use of freed memory (%s)' % o.name.split('!')[0], loc); return None
        if write and o.const:
            self.oblige(st, False, 'write to constant memory', loc); return None
        if not p.terms and isinstance(o.size, int):
            if p.c < 0 or p.c + size > o.size:
                if o.default == 'ext': return o
                self.oblige(st, False, 'out-of-bounds %s of %s' % ('write' if write else 'read', o.name.split('!')[0]), loc); return None
            return o
        if size == 0: return o
        off = bv(p.off(), 64); sz = bv(o.size, 64) 
        nm = 'out-of-bounds %s of %s' % ('write' if write else 'read', o.name.split('!')[0])
        lin = self._linbound(st, p, o, size)
        if lin is not None:
            self.oblige(st, lin, nm, loc)
        else:
            self.oblige(st, z3.And(z3.UGE(sz, z3.BitVecVal(size, 64)), z3.ULE(off, sz - z3.BitVecVal(size, 64))), nm, loc)
        if st.dead: return None
        return o
    def _linbound(self, st, p, o, size):
        """single-term offset k*t+c into a constant-size object, or an object of size n*k: exact
        bound on t, no 64-bit multiplication (t is compared as a signed 64-bit value)"""
        if len(p.terms) != 1: return None
        k, t = p.terms[0]
        if k <= 0: return None
        if isinstance(o.size, int):
            lo = -(p.c // k)  # smallest t with k*t+c>=0
            hi = (o.size - size - p.c) // k
            # exact when t ranges over values that cannot wrap: |t| < 2^63/k
            return z3.And(t >= lo, t <= hi)
        n = self.symcount(o)
        if n is not None and n[0] == k and 0 <= p.c and p.c + size <= k:
            return z3.And(t >= 0, z3.ULT(t, n[1]))
        if n is not None and k % n[0] == 0 and 0 <= p.c: return None
        return None
    def symcount(self, o):
        return o.stride if (isinstance(o.stride, tuple)) else None
    def _conflict(self, o, off, size):
        r = []
        for k, (t, v) in o.cells.items():
            if k < off + size and off < k + tysize(t): r.append(k)
        return r
    def tobytes(self, st, v, t):
        n = tysize(t)
        if v is UNDEF: return [UNDEF] * n
        if isinstance(v, (Ptr, FnPtr, PInt)): return [('pb', v, i) for i in range(n)]
        if t[0] == 'f':
            if self.fmode != 'fp' and not isc(v) : return [('fb', v, t, i) for i in range(n)]
            if self.fmode != 'fp':
                x = float(v); b = int(np.array(np.float32(x)).view(np.uint32)) if t == 'f32' else int(np.array(np.float64(x)).view(np.uint64))
                if t == 'f32' and self.fmode == 'real': return [('fb', v, t, i) for i in range(n)]
                v = b
            else: v = self.F.bits(self, v, t)
        if t == 'i1': v = (int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        w = n * 8
        if isinstance(v, int): return [(v >> (8 * i)) & 255 for i in range(n)]
        if v.size() < w: v = z3.ZeroExt(w - v.size(), v)
        return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]
    def frombytes(self, st, bs, t):
        n = tysize(t)
        if all(b is UNDEF for b in bs): return UNDEF
        b0 = bs[0]
        if isinstance(b0, tuple):
            if b0[0] == 'pb' and all(isinstance(b, tuple) and b[0] == 'pb' and b[1] is b0[1] and b[2] == i for i, b in enumerate(bs)) and n == 8: return b0[1]
            if b0[0] == 'fb' and all(isinstance(b, tuple) and b[0] == 'fb' and b[1] is b0[1] and b[3] == i for i, b in enumerate(bs)):
                if t == b0[2]: return b0[1]
        if any(isinstance(b, tuple) for b in bs):
            raise Unsupported('reinterpretation of pointer/real bytes')
        bs = [z3.BitVec(self.fresh_name('undefbyte'), 8) if b is UNDEF else b for b in bs]
        if t == 'ptr':
            if all(isinstance(b, int) for b in bs):
                v = sum(b << (8 * i) for i, b in enumerate(bs))
                return self.inttoptr(st, v)
            raise Unsupported('pointer from symbolic bytes')
        if all(isinstance(b, int) for b in bs):
            v = sum(b << (8 * i) for i, b in enumerate(bs))
            if t[0] == 'f': return self.F.const(v, t)
            if t == 'i1': return bool(v & 1)
            return v & MASK[tybits(t)]
        e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bv(bs[0], 8)
        e = z3.simplify(e)
        if t[0] == 'f': return self.F.frombits(self, e, t)
        if t == 'i1': return z3.Extract(0, 0, e) == 1
        w = tybits(t)
        if w < n * 8: e = z3.Extract(w - 1, 0, e)
        if z3.is_bv_value(e): return e.as_long()
        return e
    def getbyte(self, st, o, off):
        for k in range(off, max(off - 32, -1), -1):
            c = o.cells.get(k)
            if c is not None:
                if k + tysize(c[0]) > off: return self.tobytes(st, c[1], c[0])[off - k]
                break
        if o.default == 'zero': return 0
        if o.default == 'fresh':
            v = z3.BitVec(self.fresh_name(o.name + '@%d' % off), 8)
            st.wobj(o.id).cells[off] = ('i8', v); return v
        return UNDEF
    def load(self, st, p, t, loc=None):
        if isinstance(t, list):
            if t[0] == 'BIG': raise Unsupported('big aggregate load')
            return tuple(self.load(st, p.add(eo), et, loc) for eo, et in t[2])
        n = tysize(t)
        o = self.chkptr(st, p, n, False, loc)
        if o is None: return UNDEF
        if o.arrs is None and not p.terms and t != 'ptr' and isinstance(o.size, z3.ExprRef) and isinstance(o.stride, tuple) and o.stride[0] > 1 and o.default != 'fresh': o = self.toarr(st, o, p, t)
        if o.arrs is not None or p.terms:
            return self.aload(st, o, p, t)
        off = p.c
        c = o.cells.get(off)
        if c is not None:
            if c[0] == t: return c[1]
            if tysize(c[0]) == n:
                if c[1] is UNDEF: return UNDEF
                if t[0] == 'i' and c[0][0] == 'i': pass
                elif t == 'ptr' and isinstance(c[1], (Ptr, FnPtr)): return c[1]
                elif t == 'i64' and isinstance(c[1], (Ptr, FnPtr)): return self.ptrtoint(c[1])
                elif t == 'ptr' and isinstance(c[1], PInt): return c[1].p
                elif t == 'ptr' and c[0] == 'i64': return self.inttoptr(st, c[1])
        elif not self._conflict(o, off, n):
            if o.default == 'zero': return self.zero(st, t)
            if o.default == 'fresh':
                v = self.freshval(st, t, o.name + '@%d' % off)
                st.wobj(o.id).cells[off] = (t, v); return v
            if o.default == 'ext': raise Unsupported('read of external global ' + o.name)
            if self.uninit == 'check':
                self.oblige(st, False, 'read of uninitialised memory (%s)' % o.name.split('!')[0], loc)
            return UNDEF
        bs = []
        for i in range(n): bs.append(self.getbyte(st, st.mem[o.id], off + i))
        return self.frombytes(st, bs, t)
    def store(self, st, p, v, t, loc=None):
        if isinstance(t, list):
            for (eo, et), x in zip(t[2], v): self.store(st, p.add(eo), x, et, loc)
            return
        n = tysize(t)
        o = self.chkptr(st, p, n, True, loc)
        if o is None: return
        if o.arrs is None and not p.terms and t != 'ptr' and not isinstance(v, (Ptr, FnPtr, PInt)) and isinstance(o.size, z3.ExprRef) and isinstance(o.stride, tuple) and o.stride[0] > 1 and o.default != 'fresh' and all(not isinstance(y, (Ptr, FnPtr, PInt)) for _, y in o.cells.values()): o = self.toarr(st, o, p, t)
        if o.arrs is not None or p.terms:
            return self.astore(st, o, p, v, t)
        o = st.wobj(o.id)
        self.cstore(st, o, p.c, v, t)
    def cstore(self, st, o, off, v, t):
        n = tysize(t)
        c = o.cells.get(off)
        if c is not None and tysize(c[0]) == n:
            o.cells[off] = (t, v); return
        cf = self._conflict(o, off, n)
        for k in cf:
            ct, cv = o.cells.pop(k)
            if k >= off and k + tysize(ct) <= off + n: continue
            bs = self.tobytes(st, cv, ct)
            for i, b in enumerate(bs):
                if not (off <= k + i < off + n):
                    if isinstance(b, tuple): raise Unsupported('partial overwrite of pointer/real')
                    o.cells[k + i] = ('i8', b)
        o.cells[off] = (t, v)
    # array-mode objects -------------------------------------------------
    def sort(self, t):
        if t == 'f32' or t == 'f64': return FS[t] if self.fmode == 'fp' else z3.RealSort()
        if t == 'i1': return z3.BitVecSort(8)
        if t == 'ptr': raise Unsupported('symbolically indexed array of pointers')
        return z3.BitVecSort(tybits(t))
    def toarr(self, st, o, p, t):
        """switch object to array mode with the stride of this access"""
        if o.arrs is not None: return o
        o = st.wobj(o.id)
        if isinstance(o.stride, tuple): k = o.stride[0]
        else:
            k = 0
            for c, _ in p.terms: k = math.gcd(k, abs(c))
            if k == 0: k = tysize(t)
        cells = o.cells
        o.arrs = {}; o.stride = (k, None) if not isinstance(o.stride, tuple) else o.stride; o.cells = {}
        o.esz = k
        for off in sorted(cells):
            ct, cv = cells[off]
            if cv is UNDEF: continue
            fo = off % k
            a = self.getarr(st, o, fo, ct)
            o.arrs[(fo, ct)] = z3.Store(a, z3.BitVecVal(off // k, 64), self.tosort(cv, ct))
        return o
    def tosort(self, v, t):
        if t[0] == 'f': return self.F.z(v, t)
        if t == 'i1': return z3.If(zb(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if not isinstance(v, (int, z3.ExprRef)): raise Unsupported('pointer stored in array')
        return bv(v, tybits(t))
    def getarr(self, st, o, fo, t):
        key = (fo, t)
        if key in o.arrs: return o.arrs[key]
        n = tysize(t)
        for (f2, t2) in o.arrs:
            if f2 < fo + n and fo < f2 + tysize(t2):
                raise Unsupported('mixed-type access to array object %s: %s vs %s' % (o.name, (fo, t), (f2, t2)))
        if o.default == 'zero': a = z3.K(BV64, self.tosort(self.zero(st, t), t))
        else: a = z3.Array('%s#%d.%d.%s.%d' % (o.name.split('!')[0], o.org, fo, t, o.gen), BV64, self.sort(t))   # the unknown initial contents: the same in every state
        o.arrs[key] = a
        return a
    def aidx(self, o, p):
        k = o.esz
        c = p.c; q, r = c // k, c % k
        e = None
        for cf, tm in p.terms:
            if cf % k: raise Unsupported('array access with stride %d into stride-%d object %s' % (cf, k, o.name))
            m = cf // k
            x = tm if m == 1 else tm * z3.BitVecVal(m & MASK[64], 64)
            e = x if e is None else e + x
        if e is None: e = z3.BitVecVal(q & MASK[64], 64)
        elif q: e = e + z3.BitVecVal(q & MASK[64], 64)
        return z3.simplify(e), r
    def aload(self, st, o, p, t):
        if o.arrs is None:
            if isinstance(o.size, int) and o.size <= 4096 and (t == 'ptr' or len(self.offs(st, p, o, tysize(t))) <= 256 or not self.uniform(o, t)):
                return self.cellload(st, o, p, t)
            o = self.toarr(st, o, p, t)
        idx, r = self.aidx(o, p)
        if t == 'ptr':
            x = (o.parr or {}).get(r)
            if x is None: raise Unsupported('symbolically indexed array of pointers (%s)' % o.name)
            if x[0] == 'const': return x[1]
            base, stride, arr, cnt = x[1:]
            j = z3.simplify(z3.Select(arr, idx))
            st.assume(z3.ULT(j, bv(cnt, 64)))
            return base.add(0, ((stride, j),))
        o = st.wobj(o.id)
        a = self.getarr(st, o, r, t)
        v = z3.Select(a, idx)
        if t == 'i1': return v != 0
        return v
    def uniform(self, o, t):
        return all(ct == t or cv is UNDEF for ct, cv in o.cells.values())
    def offs(self, st, p, o, n):
        """possible concrete offsets of a symbolic pointer inside a small object"""
        k = 0
        for c, _ in p.terms: k = math.gcd(k, abs(c))
        r = p.c % k
        return [x for x in range(r, o.size - n + 1, k)]
    def cellload(self, st, o, p, t):
        n = tysize(t)
        cand = self.offs(st, p, o, n)
        if t == 'ptr' or len(cand) > 600: return self.conc_fork_needed(st, p)
        if any(o2 < x + n and x < o2 + tysize(ct) and cv is not UNDEF and (o2 != x or (ct != t and tysize(ct) != n)) for x in cand for o2, (ct, cv) in o.cells.items()) : return self.conc_fork_needed(st, p)
        off = bv(p.off(), 64)
        r = None
        for x in cand:
            v = self.load(st, Ptr(p.obj, x), t)
            if v is UNDEF: v = self.freshval(st, t, 'undef')
            if isinstance(v, (Ptr, FnPtr)): return self.conc_fork_needed(st, p)
            r = v if r is None else self.ite(off == x, v, r, t)
        return r
    def conc_fork_needed(self, st, p): raise NeedFork(p)
    def astore(self, st, o, p, v, t):
        if o.arrs is None:
            if isinstance(o.size, int) and o.size <= 4096 and (t == 'ptr' or len(self.offs(st, p, o, tysize(t))) <= 256 or not self.uniform(o, t)):
                n = tysize(t); cand = self.offs(st, p, o, n)
                if t == 'ptr' or len(cand) > 256: raise NeedFork(p)
                off = bv(p.off(), 64)
                for x in cand:
                    old = self.load(st, Ptr(p.obj, x), t)
                    if old is UNDEF: old = self.freshval(st, t, 'undef')
                    nv = v if v is not UNDEF else self.freshval(st, t, 'undef')
                    self.cstore(st, st.wobj(o.id), x, self.ite(off == x, nv, old, t), t)
                return
            o = self.toarr(st, o, p, t)
        idx, r = self.aidx(o, p)
        o = st.wobj(o.id)
        if t == 'ptr':
            x = (o.parr or {}).get(r)
            if x is not None and x[0] == 'const' and isinstance(v, Ptr) and isinstance(x[1], Ptr) and (v.obj, v.c, v.terms) == (x[1].obj, x[1].c, x[1].terms): return
            if x is not None and x[0] == 'idx' and isinstance(v, Ptr) and v.obj == x[1].obj:
                base, stride, arr, cnt = x[1:]
                d = v.add(-base.c, tuple((-k, y) for k, y in base.terms))
                if d.c % stride == 0 and all(k % stride == 0 for k, _ in d.terms):
                    e = z3.BitVecVal((d.c // stride) & MASK[64], 64)
                    for k, y in d.terms: e = e + (y if k == stride else y * z3.BitVecVal((k // stride) & MASK[64], 64))
                    e = z3.simplify(e); self.oblige(st, z3.ULT(e, bv(cnt, 64)), 'pointer stored in a pointer array stays inside its target', self.loc)
                    o.parr[r] = ('idx', base, stride, z3.Store(arr, idx, e), cnt); return
            raise Unsupported('store to a symbolically indexed array of pointers (%s)' % o.name)
        a = self.getarr(st, o, r, t)
        if v is UNDEF: v = self.freshval(st, t, 'undef')
        o.arrs[(r, t)] = z3.Store(a, idx, self.tosort(v, t))
    def ite(self, c, a, b, t):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(t, list): return tuple(self.ite(c, x, y, et) for x, y, (_, et) in zip(a, b, t[2]))
        if a is UNDEF and b is UNDEF: return UNDEF
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, (Ptr, FnPtr, PInt)) or isinstance(b, (Ptr, FnPtr, PInt)):
            if isinstance(a, PInt) or isinstance(b, PInt):
                if isinstance(a, PInt) and isinstance(b, PInt): 
                    r = self.ite(c, a.p, b.p, 'ptr'); return PInt(r)
                raise CantMerge()
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.c == b.c and a.terms == b.terms: return a
                g = 0
                for x in (a, b):
                    g = math.gcd(g, abs(x.c))
                    for k, _ in x.terms: g = math.gcd(g, abs(k))
                if g > 1:
                    def scaled(x):
                        e = z3.BitVecVal((x.c // g) & MASK[64], 64)
                        for k, y in x.terms: e = e + (y if k == g else y * z3.BitVecVal((k // g) & MASK[64], 64))
                        return z3.simplify(e)
                    return Ptr(a.obj, 0, ((g, z3.If(c, scaled(a), scaled(b))),))
                return Ptr(a.obj, 0, ((1, z3.If(c, bv(a.off(), 64), bv(b.off(), 64))),))
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name: return a
            raise CantMerge()
        if isc(a) and isc(b) and type(a) == type(b) and a == b: return a
        if t[0] == 'f':
            if isinstance(a, float) or isinstance(b, float):
                if self.fmode != 'fp':
                    raise CantMerge()
            r = self.F.ite(c, a, b, t)
            return r
        if t == 'i1':
            if isinstance(a, bool) and isinstance(b, bool):
                return c if a else z3.Not(c)
            return z3.If(c, zb(a), zb(b))
        w = tybits(t)
        return z3.If(c, bv(a, w), bv(b, w))
    # -- integer/pointer
    def ptrtoint(self, p):
        if isinstance(p, Ptr) and p.obj == 0:
            return p.off()
        return PInt(p)
    def inttoptr(self, st, v):
        if isinstance(v, PInt): return v.p
        if isinstance(v, int): return Ptr(0, v)
        if v is UNDEF: return UNDEF
        raise Unsupported('inttoptr of a symbolic integer')
    def truth(self, c):
        if isinstance(c, z3.ExprRef):
            s = z3.simplify(c)
            if z3.is_true(s): return True
            if z3.is_false(s): return False
            return s
        return bool(c)

class NeedFork(Exception):
    def __init__(self, p): self.p = p
class CantMerge(Exception): pass
