"""Models of LLVM/x86 intrinsics and external library functions."""
import math
from fractions import Fraction as Fr
import z3
import sym
from sym import *
from sym import b2f, f2b, b2d, d2b, RNE, F32, f2b
from symexec import (ibin, icmp, fcmp, fbin, select, fneg, RM, trunc_real, fptoi, vmap, mk_li, mk_mask, conc_fop, sgn,
                     round_f32, cround)
from ir import Unsupported, UNDEF

OVERRIDE = {'vf_fmin', 'vf_fmax', 'vf_f2s', 'vf_f2u'}

def fsqrt(c, v):
    if v is UNDEF: return UNDEF
    if c.mode == 'bits': return c.fop('sqrt', v)
    if c.special(v): return conc_fop('sqrt', v)
    return c.rsqrt_sym(c.toR(v))

def ffma(c, a, b, d, w=32):
    if a is UNDEF or b is UNDEF or d is UNDEF: return UNDEF
    if c.mode == 'bits': return c.fop('fma', a, b, d)
    return fbin(c, 'fadd', fbin(c, 'fmul', a, b, w), d, w)

def fabs_(c, v, w=32):
    if v is UNDEF: return UNDEF
    if isinstance(v, int): return v & ((1 << w - 1) - 1)
    if c.mode == 'real': return c.rabs(c.toR(v))
    return norm(bv(v, w) & z3.BitVecVal((1 << w - 1) - 1, w))

FT = None
class _T:
    def __init__(s, k, n): s.k = k; s.n = n; s.e = None
TF = _T('f', 32); TI = _T('i', 32)

def x86min(c, a, b, op):
    """MINPS: a<b ? a : b ; MAXPS: a>b ? a : b (second operand when unordered or equal)"""
    if a is UNDEF or b is UNDEF: return UNDEF
    if c.mode == 'real' and c.itemode != 'fork' or c.mode == 'bits' or True:
        cond = fcmp(c, 'olt' if op == 'min' else 'ogt', a, b, 32)
        return select(c, cond, a, b, TF)

def minnum(c, a, b, op):
    if a is UNDEF or b is UNDEF: return UNDEF
    cond = fcmp(c, 'olt' if op == 'min' else 'ogt', a, b, 32)
    if c.mode == 'bits':
        nb = fcmp(c, 'uno', b, b, 32); cond = bor(cond, nb)
    return select(c, norm(cond), a, b, TF)

def neon_minmax(c, a, b, op):
    """A64 FMIN/FMAX (harness/neon/arm_neon.h): a NaN operand is returned, -0 < +0"""
    if a is UNDEF or b is UNDEF: return UNDEF
    nan = lambda x: nan(x.a) or nan(x.b) if isinstance(x, LI) else isinstance(x, int) and x & 0x7fffffff > 0x7f800000
    if isinstance(a, LI) and nan(a): return mk_li(a.c, neon_minmax(c, a.a, b, op), neon_minmax(c, a.b, b, op))
    if isinstance(b, LI) and nan(b): return mk_li(b.c, neon_minmax(c, a, b.a, op), neon_minmax(c, a, b.b, op))
    cond = fcmp(c, 'olt' if op == 'min' else 'ogt', a, b, 32)
    if c.mode == 'real': return a if nan(a) else b if nan(b) else select(c, cond, a, b, TF)
    lt = fcmp(c, 'olt' if op == 'min' else 'ogt', b, a, 32)
    sa = c.extract(a, 32, 31, 1) if not isinstance(a, int) else a >> 31
    sa = bool(sa) if isinstance(sa, int) else norm(bv(sa, 1) == 1)
    eq = select(c, sa, a, b, TF) if op == 'min' else select(c, sa, b, a, TF)
    r = select(c, cond, a, select(c, lt, b, eq, TF), TF)
    r = select(c, fcmp(c, 'uno', b, b, 32), b, r, TF)
    return select(c, fcmp(c, 'uno', a, a, 32), a, r, TF)

def neon_f2i(c, v, signed):
    """A64 FCVTZS/FCVTZU: toward zero, saturating, NaN -> 0"""
    if v is UNDEF: return UNDEF
    lo, hi = (-1 << 31, (1 << 31) - 1) if signed else (0, M32)
    if isinstance(v, int):
        f = b2f(v)
        return 0 if f != f else (max(lo, min(hi, math.trunc(f))) if not math.isinf(f) else hi if f > 0 else lo) & M32
    if c.mode == 'real':
        r = fptoi(c, v, 32, True, 64)
        return max(lo, min(hi, r - (1 << 64) if r >> 63 else r)) & M32
    f = c.fp(v); L, H = z3.FPVal(float(lo), F32), z3.FPVal(float(hi + 1), F32)
    k = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(32)) if signed else z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(32))
    return norm(z3.If(z3.fpIsNaN(f), z3.BitVecVal(0, 32), z3.If(z3.fpGEQ(f, H), z3.BitVecVal(hi, 32), z3.If(z3.fpLEQ(f, L), z3.BitVecVal(lo, 32), k))))

def frnd(c, kind, v):
    if v is UNDEF: return UNDEF
    if c.mode == 'bits': return c.fop(kind, v)
    if c.special(v): return v
    k = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round'}.get(kind, 'rint')
    return trunc_real(c, c.toR(v), k)

def mask_bits(c, vals, w):
    """movmsk: vector of scalars of width w -> int32"""
    bits = []
    for v in vals:
        b = c.extract(v, w, w - 1, 1)
        if isinstance(b, Mask): b = b.c
        elif isinstance(b, LI): b = norm(bv(b, 1) == 1)
        elif isinstance(b, int): b = bool(b)
        elif isbv(b): b = norm(b == 1)
        bits.append(b)
    if all(isinstance(b, bool) for b in bits): return sum(1 << i for i, b in enumerate(bits) if b)
    r = z3.Concat(*([z3.BitVecVal(0, 32 - len(bits))] + [z3.If(tob(b), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in reversed(bits)]))
    return norm(r)

def cvtt(c, v, w=32):
    """cvttps2dq: out of range -> 0x80000000"""
    if v is UNDEF: return UNDEF
    if c.mode == 'real': return fptoi(c, v, 32, True, 32)
    if isinstance(v, int):
        f = b2f(v)
        if f != f or not -2147483648.0 <= f < 2147483648.0: return 0x80000000
        return math.trunc(f) & M32
    f = c.fp(v)
    inr = z3.And(z3.fpGEQ(f, z3.FPVal(-2147483648.0, F32)), z3.fpLT(f, z3.FPVal(2147483648.0, F32)))
    return norm(z3.If(inr, z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(32)), z3.BitVecVal(0x80000000, 32)))

def cvt_near(c, v):
    if c.mode == 'real':
        r = trunc_real(c, c.toR(v), 'rint'); return fptoi(c, r, 32, True, 32)
    return cvtt(c, c.fop('rint', v))

def elementwise(f):
    return lambda c, a, I: [f(c, *x) for x in zip(*a)] if isinstance(a[0], list) else f(c, *a)

def shv(op):
    def g(c, a, I):
        r = []
        for x, s in zip(a[0], a[1]):
            if isinstance(s, int):
                if s >= 32: r.append(ibin(c, 'ashr', x, 31, 32) if op == 'ashr' else 0)
                else: r.append(ibin(c, op, x, s, 32))
            else:
                s_ = bv(s, 32); x_ = bv(x, 32)
                if op == 'shl': v = x_ << s_
                elif op == 'lshr': v = z3.LShR(x_, s_)
                else: v = x_ >> s_
                r.append(norm(v))
        return r
    return g
def shi(op, w=32):
    def g(c, a, I):
        s = a[1]
        if not isinstance(s, int):
            s_ = bv(s, 32)
            f = {'shl': lambda x: x << s_, 'lshr': lambda x: z3.LShR(x, s_), 'ashr': lambda x: x >> s_}[op]
            return [norm(f(bv(x, 32))) for x in a[0]]
        if s >= w: return [ibin(c, 'ashr', x, w - 1, w) if op == 'ashr' else 0 for x in a[0]]
        return [ibin(c, op, x, s, w) for x in a[0]]
    return g
def shreg(op):
    def g(c, a, I):
        s = c.cat([(a[1][0], 32), (a[1][1], 32)]) if len(a[1]) == 4 else a[1][0]
        if isinstance(s, int):
            if s >= 32: return [ibin(c, 'ashr', x, 31, 32) if op == 'ashr' else 0 for x in a[0]]
            return [ibin(c, op, x, s, 32) for x in a[0]]
        s_ = bv(s, 64); big = z3.UGE(s_, 32); s32 = z3.Extract(31, 0, s_)
        r = []
        for x in a[0]:
            x_ = bv(x, 32)
            if op == 'shl': v = z3.If(big, z3.BitVecVal(0, 32), x_ << s32)
            elif op == 'lshr': v = z3.If(big, z3.BitVecVal(0, 32), z3.LShR(x_, s32))
            else: v = z3.If(big, x_ >> 31, x_ >> s32)
            r.append(norm(v))
        return r
    return g

def dpps(c, a, I):
    x, y, imm = a
    z = c.rc(0) if c.mode == 'real' else 0
    t = [fbin(c, 'fmul', x[i], y[i], 32) if imm >> (4 + i) & 1 else z for i in range(4)]
    s = fbin(c, 'fadd', fbin(c, 'fadd', t[0], t[1], 32), fbin(c, 'fadd', t[2], t[3], 32), 32)
    return [s if imm >> i & 1 else 0 for i in range(4)]

def roundps(c, a, I):
    m = a[-1] & 7
    k = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc'}.get(m, 'rint')
    return [frnd(c, k, v) for v in a[0]]
def roundss(c, a, I):
    k = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc'}.get(a[2] & 7, 'rint')
    return [frnd(c, k, a[1][0])] + a[0][1:]

def blendv(c, a, I):
    f, t, m = a
    r = []
    for x, y, k in zip(f, t, m):
        b = c.extract(k, 32, 31, 1)
        if isinstance(b, Mask): b = b.c
        elif isinstance(b, int): b = bool(b)
        elif isbv(b): b = norm(b == 1)
        elif isinstance(b, LI): b = norm(bv(b, 1) == 1)
        r.append(select(c, b, y, x, TF))
    return r

def ptest(kind):
    def g(c, a, I):
        w = 64 if len(a[0]) == 2 else 32
        r = True
        for x, y in zip(*a):
            if kind == 'z': v = ibin(c, 'and', x, y, w)
            else: v = ibin(c, 'and', ibin(c, 'xor', x, (1 << w) - 1, w), y, w)
            r = band(r, icmp(c, 'eq', v, 0, w))
        if isinstance(r, bool): return int(r)
        return norm(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    return g

CMPP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord']
def cmpps(c, a, I):
    r = []
    for x, y in zip(a[0], a[1]):
        k = fcmp(c, CMPP[a[2] & 7], x, y, 32)
        r.append(mk_mask(k, 32) if c.mode == 'real' or isinstance(k, bool) else z3.If(k, z3.BitVecVal(M32, 32), z3.BitVecVal(0, 32)))
    return r

def reduce_(op, w=None):
    def g(c, a, I):
        t = I.oty[-1].e; v = a[-1]; r = v[0]
        for x in v[1:]:
            if op in ('and', 'or', 'xor', 'add', 'mul'): r = ibin(c, op, r, x, t.n)
            elif op in ('smax', 'smin', 'umax', 'umin'): r = imm(c, op, r, x, t.n)
            else: raise Unsupported('reduce ' + op)
        return r
    return g

def imm(c, op, a, b, w):
    if op in ('umin', 'umax') and (isinstance(a, Mask) or isinstance(b, Mask)):
        A, B = ((x.c if isinstance(x, Mask) else {0: False, (1 << w) - 1: True}.get(x) if isinstance(x, int) else None) for x in (a, b))
        if A is not None and B is not None: return mk_mask(norm((band if op == 'umin' else bor)(A, B)), w)
    p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
    k = icmp(c, p, a, b, w)
    if isinstance(k, bool): return a if k else b
    if lazy(a) or lazy(b): return a if c.branch(k) else b
    return norm(z3.If(k, bv(a, w), bv(b, w)))

def bswap(c, v, w):
    if lazy(v): v = bv(v, w)
    n = w // 8
    parts = [(c.extract(v, w, 8 * (n - 1 - i), 8), 8) for i in range(n)]
    return c.cat(parts)
def bitrev(c, v, w):
    return c.cat([(c.extract(v, w, w - 1 - i, 1), 1) for i in range(w)])
def ctpop(c, v, w):
    if isinstance(v, int): return bin(v).count('1')
    v = bv(v, w)
    s = z3.BitVecVal(0, w)
    for i in range(w): s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return norm(s)
def ctlz(c, v, w):
    if isinstance(v, int): return w - v.bit_length()
    v = bv(v, w); r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return norm(r)
def cttz(c, v, w):
    if isinstance(v, int): return (v & -v).bit_length() - 1 if v else w
    v = bv(v, w); r = z3.BitVecVal(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
    return norm(r)
def funnel(c, a, b, s, w, left):
    s = ibin(c, 'urem', s, w, w) if not isinstance(s, int) else s % w
    if isinstance(s, int):
        if s == 0: return a if left else b
        if not left: s = w - s
        return ibin(c, 'or', ibin(c, 'shl', a, s, w), ibin(c, 'lshr', b, w - s, w), w)
    x = z3.Concat(bv(a, w), bv(b, w)); s2 = z3.ZeroExt(w, bv(s, w))
    return norm(z3.Extract(2 * w - 1, w, x << s2) if left else z3.Extract(w - 1, 0, z3.LShR(x, s2)))

def copysign(c, a, b):
    if c.mode == 'bits':
        return ibin(c, 'or', ibin(c, 'and', a, 0x7fffffff, 32), ibin(c, 'and', b, 0x80000000, 32), 32)
    m = fabs_(c, a)
    if isinstance(b, int):
        return fneg(c, m, 32) if b >> 31 else m
    if isinstance(b, R): neg = c.rcmp('lt', b, c.rc(0))
    else:
        e = c.extract(b, 32, 31, 1)
        neg = e.c if isinstance(e, Mask) else norm(bv(e, 1) == 1)
    return c.ite(norm(neg), c.rneg(c.toR(m)), c.toR(m))

def fpclass(c, v, mask):
    """llvm.is.fpclass in bits mode"""
    if c.mode == 'real':
        if c.special(v):
            if v & 0x7fffff: return bool(mask & 3)
            return bool(mask & (0x4 if v >> 31 else 0x200))
        r = c.toR(v); neg = c.rcmp('lt', r, c.rc(0)); zero = c.rcmp('eq', r, c.rc(0))
        if mask & ~3 == 0: return False
        if (mask & 0x3fc) & ~0x204 == 0: return False
        raise Unsupported('fpclass real')
    f = c.fp(v); r = []
    neg = z3.fpIsNegative(f)
    tests = [(3, z3.fpIsNaN(f)), (4, z3.And(z3.fpIsInf(f), neg)), (8, z3.And(z3.fpIsNormal(f), neg)),
             (16, z3.And(z3.fpIsSubnormal(f), neg)), (32, z3.And(z3.fpIsZero(f), neg)), (64, z3.And(z3.fpIsZero(f), z3.Not(neg))),
             (128, z3.And(z3.fpIsSubnormal(f), z3.Not(neg))), (256, z3.And(z3.fpIsNormal(f), z3.Not(neg))),
             (512, z3.And(z3.fpIsInf(f), z3.Not(neg)))]
    for m, t in tests:
        if mask & m: r.append(t)
    return norm(z3.Or(r)) if r else False

# ------------------------------------------------------------------ libm in real mode
def r_sincos(c, x):
    k = x.const()
    if k == 0: return c.rc(0), c.rc(1)
    if k is not None and c.concrete:
        return c.rc(Fr(math.sin(k))), c.rc(Fr(math.cos(k)))
    neg = lead(x.p) < 0
    y = c.rneg(x) if neg else x
    key = ('sincos', y.p.key(), y.q.key())
    t = c.memo_uf.get(key)
    if t is None:
        h = c.rmul(y, c.rc(Fr(1, 2))); t = c.memo_uf.get(('sincos', h.p.key(), h.q.key()))
        if t is not None:   # double angle of a known pair
            s, co = t
            t = (c.rmul(c.rc(2), c.rmul(s, co)), c.radd(c.rmul(co, co), c.rneg(c.rmul(s, s)))); c.memo_uf[key] = t
    if t is None:
        s = c.newreal('sin', ('uf', 'sin', (y,))); co = c.newreal('cos', ('uf', 'cos', (y,)))
        sv = len(c.syms) - 2; cv_ = sv + 1
        c.rules[sv] = Poly.const(1) - Poly({((cv_, 2),): Fr(1)})
        c.pc.append(c.syms[sv] * c.syms[sv] + c.syms[cv_] * c.syms[cv_] == 1)
        t = (s, co); c.memo_uf[key] = t
    s, co = t
    return (c.rneg(s) if neg else s), co

def set_sincos(c, x, s, co):
    """declare sin(x) = s, cos(x) = co (callers justify it by a trigonometric identity)"""
    if lead(x.p) < 0: x = c.rneg(x); s = c.rneg(s)
    c.memo_uf[('sincos', x.p.key(), x.q.key())] = (s, co)

PYM = {'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'exp': math.exp, 'log': math.log,
       'exp2': lambda x: 2.0 ** x, 'log2': math.log2, 'log10': math.log10, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
       'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'expm1': math.expm1, 'log1p': math.log1p,
       'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'pow': lambda a, b: math.pow(a, b), 'atan2': math.atan2, 'fmod': math.fmod}

def real_libm(c, name, a):
    a = [c.toR(x) for x in a]
    if name == 'sin': return r_sincos(c, a[0])[0]
    if name == 'cos': return r_sincos(c, a[0])[1]
    if name == 'sqrt': return c.rsqrt_sym(a[0])
    if name == 'fabs': return c.rabs(a[0])
    ks = [x.const() for x in a]
    if name == 'fmod': return fbin(c, 'frem', a[0], a[1], 32)
    if name in ('floor', 'ceil', 'trunc', 'round'): return trunc_real(c, a[0], name)
    if name in ('rint', 'nearbyint', 'roundeven'): return trunc_real(c, a[0], 'rint')
    if name == 'tan':
        s, co = r_sincos(c, a[0]); return c.rdiv(s, co)
    if name == 'pow':
        if ks[1] is not None and ks[1].denominator == 1 and 0 <= ks[1] <= 6:
            r = c.rc(1)
            for _ in range(int(ks[1])): r = c.rmul(r, a[0])
            return r
        if ks[1] is not None and ks[1].denominator == 2 and 0 < ks[1] <= 4:      # x^(n+1/2) = x^n sqrt(x)
            r = c.rsqrt_sym(a[0])
            for _ in range(int(ks[1])): r = c.rmul(r, a[0])
            return r
    if all(k is not None for k in ks):
        try: return c.rc(Fr(PYM[name](*[float(k) for k in ks])))
        except (ValueError, ZeroDivisionError, OverflowError): raise SpecialValue('libm domain')
    t = c.uf(name, *a)
    ax = LIBM_AX.get(name)
    if ax and ('ax', name, t.p.key()) not in c.memo_uf:
        c.memo_uf[('ax', name, t.p.key())] = t
        ax(c, t, *a)
    return t

def _ax_acos(c, t, x):
    # 0 <= acos(x) <= pi (3.1415927..), cos(acos(x)) = x
    z = c.zpoly(t.p); c.pc.append(z >= 0); c.pc.append(z <= z3.RealVal('3.14159265358979324'))
    key = ('sincos', t.p.key(), t.q.key())
    one = c.rc(1)
    s = c.rsqrt_sym(c.radd(one, c.rneg(c.rmul(x, x))))
    c.memo_uf[key] = (s, x)
def _ax_asin(c, t, x):
    key = ('sincos', t.p.key(), t.q.key())
    c.memo_uf[key] = (x, c.rsqrt_sym(c.radd(c.rc(1), c.rneg(c.rmul(x, x)))))
def _ax_atan2(c, t, y, x):
    # (sin, cos) of atan2(y, x) = (y, x) / sqrt(x^2 + y^2)
    r2 = c.radd(c.rmul(x, x), c.rmul(y, y))
    if c.branch(c.rcmp('eq', r2, c.rc(0))): return
    r = c.rsqrt_sym(r2)
    c.memo_uf[('sincos', t.p.key(), t.q.key())] = (c.rdiv(y, r), c.rdiv(x, r))
def _ax_pow(c, t, x, y):
    # pow(x,y) > 0 for x > 0
    zx = c.zr(x); z = c.zpoly(t.p)
    c.pc.append(z3.Implies(zx > 0, z > 0))
def _ax_exp(c, t, x): c.pc.append(c.zpoly(t.p) > 0)
LIBM_AX = {'acos': _ax_acos, 'asin': _ax_asin, 'atan2': _ax_atan2, 'pow': _ax_pow, 'exp': _ax_exp, 'exp2': _ax_exp}

LIBM = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2',
        'expm1', 'log', 'log2', 'log10', 'log1p', 'pow', 'fmod', 'cbrt', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint',
        'nearbyint', 'roundeven', 'fabs']

def libm_call(c, name, a, w):
    if any(x is UNDEF for x in a): return UNDEF
    h = c.hooks.get('libm.' + name)
    if h: return h(c, a, w)
    if c.mode == 'real':
        if any(c.special(x) for x in a): raise SpecialValue('libm of inf/nan')
        return real_libm(c, name, a)
    if name == 'sqrt': return c.fop('sqrt', *a)
    if name in RM: return c.fop(name, *a)
    if name == 'fabs': return fabs_(c, a[0], w)
    if w == 32:
        a = [x if isinstance(x, int) else norm(x) for x in a]
        return norm(c.bits_uf(name + 'f', a))
    raise Unsupported('libm f64 ' + name)

def memcmp(c, a, b, n, kind):
    n = c.concretize(n, 64)
    if n == 0: return 0
    av = [c.raw_load(a + i, 1) for i in range(n)] if False else None
    va = load_bytes(c, a, n); vb = load_bytes(c, b, n)
    eq = True; lt = False
    for x, y in zip(va, vb):   # lexicographic
        lt = bor(lt, band(eq, icmp(c, 'ult', x, y, 8)))
        eq = band(eq, icmp(c, 'eq', x, y, 8))
    if isinstance(eq, bool) and isinstance(lt, bool): return 0 if eq else (M32 if lt else 1)
    return norm(z3.If(tob(eq), z3.BitVecVal(0, 32), z3.If(tob(lt), z3.BitVecVal(M32, 32), z3.BitVecVal(1, 32))))

def load_bytes(c, p, n):
    out = []; i = 0
    while i < n:
        m = 4 if n - i >= 4 else 1
        v = c.raw_load(p + i, m)
        if lazy(v): raise Unsupported('memcmp of reals')
        for k in range(m): out.append(c.extract(v, m * 8, 8 * k, 8))
        i += m
    return out

def vec1(f):
    def g(c, a, I):
        return [f(c, *x) for x in zip(*a)] if isinstance(a[0], list) else f(c, *a)
    return g

def call_external(c, nm, a, I, otys):
    n = nm
    if n.startswith('llvm.'):
        return intrinsic(c, n, a, I)
    if n.endswith('f') and n[:-1] in LIBM: return libm_call(c, n[:-1], a, 32)
    if n in LIBM: return libm_call(c, n, a, 64)
    if n == 'fmaf': return ffma(c, *a)
    if n in ('memcpy', 'memmove'): c.memcpy(a[0], a[1], a[2]); return a[0]
    if n == 'memset': c.memset(a[0], c.extract(a[1], 32, 0, 8), a[2]); return a[0]
    if n in ('memcmp', 'bcmp'): return memcmp(c, a[0], a[1], a[2], n)
    if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
        sz = c.concretize(a[0], 64)
        if sz > 1 << 24: raise MemError('huge allocation')
        p = c.alloc(sz, 'heap'); c.objs[p >> sym.OBJ_SHIFT].al = max(16, a[1]) if 'align_val' in n else 16
        return p
    if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvm'):
        if a[0]:
            o, off = c.obj(a[0])
            if off: raise MemError('free of interior pointer')
            o.alive = False
        return None
    if n == '__cxa_atexit': return 0
    if n == 'strlen':
        p = a[0]; i = 0
        while True:
            v = c.raw_load(p + i, 1)
            if c.branch(icmp(c, 'eq', v, 0, 8)): return i
            i += 1
    if n == '__errno_location':
        if c.errno is None: c.errno = c.alloc(4, 'errno'); c.raw_store(c.errno, 0, 4)
        return c.errno
    if n in ('strtoul', 'strtoull', '__isoc23_strtoul', '__isoc23_strtoull'):
        p, end, base = a
        if base != 16: raise Unsupported('strtoul base')
        val = 0; k = 0
        while True:
            ch = c.raw_load(p + k, 1)
            if isinstance(ch, int) and ch == 0: break
            x = bv(ch, 8)
            dig = z3.And(z3.UGE(x, 48), z3.ULE(x, 57)); up = z3.And(z3.UGE(x, 65), z3.ULE(x, 70)); lo = z3.And(z3.UGE(x, 97), z3.ULE(x, 102))
            if c.check(z3.Not(z3.Or(dig, up, lo))) != z3.unsat: raise Unsupported('strtoul of a non-digit')
            d = z3.ZeroExt(56, z3.If(dig, x - 48, z3.If(up, x - 55, x - 87)))
            val = norm(bv(val, 64) * 16 + d); k += 1
            if k > 16: raise Unsupported('strtoul overflow')
        if k == 0: raise Unsupported('strtoul of nothing')
        if end: c.raw_store(end, p + k, 8)
        return val
    if n in ('vf_f2s', 'vf_f2u'): return neon_f2i(c, a[0], n == 'vf_f2s')
    if n in ('vf_fmin', 'vf_fmax'): return neon_minmax(c, a[0], a[1], n[4:])
    if n in ('__assert_fail', 'abort', '__cxa_throw', '__cxa_bad_cast', '_ZSt9terminatev', '__clang_call_terminate') or n.startswith('_ZSt') and 'throw' in n:
        raise PathEnd(n)
    raise Unsupported('external ' + n)

def intrinsic(c, n, a, I):
    p = n.split('.')
    k = p[1]
    if k == 'x86':
        f = X86.get('.'.join(p[2:]))
        if not f: raise Unsupported(n)
        return f(c, a, I)
    ty = I.ty
    w = (ty.e.n if ty.k == 'v' else ty.n) if ty.k in 'ifv' else 0
    if k in ('memcpy', 'memmove'): c.memcpy(a[0], a[1], a[2]); return None
    if k == 'memset': c.memset(a[0], a[1], a[2]); return None
    if k == 'sqrt': return vec1(fsqrt)(c, a, I)
    if k in ('fma', 'fmuladd'): return vec1(ffma)(c, a, I)
    if k == 'fabs': return vec1(lambda c, v: fabs_(c, v, w))(c, a, I)
    if k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven'):
        return vec1(lambda c, v: frnd(c, k, v))(c, a, I)
    if k in ('minnum', 'maxnum', 'minimumnum', 'maximumnum'): return vec1(lambda c, x, y: minnum(c, x, y, k[:3]))(c, a, I)
    if k == 'copysign': return vec1(copysign)(c, a, I)
    if k in ('smax', 'smin', 'umax', 'umin'): return vec1(lambda c, x, y: imm(c, k, x, y, w))(c, a, I)
    if k == 'abs': return (lambda f: [f(x) for x in a[0]] if isinstance(a[0], list) else f(a[0]))(
        lambda x: (lambda s: s)(imm(c, 'smax', x, ibin(c, 'sub', 0, x, w), w)) if not (isinstance(x, int) and x == 1 << w - 1) else x)
    if k == 'ctpop': return vec1(lambda c, x: ctpop(c, x, w))(c, a[:1], I)
    if k == 'ctlz': return vec1(lambda c, x: ctlz(c, x, w))(c, a[:1], I)
    if k == 'cttz': return vec1(lambda c, x: cttz(c, x, w))(c, a[:1], I)
    if k == 'bswap': return vec1(lambda c, x: bswap(c, x, w))(c, a[:1], I)
    if k == 'bitreverse': return vec1(lambda c, x: bitrev(c, x, w))(c, a[:1], I)
    if k in ('fshl', 'fshr'): return vec1(lambda c, x, y, s: funnel(c, x, y, s, w, k == 'fshl'))(c, a, I)
    if k == 'vector' and p[2] == 'reduce': return reduce_(p[3])(c, a, I)
    if k == 'is' and p[2] == 'fpclass':
        return [fpclass(c, x, a[1]) for x in a[0]] if isinstance(a[0], list) else fpclass(c, a[0], a[1])
    if k in LIBM: return vec1(lambda c, *x: libm_call(c, k, list(x), w))(c, a, I)
    if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub'):
        w0 = I.oty[0].n
        if p[2] == 'with':
            x, y = bv(a[0], w0), bv(a[1], w0); op = k[1:]
            e = z3.ZeroExt if k[0] == 'u' else z3.SignExt
            X, Y = e(w0, x), e(w0, y)
            F = {'mul': X * Y, 'add': X + Y, 'sub': X - Y}[op]
            lo = norm(z3.Extract(w0 - 1, 0, F)); ov = norm(e(w0, z3.Extract(w0 - 1, 0, F)) != F)
            return [lo, ov]
        if p[2] == 'sat':
            if k == 'uadd':
                s = ibin(c, 'add', a[0], a[1], w); lt = icmp(c, 'ult', s, a[0], w)
                return norm(z3.If(tob(lt), z3.BitVecVal(-1, w), bv(s, w)))
            if k == 'usub':
                lt = icmp(c, 'ult', a[0], a[1], w)
                return norm(z3.If(tob(lt), z3.BitVecVal(0, w), bv(ibin(c, 'sub', a[0], a[1], w), w)))
    if k in ('expect', 'launder', 'ssa'): return a[0]
    if k in ('trap', 'ubsantrap', 'debugtrap'): raise PathEnd(n)
    if k in ('stacksave',): return 0
    if k in ('stackrestore', 'prefetch', 'donothing', 'invariant', 'sideeffect'): return None
    if k == 'objectsize': return (1 << 64) - 1
    if k == 'fptosi' or k == 'fptoui':
        raise Unsupported(n)
    raise Unsupported(n)

X86 = {
    'sse.min.ps': lambda c, a, I: [x86min(c, x, y, 'min') for x, y in zip(*a)],
    'sse.max.ps': lambda c, a, I: [x86min(c, x, y, 'max') for x, y in zip(*a)],
    'sse.min.ss': lambda c, a, I: [x86min(c, a[0][0], a[1][0], 'min')] + a[0][1:],
    'sse.max.ss': lambda c, a, I: [x86min(c, a[0][0], a[1][0], 'max')] + a[0][1:],
    'sse41.dpps': dpps,
    'sse.movmsk.ps': lambda c, a, I: mask_bits(c, a[0], 32),
    'sse2.movmsk.pd': lambda c, a, I: mask_bits(c, a[0], 64),
    'sse2.pmovmskb.128': lambda c, a, I: mask_bits(c, a[0], 8),
    'sse41.round.ps': roundps, 'sse41.round.ss': roundss,
    'sse41.blendvps': blendv,
    'sse41.ptestz': ptest('z'), 'sse41.ptestc': ptest('c'),
    'sse2.cvttps2dq': lambda c, a, I: [cvtt(c, v) for v in a[0]],
    'sse2.cvtps2dq': lambda c, a, I: [cvt_near(c, v) for v in a[0]],
    'sse.cvttss2si': lambda c, a, I: cvtt(c, a[0][0]),
    'sse.cmp.ps': cmpps,
    'sse2.psrai.d': shi('ashr'), 'sse2.pslli.d': shi('shl'), 'sse2.psrli.d': shi('lshr'),
    'sse2.psra.d': shreg('ashr'), 'sse2.psll.d': shreg('shl'), 'sse2.psrl.d': shreg('lshr'),
    'avx2.psllv.d': shv('shl'), 'avx2.psrlv.d': shv('lshr'), 'avx2.psrav.d': shv('ashr'),
}
