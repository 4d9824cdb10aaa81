"""Instruction semantics for sym.Ctx."""
import math, time
from fractions import Fraction as Fr
import z3
import sym
from sym import *
from sym import b2f, f2b, b2d, d2b, _libm, RNE, F32
from ir import Unsupported, UNDEF, FC, gep_off

RM = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'nearbyint': z3.RNE(), 'roundeven': z3.RNE(),
      'round': z3.RNA()}

def _r32(x):
    if x != x: return 0x7fc00000
    return f2b(x)

def cround(op, x):
    if x != x or math.isinf(x): return x
    if op == 'floor': r = math.floor(x)
    elif op == 'ceil': r = math.ceil(x)
    elif op == 'trunc': r = math.trunc(x)
    elif op == 'round': r = math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)
    else: r = round(x)
    return math.copysign(float(r), x) if r == 0 else float(r)

def conc_fop(op, *a):
    f = [b2f(x) for x in a]
    try:
        if op == 'fadd': return _r32(f[0] + f[1])
        if op == 'fsub': return _r32(f[0] - f[1])
        if op == 'fmul': return _r32(f[0] * f[1])
        if op == 'fdiv':
            if f[1] == 0:
                if f[0] == 0 or f[0] != f[0]: return 0x7fc00000
                return 0x7f800000 | ((a[0] ^ a[1]) & 0x80000000)
            return _r32(f[0] / f[1])
        if op == 'fma': return _r32(_libm.fmaf(*f))
        if op == 'sqrt':
            if f[0] < 0: return 0xffc00000
            return _r32(math.sqrt(f[0]))
        if op in RM: return _r32(cround(op, f[0]))
        if op == 'frem': 
            return _r32(math.fmod(f[0], f[1]))
    except (ValueError, OverflowError):
        return 0x7fc00000
    raise Unsupported('conc ' + op)

def conc_fcmp(p, a, b):
    un = a != a or b != b
    if p == 'true': return True
    if p == 'false': return False
    if p == 'ord': return not un
    if p == 'uno': return un
    if un: return p[0] == 'u'
    return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]]

def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x

IBIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b,
        'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': lambda a, b: z3.LShR(a, b),
        'ashr': lambda a, b: a >> b, 'udiv': lambda a, b: z3.UDiv(a, b), 'sdiv': lambda a, b: a / b,
        'urem': lambda a, b: z3.URem(a, b), 'srem': lambda a, b: z3.SRem(a, b)}

def conc_ibin(op, a, b, w):
    m = (1 << w) - 1
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & m if b < w else 0
    if op == 'lshr': return a >> b if b < w else 0
    if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
    if op == 'udiv': return a // b
    if op == 'urem': return a % b
    sa, sb = sgn(a, w), sgn(b, w)
    q = abs(sa) // abs(sb)
    if (sa < 0) != (sb < 0): q = -q
    if op == 'sdiv': return q & m
    if op == 'srem': return (sa - q * sb) & m
    raise Unsupported(op)

def ibin(c, op, a, b, w):
    if w == 1:
        if a is UNDEF or b is UNDEF: return UNDEF
        if op == 'and': return band(a, b)
        if op == 'or': return bor(a, b)
        if op in ('xor', 'add', 'sub'): return norm(bxor(a, b))
        raise Unsupported('i1 ' + op)
    if a is UNDEF or b is UNDEF:
        if op == 'and' and any(isinstance(x, int) and x == 0 for x in (a, b)): return 0
        return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        if op in ('udiv', 'sdiv', 'urem', 'srem') and b == 0: raise PathEnd('integer division by zero')
        return conc_ibin(op, a, b, w)
    if lazy(a) or lazy(b): return lazybin(c, op, a, b, w)
    if op == 'and':
        if any(isinstance(x, int) and x == 0 for x in (a, b)): return 0
    if op == 'ashr' and c.mode == 'real' and isbv(a):
        t = asmask(a, w)
        if t is not None: return mk_mask(t, w)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        z = norm(bv(b, w) == 0)
        if z is True or (z is not False and c.branch(z)): raise PathEnd('integer division by zero')
    if op == 'mul' and w > 32:
        for x, y in ((a, b), (b, a)):
            if isbv(x) and x.decl().kind() == z3.Z3_OP_CONCAT:
                lo = x.arg(x.num_args() - 1)
                if z3.is_bv_value(lo) and lo.as_long() == 0:
                    k = lo.size(); n = w - k      # (X << k) * Y == ((X * Y) mod 2^n) << k
                    r = ibin(c, 'mul', c.extract(x, w, k, n), c.extract(y, w, 0, n), n)
                    return c.cat([(0, k), (r, n)])
    return norm(IBIN[op](bv(a, w), bv(b, w)))

def asmask(x, w):
    """condition c when the bit vector x is structurally c ? all ones : 0, else None"""
    if z3.is_bv_value(x): return {0: False, (1 << w) - 1: True}.get(x.as_long())
    k = x.decl().kind(); n = x.num_args()
    if k == z3.Z3_OP_ITE:
        a, b = asmask(x.arg(1), w), asmask(x.arg(2), w)
        if a is None or b is None: return None
        if a is True and b is False: return x.arg(0)
        return bor(band(x.arg(0), a), band(bnot(x.arg(0)), b))
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT):
        cs = [asmask(x.arg(i), w) for i in range(n)]
        if any(t is None for t in cs): return None
        if k == z3.Z3_OP_BNOT: return bnot(cs[0])
        r = cs[0]
        for t in cs[1:]: r = {z3.Z3_OP_BAND: band, z3.Z3_OP_BOR: bor, z3.Z3_OP_BXOR: bxor}[k](r, t)
        return r
    if k == z3.Z3_OP_BASHR: return asmask(x.arg(0), w)
    return None

def neg_li(c): return isinstance(c, LI)

def lazybin(c, op, a, b, w):
    m = (1 << w) - 1
    # partwise on concatenations
    if isinstance(a, Cat) or isinstance(b, Cat):
        if op in ('and', 'or', 'xor'):
            cuts = {0, w}
            for v in (a, b):
                if isinstance(v, Cat):
                    p = 0
                    for _, pw in v.parts: p += pw; cuts.add(p)
            cuts = sorted(cuts)
            return c.cat([(ibin(c, op, c.extract(a, w, lo, hi - lo), c.extract(b, w, lo, hi - lo), hi - lo), hi - lo)
                          for lo, hi in zip(cuts, cuts[1:])])
        if op in ('shl', 'lshr') and isinstance(b, int):
            if op == 'lshr': return c.cat([(c.extract(a, w, b, w - b), w - b), (0, b)]) if b else a
            return c.cat([(0, b), (c.extract(a, w, 0, w - b), w - b)]) if b else a
        if op == 'mul' and w == 64:     # zext(x) * (2^32 + 1) duplicates a 32-bit word
            for x, k in ((a, b), (b, a)):
                if k == 0x100000001 and isinstance(x, Cat):
                    hi = c.extract(x, w, 32, 32)
                    if isinstance(hi, int) and hi == 0:
                        lo = c.extract(x, w, 0, 32); return c.cat([(lo, 32), (lo, 32)])
        return norm(IBIN[op](bv(a, w), bv(b, w)))
    if op in ('and', 'or', 'xor', 'mul', 'add') and isinstance(a, int): a, b = b, a
    if isinstance(a, FB) and isinstance(b, int): return fb_op(c, op, a, b)
    if isinstance(a, FB) or isinstance(b, FB): raise Unsupported('operation on float bit fields')
    # R with constants
    if isinstance(a, R) and a.const() is not None and real_bits(a.const()) is not None:
        return ibin(c, op, real_bits(a.const()), b, w)
    if isinstance(b, R) and b.const() is not None and real_bits(b.const()) is not None:
        return ibin(c, op, a, real_bits(b.const()), w)
    if isinstance(a, R) and isinstance(b, int):
        if op == 'xor' and b == 0x80000000: return c.rneg(a)
        if op == 'xor' and b == 0: return a
        if op == 'and':
            if b == 0x7fffffff: return c.rabs(a)
            if b == M32: return a
            if b == 0: return 0
            if b == 0x80000000: return mk_li(c.rcmp('lt', a, c.rc(0)), 0x80000000, 0)
            return fieldop(c, op, a, b)
        if op == 'or':
            if b == 0: return a
            if b == 0x80000000: return c.rneg(c.rabs(a))
            return fieldop(c, op, a, b)
        if op == 'lshr' and b == 31:
            return norm(bv(mk_li(c.rcmp('lt', a, c.rc(0)), 1, 0), w))
        if op == 'ashr' and b == 31: return mk_mask(c.rcmp('lt', a, c.rc(0)), w)
        if op == 'lshr' and b == 0: return a
        return fieldop(c, op, a, b)
    # masks
    if isinstance(a, Mask) and isinstance(b, Mask) and op in ('and', 'or', 'xor'):
        return mk_mask({'and': band, 'or': bor, 'xor': bxor}[op](a.c, b.c), w)
    if isinstance(b, Mask) and not isinstance(a, Mask) and op in ('and', 'or', 'xor'): a, b = b, a
    if isinstance(a, Mask):
        if isinstance(b, int):
            if op == 'xor' and b == m: return mk_mask(bnot(a.c), w)
            if op == 'and': return mk_li(a.c, b, 0, w)
            if op == 'or': return mk_li(a.c, m, b, w)
            if op == 'ashr': return a
        elif op == 'and': return mk_li(a.c, b, 0, w)
        elif op == 'or': return mk_li(a.c, m, b, w)
        if isbv(b) or isinstance(b, int):
            return norm(IBIN[op](bv(a, w), bv(b, w)))
        a = mk_li(a.c, m, 0, w)
        if not lazy(a): return ibin(c, op, a, b, w)
        if isinstance(a, LI): return lidist(c, op, a, b, w)
    if isinstance(b, Mask):
        b = LI(b.c, m, 0, w)
    if isinstance(a, LI) or isinstance(b, LI): return lidist(c, op, a, b, w)
    if isinstance(a, R) and isinstance(b, R):
        return fieldop2(c, op, a, b)
    if op in ('and', 'or', 'xor') and (isbv(a) or isbv(b)):
        x, y = (a, b) if isbv(a) else (b, a)
        t = asmask(x, w)
        if t is not None: return ibin(c, op, mk_mask(t, w), y, w)
        # bit pattern that can only be a mask (all ones or zero, sign bit or zero)
        for k in (m, 1 << w - 1):
            if c.check(z3.And(x != 0, x != k)) == z3.unsat:
                t = x != 0
                return ibin(c, op, mk_mask(t, w) if k == m else mk_li(t, k, 0, w), y, w)
    raise Unsupported(f'lazy {op} {type(a).__name__} {type(b).__name__} {b if isinstance(b,int) else ""}')

def mk_mask(cnd, w):
    cnd = norm(cnd)
    if cnd is True: return (1 << w) - 1
    if cnd is False: return 0
    return Mask(cnd, w)

def mk_li(cnd, a, b, w=32):
    cnd = norm(cnd)
    if cnd is True: return a
    if cnd is False: return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
        if a == (1 << w) - 1 and b == 0: return Mask(cnd, w)
    if isinstance(a, R) and isinstance(b, R) and a.p == b.p and a.q == b.q: return a
    return LI(cnd, a, b, w)

def ceq(a, b): return isb(a) and isb(b) and a.eq(b)
def cneg(a, b): return isb(a) and isb(b) and (bnot(a).eq(b) or bnot(b).eq(a))

def li_restrict(v, cnd, val):
    """simplify v under cnd==val"""
    if isinstance(v, LI):
        if ceq(v.c, cnd): return li_restrict(v.a if val else v.b, cnd, val)
        if cneg(v.c, cnd): return li_restrict(v.b if val else v.a, cnd, val)
    if isinstance(v, Mask):
        if ceq(v.c, cnd): return (1 << v.w) - 1 if val else 0
        if cneg(v.c, cnd): return 0 if val else (1 << v.w) - 1
    return v

def lidist(c, op, a, b, w):
    cnd = a.c if isinstance(a, LI) else b.c
    k = c.lookup(cnd)
    if k is None and c.opts.get('lifork'): k = c.branch(cnd)
    xs = []
    for val in (True, False):
        if k is not None and k != val: xs.append(None); continue
        ra, rb = li_restrict(a, cnd, val), li_restrict(b, cnd, val)
        try: xs.append(ibin(c, op, ra, rb, w))
        except Unsupported: xs.append(None)
    if k is not None: 
        r = xs[0] if k else xs[1]
        if r is None: raise Unsupported('lidist')
        return r
    if xs[0] is None or xs[1] is None:
        # undecidable leaf: fork
        v = c.branch(cnd)
        r = xs[0] if v else xs[1]
        if r is None: return ibin(c, op, li_restrict(a, cnd, v), li_restrict(b, cnd, v), w)
        return r
    return mk_li(cnd, xs[0], xs[1], w)

def binade(c, r):
    """determine sign/exponent of real r on this path by forking: returns (neg, e) with 2^e <= |r| < 2^(e+1), or None for 0"""
    zero = c.rc(0)
    if c.branch(c.rcmp('eq', r, zero)): return None
    neg = c.branch(c.rcmp('lt', r, zero))
    a = c.rneg(r) if neg else r
    lo, hi = c.opts.get('binade', (-126, 127))
    k = a.const()
    if k is not None:
        e = (k.numerator.bit_length() - k.denominator.bit_length())
        while Fr(2) ** e > k: e -= 1
        while Fr(2) ** (e + 1) <= k: e += 1
        return neg, max(e, -126)
    if (lo > -126 and c.branch(c.rcmp('lt', a, c.rc(Fr(2) ** lo)))) or (hi < 127 and c.branch(c.rcmp('le', c.rc(Fr(2) ** (hi + 1)), a))):
        raise Unsupported('value outside the stated binades')
    # binary search over exponents with forking
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if c.branch(c.rcmp('le', c.rc(Fr(2) ** mid), a)): lo = mid
        else: hi = mid - 1
    return neg, lo

def fieldop(c, op, a, k):
    """bit-field operation on the bits of a real: the binade is made concrete by forking"""
    be = binade(c, a)
    if be is None: return ibin(c, op, 0, k, 32)
    neg, e = be
    absr = c.rneg(a) if neg else a
    m = c.rmul(absr, c.rc(Fr(2) ** (-e)))      # in [1,2)
    top = ((1 if neg else 0) << 8 | (e + 127))  # 9 bits
    if op in ('lshr', 'ashr'):
        if k == 23:
            return top if op == 'lshr' or not neg else (top | ~0x1ff) & M32
        raise Unsupported('fieldop shift')
    # partition: keep mantissa bits untouched?
    mant_mask = 0x7fffff
    if op in ('add', 'sub') and (k & mant_mask) == 0:
        nt = (top + (k >> 23)) & 0x1ff if op == 'add' else (top - (k >> 23)) & 0x1ff
    elif op == 'and' and (k & mant_mask) == mant_mask: nt = top & (k >> 23)
    elif op in ('or', 'xor') and (k & mant_mask) == 0: nt = (top | (k >> 23)) if op == 'or' else top ^ (k >> 23)
    elif op == 'and' and (k & mant_mask) == 0: return (top & (k >> 23)) << 23
    else: raise Unsupported(f'fieldop {op} {k:#x}')
    return fb_make(c, op, m, top, nt)

def fb_make(c, op, m, top, nt):
    if nt & 0xff in (0, 255) or op in ('add', 'sub'): return FB(m, nt)
    return fb_real(c, FB(m, nt))

def fb_real(c, x):
    ne = x.top & 0xff
    if ne == 255: raise SpecialValue('exponent overflow in bit manipulation')
    v = c.rmul(c.radd(x.m, c.rc(-1)), c.rc(Fr(2) ** -126)) if ne == 0 else c.rmul(x.m, c.rc(Fr(2) ** (ne - 127)))
    return c.rneg(v) if x.top & 0x100 else v

def fb_op(c, op, x, k):
    if op in ('add', 'sub') and (k & 0x7fffff) == 0:
        nt = (x.top + (k >> 23) if op == 'add' else x.top - (k >> 23)) & 0x1ff
        return FB(x.m, nt)
    if op == 'lshr' and k == 23: return x.top
    if op == 'and' and (k & 0x7fffff) == 0: return (x.top & (k >> 23)) << 23
    raise Unsupported('operation on float bit fields: ' + op)

def fieldop2(c, op, a, b):
    raise Unsupported('bit op on two reals ' + op)

def toi(v, w):
    """bool -> int scalar when needed"""
    return v

def icmp(c, p, a, b, w):
    if a is UNDEF or b is UNDEF: raise Unsupported('icmp undef')
    if w == 1:
        if p == 'eq': return norm(bnot(bxor(a, b)))
        if p == 'ne': return norm(bxor(a, b))
        raise Unsupported('icmp i1 ' + p)
    if isinstance(a, int) and isinstance(b, int):
        if p[0] == 's': a, b = sgn(a, w), sgn(b, w); p = p
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p if p in ('eq', 'ne') else p[1:]]
    if lazy(a) or lazy(b):
        if isinstance(a, int) and not isinstance(b, int):
            return icmp(c, {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'uge': 'ule', 'ult': 'ugt', 'ule': 'uge', 'sgt': 'slt',
                            'sge': 'sle', 'slt': 'sgt', 'sle': 'sge'}[p], b, a, w)
        if isinstance(a, Mask) and isinstance(b, int):
            t = icmp(c, p, (1 << w) - 1, b, w); f = icmp(c, p, 0, b, w)
            return t if t == f else (a.c if t else bnot(a.c))
        if isinstance(a, LI):
            t = icmp(c, p, a.a, b, w); f = icmp(c, p, a.b, b, w)
            if isinstance(t, bool) and isinstance(f, bool): return t if t == f else (a.c if t else bnot(a.c))
            return norm(z3.If(a.c, tob(t), tob(f)))
        if isinstance(b, LI):
            return norm(z3.If(b.c, tob(icmp(c, p, a, b.a, w)), tob(icmp(c, p, a, b.b, w))))
        if isinstance(a, R) and isinstance(b, int):
            ka = a.const()
            if ka is not None and real_bits(ka) is not None: return icmp(c, p, real_bits(ka), b, w)
            if p == 'slt' and b == 0: return c.rcmp('lt', a, c.rc(0))
            if p == 'sgt' and b == M32: return bnot(c.rcmp('lt', a, c.rc(0)))
            if (b >> 23) & 0xff != 0xff:
                # comparison of same-sign bit patterns is monotone in the value
                if p in ('eq', 'ne'):
                    r = c.rcmp('eq', a, c.rc(Fr(b2f(b)))); return r if p == 'eq' else bnot(r)
                if b < 0x80000000 and p in ('sgt', 'sge', 'slt', 'sle'):
                    kb = c.rc(Fr(b2f(b)))
                    return {'sgt': lambda: c.rcmp('lt', kb, a), 'sge': lambda: c.rcmp('le', kb, a),
                            'slt': lambda: c.rcmp('lt', a, kb), 'sle': lambda: c.rcmp('le', a, kb)}[p]()
            if (b & 0x7fffffff) == 0x7f800000 and p in ('eq', 'ne'): return p == 'ne'
        if isinstance(a, R) and isinstance(b, R) and p in ('eq', 'ne'):
            r = c.rcmp('eq', a, b); return r if p == 'eq' else bnot(r)
        if isinstance(a, Mask) and isinstance(b, Mask) and p in ('eq', 'ne'):
            r = bxor(a.c, b.c); return norm(r if p == 'ne' else bnot(r))
        if (isinstance(a, Cat) or isinstance(b, Cat)) and p in ('eq', 'ne'):
            cuts = {0, w}
            for v in (a, b):
                if isinstance(v, Cat):
                    q = 0
                    for _, pw in v.parts: q += pw; cuts.add(q)
            cuts = sorted(cuts); r = True
            for lo, hi in zip(cuts, cuts[1:]):
                r = band(r, icmp(c, 'eq', c.extract(a, w, lo, hi - lo), c.extract(b, w, lo, hi - lo), hi - lo))
            return r if p == 'eq' else bnot(r)
        if isinstance(a, Cat) and isinstance(b, int) and p in ('ult', 'uge', 'ugt', 'ule'):
            k = b if p in ('ult', 'uge') else b + 1
            if k and k & (k - 1) == 0 and k >> w == 0:       # x < 2^n: the bits from n up are zero
                n = k.bit_length() - 1
                r = icmp(c, 'eq', c.extract(a, w, n, w - n), 0, w - n)
                return r if p in ('ult', 'ule') else bnot(r)
        if isinstance(a, Mask): a = bv(a, w)
        if isinstance(b, Mask): b = bv(b, w)
        if lazy(a) or lazy(b): 
            a = bv(a, w); b = bv(b, w)
    a, b = bv(a, w), bv(b, w)
    r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
         'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
         'slt': lambda: a < b, 'sle': lambda: a <= b}[p]()
    return norm(r)

def fcmp(c, p, a, b, w):
    if a is UNDEF or b is UNDEF: return UNDEF
    if c.mode == 'bits':
        if w != 32: raise Unsupported('fcmp f64 bits')
        return norm(c.fcmp_bits(p, a, b)) if not isinstance(a, bool) else None
    if p in ('true', 'false'): return p == 'true'
    for x, y, flip in ((a, b, False), (b, a, True)):
        if c.special(x):
            if (x & 0x7fffff): return p[0] == 'u'            # NaN operand
            if c.special(y): return conc_fcmp(p, b2f(a), b2f(b))
            big = 1.0 if not x >> 31 else -1.0                 # inf vs finite
            return conc_fcmp(p, 0.0 if flip else big, big if flip else 0.0)
    if p == 'ord': return True
    if p == 'uno': return False
    a, b = c.toR(a), c.toR(b); k = p[1:]
    if k == 'eq': return c.rcmp('eq', a, b)
    if k == 'ne': return bnot(c.rcmp('eq', a, b))
    if k == 'lt': return c.rcmp('lt', a, b)
    if k == 'le': return c.rcmp('le', a, b)
    if k == 'gt': return c.rcmp('lt', b, a)
    return c.rcmp('le', b, a)

def select(c, cnd, a, b, ty):
    if cnd is UNDEF: raise Unsupported('select undef')
    if isinstance(cnd, bool): return a if cnd else b
    if isinstance(a, list):
        return [select(c, cnd, x, y, ty.e if ty.k in 'va' else ty.fields[i]) for i, (x, y) in enumerate(zip(a, b))]
    if a is UNDEF: return b
    if b is UNDEF: return a
    k = c.lookup(cnd)
    if k is not None: return a if k else b
    if ty.k == 'i' and ty.n == 1:
        return norm(z3.If(cnd, tob(a), tob(b)))
    if ty.k == 'p':
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        return a if c.branch(cnd) else b
    w = ty.n
    if c.mode == 'real' and (ty.k == 'f' or lazy(a) or lazy(b)):
        if ty.k == 'f' and not isinstance(a, (Mask, Cat)) and not isinstance(b, (Mask, Cat)) and \
                not c.special(a) and not c.special(b):
            if isinstance(a, R) or isinstance(b, R) or ty.k == 'f':
                try: return c.ite(cnd, c.toR(a), c.toR(b))
                except Unsupported: pass
        if c.special(a) or c.special(b): return a if c.branch(cnd) else b
        return mk_li(cnd, a, b, w)
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    return norm(z3.If(cnd, bv(a, w), bv(b, w)))

def vmap(f, *vs):
    if isinstance(vs[0], list): return [f(*x) for x in zip(*vs)]
    return f(*vs)

def fbin(c, op, a, b, w):
    if a is UNDEF or b is UNDEF: return UNDEF
    if c.mode == 'bits':
        if w != 32: return fbin64(c, op, a, b)
        return c.fop(op, a, b)
    if c.special(a) or c.special(b):
        if isinstance(a, int) and isinstance(b, int): return conc_fop(op, a, b)
        x, y = a, b
        # inf +/- finite
        if op in ('fadd', 'fsub') and c.special(a) and not c.special(b): return a
        if op == 'fadd' and c.special(b): return b
        if op == 'fsub' and c.special(b): return b ^ 0x80000000
        if op == 'fdiv' and c.special(b) and not b & 0x7fffff: return c.rc(0)
        if op in ('fmul', 'fdiv') and c.special(a) and not a & 0x7fffff:
            r = c.toR(b)
            if c.branch(c.rcmp('eq', r, c.rc(0))):
                return 0x7fc00000 if op == 'fmul' else a
            return a ^ 0x80000000 if c.branch(c.rcmp('lt', r, c.rc(0))) else a
        if op == 'fmul' and c.special(b): return fbin(c, op, b, a, w)
    bsign = b >> 31 == 1 if isinstance(b, int) else None
    a, b = c.toR(a), c.toR(b)
    if op == 'fadd': return c.radd(a, b)
    if op == 'fsub': return c.radd(a, c.rneg(b))
    if op == 'fmul': return c.rmul(a, b)
    if op == 'fdiv':
        if c.opts.get('ieee_div0'):
            z = c.rcmp('eq', b, c.rc(0))
            if z is True or (z is not False and c.branch(z)):
                za = c.rcmp('eq', a, c.rc(0))
                if za is True or (za is not False and c.branch(za)): return 0x7fc00000
                # sign of zero is not tracked: fork on it (both signs explored)
                neg = c.branch(c.rcmp('lt', a, c.rc(0)))
                s = bsign
                if s is None:
                    sz = z3.Bool(f'zsign!{len(c.keep)}'); c.keep.append(sz)
                    s = c.branch(sz)
                return 0xff800000 if neg != s else 0x7f800000
        return c.rdiv(a, b)
    if op == 'frem':
        return fmod_real(c, a, b)
    raise Unsupported(op)

def fbin64(c, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        x, y = b2d(a), b2d(b)
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
        return d2b(r)
    raise Unsupported('f64 in bits mode')

def fmod_real(c, a, b):
    k = b.const()
    if k is None: raise Unsupported('fmod by symbolic')
    # n = trunc(a/b) integer symbol
    q = c.rdiv(a, b)
    n = trunc_real(c, q, 'trunc')
    return c.radd(a, c.rneg(c.rmul(n, b)))

def trunc_real(c, a, kind):
    """round a real to an integer-valued real (symbolic integer)"""
    k = a.const()
    if k is not None:
        if kind == 'floor': return c.rc(math.floor(k))
        if kind == 'ceil': return c.rc(math.ceil(k))
        if kind == 'trunc': return c.rc(math.trunc(k))
        if kind == 'round': return c.rc(math.floor(abs(k) + Fr(1, 2)) * (1 if k >= 0 else -1))
        return c.rc(round(k))
    key = ('rnd', kind, a.p.key(), a.q.key())
    t = c.memo_uf.get(key)
    if t is not None: return t
    t = c.newreal('n', ('round', kind, a)); v = len(c.syms) - 1
    i = z3.Int(f'int!{v}'); n = c.syms[v]
    z = c.zr(a)
    c.pc.append(n == z3.ToReal(i))
    fl = z3.And(n <= z, z < n + 1); ce = z3.And(n >= z, z > n - 1)
    if kind == 'floor': c.pc.append(fl)
    elif kind == 'ceil': c.pc.append(ce)
    elif kind == 'trunc': c.pc.append(z3.If(z >= 0, fl, ce))
    elif kind == 'round':
        c.pc.append(z3.If(z >= 0, z3.And(n <= z + z3.Q(1, 2), z + z3.Q(1, 2) < n + 1), z3.And(n >= z - z3.Q(1, 2), z - z3.Q(1, 2) > n - 1)))
    else:  # nearest even
        c.pc.append(z3.And(n - z <= z3.Q(1, 2), z - n <= z3.Q(1, 2)))
        c.pc.append(z3.Implies(z3.Or(n - z == z3.Q(1, 2), z - n == z3.Q(1, 2)), i % 2 == 0))
    c.memo_uf[key] = t
    return t

def fptoi(c, v, w, signed, iw):
    """float->int; in real mode the integer is made concrete by forking"""
    if v is UNDEF: return UNDEF
    if c.mode == 'bits':
        if w == 32:
            if isinstance(v, int):
                f = b2f(v)
                if f != f or math.isinf(f): return c_outrange(c, iw)
                r = math.trunc(f)
                lo, hi = (-(1 << iw - 1), (1 << iw - 1) - 1) if signed else (0, (1 << iw) - 1)
                if not lo <= r <= hi: return c_outrange(c, iw)
                return r & ((1 << iw) - 1)
            f = c.fp(v)
            return norm(z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(iw)) if signed else z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(iw)))
        raise Unsupported('fptoi f64')
    r = c.toR(v)
    k = r.const()
    if k is not None: return math.trunc(k) & ((1 << iw) - 1)
    t = trunc_real(c, r, 'trunc')
    # enumerate
    z = c.zpoly(t.p)
    val = concretize_real(c, z)
    return val & ((1 << iw) - 1)

def concretize_real(c, z):
    while True:
        n = len(c.trace)
        if n < len(c.prefix):
            k, v = c.prefix[n]; c.trace.append((k, v))
            if k == 'eq':
                c.pc.append(z == v); return v
            c.pc.append(z != v); continue
        r = c.check()
        if r == z3.unsat: raise Infeasible()
        if r != z3.sat: raise Unsupported('concretize real unknown')
        m = c.slv().model().eval(z, True)
        if not z3.is_rational_value(m): raise Unsupported('concretize irrational')
        v = m.as_fraction()
        if v.denominator != 1: raise Unsupported('concretize non-integer')
        v = int(v)
        if c.check(z != v) != z3.unsat: c.pending.append(c.trace + [('ne', v)])
        c.trace.append(('eq', v)); c.pc.append(z == v)
        return v

def c_outrange(c, iw):
    c.events.append('float-to-int out of range')
    return 1 << (iw - 1)

def itofp(c, v, iw, signed, w):
    if v is UNDEF: return UNDEF
    if isinstance(v, bool): v = int(v)
    if isb(v): v = z3.If(v, z3.BitVecVal(1, iw), z3.BitVecVal(0, iw)) if iw > 1 else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    if isinstance(v, int):
        x = sgn(v, iw) if signed and iw > 1 else v
        if c.mode == 'bits' and w == 32:
            # exact rounding to float32
            d = Fr(x); return round_f32(d)
        if c.mode == 'bits': return d2b(float(x))
        return c.rc(x)
    if c.mode == 'bits':
        if w != 32: raise Unsupported('itofp f64')
        x = bv(v, iw if iw > 1 else 8)
        return c.unfp(z3.fpSignedToFP(RNE, x, F32) if signed else z3.fpUnsignedToFP(RNE, x, F32))
    if isinstance(v, Mask) or isinstance(v, LI):
        v = bv(v, iw)
    # If-tree of constants -> ite of reals
    v = norm(v)
    if isinstance(v, int): return itofp(c, v, iw, signed, w)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        cc, a, b = v.children()
        return c.ite(cc, itofp(c, norm(a), v.size(), signed, w), itofp(c, norm(b), v.size(), signed, w))
    r = c.newreal('i2r', ('bv', v, signed)); c.keep.append(v)
    c.pc.append(c.syms[-1] == z3.ToReal(z3.BV2Int(v, signed)))
    return r

def round_f32(fr):
    if fr == 0: return 0
    s = 0x80000000 if fr < 0 else 0
    x = abs(fr)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fr(2) ** e > x: e -= 1
    if Fr(2) ** (e + 1) <= x: e += 1
    e = max(e, -126)
    q = x / Fr(2) ** (e - 23)
    n = q.numerator // q.denominator; r = q - n
    if r > Fr(1, 2) or (r == Fr(1, 2) and n & 1): n += 1
    v = Fr(n) * Fr(2) ** (e - 23)
    try: return s | f2b(float(v))
    except OverflowError: return s | 0x7f800000

def bitcast(c, v, st, dt):
    """st,dt types"""
    def flat(v, t):
        if t.k == 'v':
            ew = t.e.n if t.e.k != 'p' else 64
            return [(x, ew, t.e) for x in v]
        return [(v, t.n if t.k != 'p' else 64, t)]
    src = flat(v, st)
    dn = dt.n if dt.k == 'v' else 1
    dw = (dt.e.n if dt.e.k != 'p' else 64) if dt.k == 'v' else (dt.n if dt.k != 'p' else 64)
    if src[0][1] == dw:
        out = [x for x, _, _ in src]
        if dw == 1: pass
    else:
        def b2i(x, w):
            if w == 1: return int(x) if isinstance(x, bool) else (z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if isb(x) else x)
            return x
        sw = src[0][1]
        if sw < dw:
            k = dw // sw
            out = [c.cat([(b2i(src[i * k + j][0], sw), sw) for j in range(k)]) for i in range(dn)]
        else:
            k = sw // dw; out = []
            for x, w, _ in src:
                for j in range(k):
                    e = c.extract(x, w, j * dw, dw)
                    if dw == 1 and not isinstance(e, bool): e = norm(bv(e, 1) == 1) if not isinstance(e, int) else bool(e)
                    out.append(e)
    return out if dt.k == 'v' else out[0]

def exec_cast(c, op, v, st, dt):
    if st.k == 'v':
        return [exec_cast(c, op, x, st.e, dt.e) for x in v]
    if v is UNDEF: return UNDEF
    if op == 'trunc':
        if dt.n == 1:
            if isinstance(v, int): return bool(v & 1)
            if isinstance(v, Mask): return v.c
            if isinstance(v, LI): v = bv(v, st.n)
            return norm(z3.Extract(0, 0, bv(v, st.n)) == 1)
        return c.extract(v, st.n, 0, dt.n)
    if op == 'zext':
        if st.n == 1:
            if isinstance(v, bool): return int(v)
            return z3.If(v, z3.BitVecVal(1, dt.n), z3.BitVecVal(0, dt.n))
        if isinstance(v, int): return v
        if lazy(v): return c.cat([(v, st.n), (0, dt.n - st.n)])
        return norm(z3.ZeroExt(dt.n - st.n, v))
    if op == 'sext':
        if st.n == 1:
            if isinstance(v, bool): return ((1 << dt.n) - 1) if v else 0
            if c.mode == 'real': return mk_mask(v, dt.n)
            return z3.If(v, z3.BitVecVal(-1, dt.n), z3.BitVecVal(0, dt.n))
        if isinstance(v, int): return sgn(v, st.n) & ((1 << dt.n) - 1)
        if isinstance(v, Mask): return Mask(v.c, dt.n)
        return norm(z3.SignExt(dt.n - st.n, bv(v, st.n)))
    if op in ('ptrtoint', 'inttoptr'):
        return v
    if op in ('fptosi', 'fptoui'): return fptoi(c, v, st.n, op == 'fptosi', dt.n)
    if op in ('sitofp', 'uitofp'): return itofp(c, v, st.n, op == 'sitofp', dt.n)
    if op == 'fpext':
        if c.mode == 'real': return v
        if isinstance(v, int): return d2b(b2f(v))
        b = z3.fpToIEEEBV(z3.fpToFP(RNE, c.fp(v), z3.Float64())); return b
    if op == 'fptrunc':
        if c.mode == 'real': return v
        if isinstance(v, int): return f2b(b2d(v))
        return c.unfp(z3.fpToFP(RNE, z3.fpBVToFP(v, z3.Float64()), F32))
    raise Unsupported('cast ' + op)

def run_function(c, name, args):
    fn = c.mod.fn(name)
    if fn is None or fn.decl:
        from models import call_external
        return call_external(c, name, args, None, None)
    c.stats.fns.add(name)
    if c.depth > 60: raise Unsupported('recursion depth')
    c.depth += 1
    try: return _run(c, fn, args)
    finally: c.depth -= 1

def _run(c, fn, args):
    regs = [None] * fn.n
    for p, a in zip(fn.params, args): regs[p] = a
    allocas = []
    for i, n in fn.byval.items():     # the callee works on its own copy
        a = c.alloc(n, f'byval {fn.name}'); c.memcpy(a, args[i], n); allocas.append(a); regs[fn.params[i]] = a
    bb = 0; prev = -1
    cv = c.cv
    def get(o):
        if o[0] == 'l': return regs[o[1]]
        return cv(o[1])
    while True:
        blk = fn.blocks[bb]
        # phis in parallel
        i = 0
        if blk and blk[0].op == 'phi':
            vals = []
            while i < len(blk) and blk[i].op == 'phi':
                vals.append((blk[i].res, get(blk[i].x[prev]))); i += 1
            for r, v in vals: regs[r] = v
        nxt = None
        n = len(blk)
        while i < n:
            I = blk[i]; i += 1
            op = I.op
            c.ninst += 1
            if c.ninst > c.maxinst: raise Unsupported('instruction limit')
            if c.ninst % 4096 == 0 and c.deadline and time.time() > c.deadline: raise Unsupported('deadline')
            t = I.ty
            if op in IBIN:
                a, b = get(I.ops[0]), get(I.ops[1])
                if t.k == 'v': regs[I.res] = [ibin(c, op, x, y, t.e.n) for x, y in zip(a, b)]
                elif op in ('shl', 'lshr', 'ashr') and isinstance(b, int) and b >= t.n: regs[I.res] = UNDEF   # poison
                else: regs[I.res] = ibin(c, op, a, b, t.n)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                a, b = get(I.ops[0]), get(I.ops[1])
                if t.k == 'v': regs[I.res] = [fbin(c, op, x, y, t.e.n) for x, y in zip(a, b)]
                else: regs[I.res] = fbin(c, op, a, b, t.n)
            elif op == 'fneg':
                regs[I.res] = vmap(lambda x: fneg(c, x, (t.e if t.k == 'v' else t).n), get(I.ops[0]))
            elif op == 'load':
                a = get(I.ops[0])
                if isinstance(a, int) and I.al > 1: c.aligned(a, I.al)
                regs[I.res] = c.load(a, t)
            elif op == 'store':
                a = get(I.ops[1])
                if isinstance(a, int) and I.al > 1: c.aligned(a, I.al)
                c.store(a, get(I.ops[0]), I.oty)
            elif op == 'gep':
                ty, ws = I.x
                base = get(I.ops[0]); idx = [get(o) for o in I.ops[1:]]
                if isinstance(base, list) or any(isinstance(x, list) for x in idx): raise Unsupported('vector gep')
                regs[I.res] = gep(c, base, ty, idx, ws)
            elif op == 'icmp':
                a, b = get(I.ops[0]), get(I.ops[1]); ot = I.oty
                if ot.k == 'v': regs[I.res] = [icmp(c, I.x, x, y, ot.e.n if ot.e.k == 'i' else 64) for x, y in zip(a, b)]
                else: regs[I.res] = icmp(c, I.x, a, b, ot.n if ot.k == 'i' else 64)
            elif op == 'fcmp':
                a, b = get(I.ops[0]), get(I.ops[1]); ot = I.oty
                if ot.k == 'v': regs[I.res] = [fcmp(c, I.x, x, y, ot.e.n) for x, y in zip(a, b)]
                else: regs[I.res] = fcmp(c, I.x, a, b, ot.n)
            elif op == 'select':
                cn, a, b = get(I.ops[0]), get(I.ops[1]), get(I.ops[2])
                if isinstance(cn, list): regs[I.res] = [select(c, x, y, z, t.e) for x, y, z in zip(cn, a, b)]
                else: regs[I.res] = select(c, cn, a, b, t)
            elif op == 'br':
                if I.ops:
                    cn = get(I.ops[0])
                    if cn is UNDEF: raise Unsupported('branch on undef')
                    nxt = I.x[0] if c.branch(cn) else I.x[1]
                else: nxt = I.x[0]
            elif op == 'switch':
                v = get(I.ops[0]); d, cases = I.x; nxt = d
                w = I.oty.n
                for k, b in cases:
                    e = icmp(c, 'eq', v, k, w)
                    if c.branch(e): nxt = b; break
            elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
                regs[I.res] = exec_cast(c, op, get(I.ops[0]), I.oty, t)
            elif op == 'bitcast': regs[I.res] = bitcast(c, get(I.ops[0]), I.oty, t)
            elif op == 'extractelement':
                v = get(I.ops[0]); k = get(I.ops[1])
                if not isinstance(k, int): k = c.concretize(k, 64)
                regs[I.res] = v[k]
            elif op == 'insertelement':
                v = list(get(I.ops[0])); k = get(I.ops[2])
                if not isinstance(k, int): k = c.concretize(k, 64)
                v[k] = get(I.ops[1]); regs[I.res] = v
            elif op == 'shufflevector':
                a, b = get(I.ops[0]), get(I.ops[1]); ab = a + b
                regs[I.res] = [UNDEF if k < 0 else ab[k] for k in I.x]
            elif op == 'extractvalue':
                v = get(I.ops[0])
                for k in I.x: v = v[k]
                regs[I.res] = v
            elif op == 'insertvalue':
                v = get(I.ops[0]); regs[I.res] = insval(v, I.x, get(I.ops[1]), I.oty)
            elif op == 'alloca':
                cnt = get(I.ops[0])
                a = c.alloc(I.x.size * cnt, f'alloca {fn.name}'); allocas.append(a); regs[I.res] = a
            elif op in ('call', 'invoke'):
                nm, cvv, nd = I.x
                args_ = [get(o) for o in I.ops]
                if I.al:
                    for a, al in zip(args_, I.al):
                        if al > 1 and isinstance(a, int): c.aligned(a, al)
                if nm is None:
                    a = get(cvv)
                    if not isinstance(a, int): a = c.concretize(a, 64)
                    nm = c.addrfn.get(a)
                    if nm is None: raise Unsupported('indirect call')
                regs[I.res] = do_call(c, nm, args_, I)
                if nd is not None: nxt = nd
            elif op == 'freeze': regs[I.res] = get(I.ops[0])
            elif op == 'ret':
                for a in allocas: c.objs[a >> OBJ_SHIFT].alive = False
                return get(I.ops[0]) if I.ops else None
            elif op == 'unreachable': raise PathEnd('unreachable')
            elif op == 'fence': pass
            elif op == 'atomicrmw' or op == 'cmpxchg': raise Unsupported(op)
            else: raise Unsupported('opcode ' + op)
        prev = bb; bb = nxt

def insval(v, idx, x, ty):
    v = list(v) if isinstance(v, list) else [UNDEF] * ty.n
    if len(idx) == 1: v[idx[0]] = x
    else: v[idx[0]] = insval(v[idx[0]], idx[1:], x, ty.fields[idx[0]] if ty.k == 's' else ty.e)
    return v

def fneg(c, x, w):
    if x is UNDEF: return UNDEF
    if c.mode == 'real':
        if isinstance(x, int): return x ^ (1 << (w - 1))
        if isinstance(x, LI): return LI(x.c, fneg(c, x.a, w), fneg(c, x.b, w), w)
        return c.rneg(c.toR(x))
    if isinstance(x, int): return x ^ (1 << (w - 1))
    return norm(bv(x, w) ^ z3.BitVecVal(1 << (w - 1), w))

def gep(c, base, ty, idx, ws):
    off = 0; symoff = None
    t = ty
    for k, (i, w) in enumerate(zip(idx, ws)):
        if k == 0: sz = t.size
        elif t.k == 's':
            off += t.offs[i]; t = t.fields[i]; continue
        else: t = t.e; sz = t.size
        if i is UNDEF: raise Unsupported('gep undef')
        if isinstance(i, int): off += (i - (1 << w) if i >> (w - 1) & 1 else i) * sz
        else:
            i = bv(i, w)
            if w < 64: i = z3.SignExt(64 - w, i)
            symoff = i * sz if symoff is None else symoff + i * sz
    if isinstance(base, int) and symoff is None: return (base + off) & ((1 << 64) - 1)
    r = bv(base, 64) + off
    if symoff is not None: r = r + symoff
    return norm(r)

def do_call(c, nm, args, I):
    h = None if c.concrete else c.hooks.get(nm)
    if h: return h(c, args, I)
    f = c.mod._fnptr.get(nm)
    fn = c.mod.fn(nm) if f else None
    from models import call_external, OVERRIDE
    if fn is not None and not fn.decl and nm not in OVERRIDE:
        return run_function(c, nm, args)
    return call_external(c, nm, args, I, I.oty if I is not None else None)
