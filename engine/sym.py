"""Symbolic executor for LLVM IR (path forking by re-execution) on top of z3.

Two float domains:
  'real'  floats are exact rational functions of the symbolic inputs (rounding abstracted),
  'bits'  floats are 32-bit IEEE bit patterns, operations are z3 FloatingPoint operations (RNE).
Integers are bit-vectors in both.
"""
import struct, math, ctypes, time
from fractions import Fraction as Fr
import z3
from ir import Unsupported, UNDEF, FC, gep_off, Undef
from poly import Poly, pmul, reduce, content_mono, div_mono, lead, pdiv_exact, TooBig

M32 = 0xffffffff
RNE = z3.RNE()
F32 = z3.Float32(); F64 = z3.Float64()
_libm = ctypes.CDLL('libm.so.6')
_libm.fmaf.restype = ctypes.c_float; _libm.fmaf.argtypes = [ctypes.c_float] * 3

def f2b(x):
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
def b2f(b): return struct.unpack('<f', struct.pack('<I', b & M32))[0]
def d2b(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2d(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
def isb(x): return isinstance(x, z3.BoolRef)
def isbv(x): return isinstance(x, z3.BitVecRef)

class Infeasible(Exception): pass
class MemError(Exception): pass
class PathEnd(Exception): pass   # abort()/assert failure reached
class SpecialValue(Exception): pass  # inf/nan entering real arithmetic

class R:
    """exact rational function value P/Q (Q known non-zero on this path)"""
    __slots__ = ('p', 'q', 'c', 'w')
    def __init__(s, p, q, c): s.p = p; s.q = q; s.c = c; s.w = None
    def const(s): return s.p.cval() / s.q.cval() if s.p.is_const() and s.q.is_const() else None
    def __repr__(s): return f'R({s.p} / {s.q})'
    def _l(s, o):
        if isinstance(o, R): return o
        return s.c.rc(o)
    def __add__(s, o): return s.c.radd(s, s._l(o))
    __radd__ = __add__
    def __sub__(s, o): return s.c.radd(s, s.c.rneg(s._l(o)))
    def __rsub__(s, o): return s.c.radd(s._l(o), s.c.rneg(s))
    def __neg__(s): return s.c.rneg(s)
    def __mul__(s, o): return s.c.rmul(s, s._l(o))
    __rmul__ = __mul__
    def __truediv__(s, o): return s.c.rdiv(s, s._l(o))
    def __rtruediv__(s, o): return s.c.rdiv(s._l(o), s)
    def __lt__(s, o): return s.c.rcmp('lt', s, s._l(o))
    def __le__(s, o): return s.c.rcmp('le', s, s._l(o))
    def __gt__(s, o): return s.c.rcmp('lt', s._l(o), s)
    def __ge__(s, o): return s.c.rcmp('le', s._l(o), s)
    def eq(s, o): return s.c.rcmp('eq', s, s._l(o))

class Mask:
    __slots__ = ('c', 'w')
    def __init__(s, c, w): s.c = c; s.w = w
class LI:
    """lazy if-then-else over 32-bit payloads that may hold real-valued floats"""
    __slots__ = ('c', 'a', 'b', 'w')
    def __init__(s, c, a, b, w=32): s.c = c; s.a = a; s.b = b; s.w = w
class Cat:
    """concatenation of parts, little end first: [(val,width)...]"""
    __slots__ = ('parts',)
    def __init__(s, parts): s.parts = parts
class FB:
    """bits of a float in real mode whose exponent field left the normal range: mantissa m in [1,2), sign+exponent field top (9 bits)"""
    __slots__ = ('m', 'top', 'w')
    def __init__(s, m, top): s.m = m; s.top = top; s.w = 32

def lazy(x): return isinstance(x, (R, Mask, LI, Cat, FB))

def bnot(c): 
    if isinstance(c, bool): return not c
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)
def band(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    if a.eq(b): return a
    return z3.And(a, b)
def bor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    if a.eq(b): return a
    return z3.Or(a, b)
def bxor(a, b):
    if isinstance(a, bool): return bnot(b) if a else b
    if isinstance(b, bool): return bnot(a) if b else a
    return z3.Xor(a, b)
def tob(c): return z3.BoolVal(c) if isinstance(c, bool) else c

def bv(x, w):
    if isinstance(x, int): return z3.BitVecVal(x, w)
    if isinstance(x, Mask): return z3.If(tob(x.c), z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
    if isinstance(x, LI): return z3.If(tob(x.c), bv(x.a, w), bv(x.b, w))
    if isinstance(x, Cat):
        return z3.simplify(z3.Concat(*[bv(v, pw) for v, pw in reversed(x.parts)])) if len(x.parts) > 1 else bv(*x.parts[0])
    if isinstance(x, R):
        k = x.const()
        if k is not None:
            b = real_bits(k)
            if b is not None and w == 32: return z3.BitVecVal(b, 32)
        raise Unsupported('bits of symbolic real')
    return x

def real_bits(k):
    try: b = f2b(float(k))
    except OverflowError: return None
    if (b & 0x7f800000) == 0x7f800000: return None
    return b if Fr(b2f(b)) == k else None

def norm(x):
    if isbv(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x): return x.as_long()
    elif isb(x):
        x = z3.simplify(x)
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x

class Obj:
    __slots__ = ('base', 'size', 'cells', 'name', 'ro', 'alive', 'al')
    def __init__(s, base, size, name): s.base = base; s.size = size; s.cells = {}; s.name = name; s.ro = False; s.alive = True; s.al = 1 << 20

OBJ_SHIFT = 32
LOWOPS = {z3.Z3_OP_BMUL: lambda a, b: a * b, z3.Z3_OP_BADD: lambda a, b: a + b}

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unknown = 0; s.paths = 0; s.instr = 0; s.fns = set(); s.div0 = 0; s.notes = set()

class Lin:
    """linear abstraction: every non-linear product of variables becomes a fresh real variable (over-approximates
    satisfiability, so 'unsat' carries over; cheap for claims that follow from polynomial identities alone)"""
    def __init__(s): s.memo = {}; s.vars = {}; s.nonlin = False; s.keep = []
    def mono(s, fs):
        k = tuple(sorted(x.get_id() for x in fs))
        if k not in s.vars: s.vars[k] = z3.Real(f'mono!{len(s.vars)}'); s.nonlin = True; s.keep += fs
        return s.vars[k]
    def factors(s, e):
        k = Fr(1); out = []; st = [e]
        while st:
            x = st.pop()
            if z3.is_mul(x): st += x.children()
            elif z3.is_rational_value(x): k *= x.as_fraction()
            elif z3.is_int_value(x): k *= x.as_long()
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS): k = -k; st.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction().denominator == 1 and x.arg(1).as_fraction() > 0:
                st += [x.arg(0)] * int(x.arg(1).as_fraction())
            else: out.append(x)
        return k, out
    def __call__(s, e):
        r = s.memo.get(e.get_id())
        if r is not None: return r
        if z3.is_mul(e) and z3.is_real(e):
            k, fs = s.factors(e)
            if not fs: r = z3.RealVal(str(k))
            else:
                t = s(fs[0]) if len(fs) == 1 else s.mono(fs)
                r = t if k == 1 else z3.RealVal(str(k)) * t
        elif z3.is_app(e) and e.num_args():
            ch = [s(x) for x in e.children()]
            r = e if all(a.get_id() == b.get_id() for a, b in zip(ch, e.children())) else (z3.And(*ch) if z3.is_and(e) else z3.Or(*ch) if z3.is_or(e) else z3.Sum(ch) if z3.is_add(e) else e.decl()(*ch))
        else: r = e
        s.memo[e.get_id()] = r; s.keep += [e, r]
        return r

class Ctx:
    def __init__(self, mod, mode, prefix, stats, opts):
        self.pospolys = []
        self.mod = mod; self.mode = mode; self.prefix = prefix; self.stats = stats; self.opts = opts
        self.trace = []; self.pending = []
        self.pc = []          # z3 constraints
        self.solver = None
        self.rules = {}       # var -> Poly (var^2)
        self.syms = []        # z3 Real per var
        self.symname = []
        self.known = {}       # ast id -> bool (decided conditions)
        self.keep = []
        self.memo_sqrt = {}; self.memo_q = {}; self.memo_uf = {}; self.memo_abs = {}; self.memo_ite = {}
        self.posvars = set(); self.pzpow = {}
        self.objs = {}; self.nobj = 1
        self.globaddr = {}; self.fnaddr = {}; self.addrfn = {}
        self.tlseen = set(); self.tlobj = {}; self.tlkeep = []; self.errno = None
        self.depth = 0; self.ninst = 0
        self.maxinst = opts.get('maxinst', 400000)
        self.itemode = opts.get('ite', 'fork')
        self.fpcache = {}
        self.div0 = []
        self.hooks = opts.get('hooks', {})
        self.concrete = opts.get('concrete', False)
        self.deadline = opts.get('deadline')
        self.defs = []  # (kind, ...) evaluation recipe for definitional symbols
        self.softpc = []
        self.undefs = 0
        self.events = []

    # ---------------------------------------------------------------- solver / branching
    def slv(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.opts.get('branch_timeout', 3000))
            self.nsolv = 0
        while self.nsolv < len(self.pc):
            self.solver.add(self.pc[self.nsolv]); self.nsolv += 1
        return self.solver

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline: raise Unsupported('deadline')
        s = self.slv(); t = time.time()
        r = s.check(*extra)
        self.stats.queries += 1; self.stats.time += time.time() - t
        return r

    def implied(self, c):
        """True/False when the path condition decides c already (linear abstraction, sound in both directions); else None"""
        k = self.lookup(c)
        if k is not None: return k
        if getattr(self, 'lins', None) is None:
            self.lin = Lin(); self.lins = z3.SolverFor('QF_LRA'); self.lins.set('timeout', 1000); self.nlin = 0
        while self.nlin < len(self.pc):
            x = self.pc[self.nlin]; self.nlin += 1
            if not isinstance(x, bool): self.lins.add(self.lin(x))
        lc = self.lin(c); t = time.time(); r = None; self.stats.queries += 1
        if self.lins.check(z3.Not(lc)) == z3.unsat: r = True
        elif self.lins.check(lc) == z3.unsat: r = False
        self.stats.time += time.time() - t
        if r is not None: self._know(c, r)
        return r

    def positive(self, r):
        """assume r > 0 and remember the polynomial for factor cancellation in comparisons"""
        if self.concrete: return
        self.assume(self.rcmp('lt', self.rc(0), r))
        if r.q.is_const() and len(r.p.d) > 1: self.pospolys.append(r.p if r.q.cval() > 0 else -r.p)

    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        if isb(c):
            c2 = z3.simplify(c)
            if z3.is_true(c2): return
            if z3.is_false(c2): raise Infeasible()
        self.pc.append(c)
        self._know(c, True)

    def _know(self, c, v):
        self.keep.append(c)
        if z3.is_not(c): self._know(c.arg(0), not v); return
        self.known[c.get_id()] = v
        if z3.is_and(c) and v:
            for a in c.children(): self._know(a, True)
        if z3.is_or(c) and not v:
            for a in c.children(): self._know(a, False)

    def lookup(self, c):
        neg = False
        while z3.is_not(c): c = c.arg(0); neg = not neg
        v = self.known.get(c.get_id())
        if v is None:
            if z3.is_and(c):
                vs = [self.lookup(a) for a in c.children()]
                if any(x is False for x in vs): v = False
                elif all(x is True for x in vs): v = True
            elif z3.is_or(c):
                vs = [self.lookup(a) for a in c.children()]
                if any(x is True for x in vs): v = True
                elif all(x is False for x in vs): v = False
        if v is None: return None
        return v != neg

    def branch(self, c):
        if isinstance(c, bool): return c
        c = norm(c)
        if isinstance(c, bool): return c
        k = self.lookup(c)
        if k is not None: return k
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n][1]
            self.trace.append(self.prefix[n])
            self.pc.append(c if d else z3.Not(c)); self._know(c, d)
            return d
        if len(self.trace) > self.opts.get('maxdepth', 400): raise Unsupported('branch depth')
        if self.mode == 'real' and self.opts.get('lincheck', True):
            k = self.implied(c)
            if k is not None:
                self.pc.append(c if k else z3.Not(c)); self.trace.append(('b', k)); return k
        rt = self.check(c)
        if rt == z3.unsat:
            self._know(c, False); self.pc.append(z3.Not(c)); self.trace.append(('b', False)); return False
        rf = self.check(z3.Not(c))
        if rf == z3.unsat:
            self._know(c, True); self.pc.append(c); self.trace.append(('b', True)); return True
        if rt == z3.unknown or rf == z3.unknown: self.stats.unknown += 1
        self.pending.append(self.trace + [('b', False)])
        self.trace.append(('b', True)); self.pc.append(c); self._know(c, True)
        return True

    def concretize(self, x, w=64):
        """enumerate the feasible values of an integer term by forking"""
        if isinstance(x, int): return x
        x = norm(bv(x, w))
        if isinstance(x, int): return x
        while True:
            n = len(self.trace)
            if n < len(self.prefix):
                k, v = self.prefix[n]; self.trace.append((k, v))
                if k == 'eq':
                    self.pc.append(x == v); return v
                self.pc.append(x != v); continue
            r = self.check()
            if r != z3.sat:
                if r == z3.unsat: raise Infeasible()
                raise Unsupported('concretize unknown')
            v = self.slv().model().eval(x, True).as_long()
            if self.check(x != v) != z3.unsat:
                self.pending.append(self.trace + [('ne', v)])
            self.trace.append(('eq', v)); self.pc.append(x == v)
            return v

    # ---------------------------------------------------------------- reals
    def newreal(self, name, rec=None):
        v = len(self.syms)
        self.syms.append(z3.Real(f'{name}!{v}')); self.symname.append(name)
        if rec is not None: self.defs.append((v, rec))
        return R(Poly.var(v), Poly.const(1), self)
    def rc(self, k):
        if self.concrete and real_bits(Fr(k)) is None: self.inexact = True
        return R(Poly.const(Fr(k)), Poly.const(1), self)
    inexact = False      # concrete run: some value was not a 32-bit float exactly (the real build rounds)
    def rmk(self, p, q):
        if self.concrete and not self.inexact and p.is_const() and q.is_const() and real_bits(p.cval() / q.cval()) is None: self.inexact = True
        if p.is_zero(): return R(p, Poly.const(1), self)
        if q.is_const():
            k = q.cval()
            return R(p if k == 1 else p.scale(1 / k), Poly.const(1), self)
        mp = content_mono(p)
        if mp:
            mq = content_mono(q)
            if mq:
                dq = dict(mq); g = tuple((v, min(e, dq[v])) for v, e in mp if v in dq)
                if g: p = div_mono(p, g); q = div_mono(q, g)
        k = lead(q)
        if k != 1: p = p.scale(1 / k); q = q.scale(1 / k)
        if p == q: return self.rc(1)
        if q.is_const(): return R(p.scale(1 / q.cval()), Poly.const(1), self)
        return R(p, q, self)
    def mul(self, a, b): return pmul(a, b, self.rules)
    def radd(self, a, b):
        if a.q == b.q: return self.rmk(a.p + b.p, a.q)
        if a.q.is_const(): return self.rmk(self.mul(a.p, b.q) + b.p, b.q) if a.q.cval() == 1 else None
        if b.q.is_const(): return self.rmk(a.p + self.mul(b.p, a.q), a.q)
        if len(a.q.d) <= 60 and len(b.q.d) <= 60:
            k = pdiv_exact(a.q, b.q)
            if k is not None: return self.rmk(a.p + self.mul(b.p, k), a.q)
            k = pdiv_exact(b.q, a.q)
            if k is not None: return self.rmk(self.mul(a.p, k) + b.p, b.q)
        return self.rmk(self.mul(a.p, b.q) + self.mul(b.p, a.q), self.mul(a.q, b.q))
    def rneg(self, a): return R(-a.p, a.q, self)
    def rmul(self, a, b):
        if not a.q.is_const() and a.q == b.p: return self.rmk(a.p, b.q)
        if not b.q.is_const() and b.q == a.p: return self.rmk(b.p, a.q)
        return self.rmk(self.mul(a.p, b.p), self.mul(a.q, b.q))
    def rdiv(self, a, b):
        k = b.const()
        if k is not None:
            if k == 0: raise SpecialValue('division by zero constant')
            if self.concrete: return self.rmk(a.p.scale(1 / k), a.q)
            return R(a.p.scale(1 / k), a.q, self)
        self.nonzero(b)
        p = self.mul(a.p, b.q); q = self.mul(a.q, b.p)
        if a.p == b.p: return self.rmk(b.q, a.q)
        if a.q == b.q: return self.rmk(a.p, b.p)
        if not q.is_const() and len(q.d) <= 40 and len(p.d) <= 200 and len(q.d) > 1:
            k = pdiv_exact(p, q)
            if k is not None: return self.rmk(k, Poly.const(1))
        return self.rmk(p, q)
    def nonzero(self, b):
        if self.concrete: 
            return
        c = self.rcmp('eq', b, self.rc(0))
        if c is False: return
        if c is True: raise SpecialValue('division by zero')
        if self.lookup(c) is False: return
        mode = self.opts.get('div0', 'fork')
        if mode == 'assume':
            self.stats.notes.add('divisor assumed non-zero'); self.assume(z3.Not(c)); return
        if self.branch(c):
            self.stats.div0 += 1
            raise SpecialValue('division by zero feasible')
    def zpoly(self, p):
        terms = []
        for m, c in p.d.items():
            fs = []
            for v, e in m: fs += [self.syms[v]] * e
            if c != 1 or not fs: fs = [z3.RealVal(str(c))] + fs
            t = fs[0]
            for x in fs[1:]: t = t * x
            terms.append(t)
        if not terms: return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)
    def sign_of_poly(self, q):
        """syntactic sign: +1 when positive for sure (non-zero assumed), else 0"""
        if q.is_const(): return 1 if q.cval() > 0 else -1
        s = None
        for m, c in q.d.items():
            for v, e in m:
                if e % 2 and v not in self.posvars: return 0
            t = 1 if c > 0 else -1
            if s is None: s = t
            elif s != t: return 0
        return s
    def zr(self, r):
        """z3 term of a real value"""
        if r.q.is_const(): return self.zpoly(r.p.scale(1 / r.q.cval()) if r.q.cval() != 1 else r.p)
        key = (r.p.key(), r.q.key())
        t = self.memo_q.get(key)
        if t is None:
            n = self.newreal('q', ('rat', r.p, r.q)); v = len(self.syms) - 1
            t = self.syms[v]
            self.pc.append(t * self.zpoly(r.q) == self.zpoly(r.p))
            self.memo_q[key] = t
        return t
    def rcmp(self, op, a, b):
        if self.concrete:
            x, y = a.const(), b.const()
            if x is not None and y is not None: return x < y if op == 'lt' else x <= y if op == 'le' else x == y
        d = self.radd(a, self.rneg(b))
        k = d.const()
        if k is not None:
            return k < 0 if op == 'lt' else k <= 0 if op == 'le' else k == 0
        p = d.p; dq = d.q
        for pp in self.pospolys:      # factors known to be positive
            n = len(pp.d)
            while len(p.d) >= n:
                r = pdiv_exact(p, pp)
                if r is None: break
                p = r
            while len(dq.d) >= n and not dq.is_const():
                r = pdiv_exact(dq, pp)
                if r is None: break
                dq = r
        if dq is not d.q: d = R(p, dq, self)
        if op == 'eq':
            if p.is_const(): return p.cval() == 0
            if len(p.d) == 1:   # monomial == 0  <=> one of the vars is 0
                (m, c), = p.d.items()
                vs = [v for v, _ in m]
                return z3.simplify(z3.Or([self.syms[v] == 0 for v in vs])) if len(vs) > 1 else self.syms[vs[0]] == 0
            k = lead(p); p = p.scale(1 / k)
            return self.zpoly(p) == 0
        if not d.q.is_const():
            s = self.sign_of_poly(d.q)
            if s == 0: p = self.mul(p, d.q)
            elif s < 0: p = -p
        elif d.q.cval() < 0: p = -p
        s = self.sign_of_poly(p)
        if p.is_const():
            k = p.cval(); return k < 0 if op == 'lt' else k <= 0
        if s > 0 and op == 'lt' : return False   # sum of non-negatives is never negative
        k = lead(p)
        if k > 0:
            p = p.scale(1 / k); z = self.zpoly(p)
            return z < 0 if op == 'lt' else z <= 0
        p = p.scale(1 / k); z = self.zpoly(p)     # original = k*p with k<0:  k*p<0 <=> p>0
        return z3.Not(z <= 0) if op == 'lt' else z3.Not(z < 0)
    def rsqrt_sym(self, a):
        """non-negative square root; value required >= 0"""
        k = a.const()
        if k is not None:
            if k < 0: raise SpecialValue('sqrt of negative')
            n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if n * n == k.numerator and d * d == k.denominator: return self.rc(Fr(n, d))
            if self.concrete:
                return self.rc(Fr(math.sqrt(k)))
        if self.opts.get('maxsqrtvars') and False: pass
        key = (a.p.key(), a.q.key())
        s = self.memo_sqrt.get(key)
        if s is not None: return s
        neg = self.rcmp('lt', a, self.rc(0))
        if neg is True: raise SpecialValue('sqrt of negative')
        if neg is not False and self.lookup(neg) is not False:
            if self.opts.get('sqrtneg', 'fork') == 'assume':
                self.assume(bnot(neg))
            elif self.branch(neg): raise SpecialValue('sqrt of negative feasible')
        # monomial square?
        if a.q.is_const() and len(a.p.d) == 1:
            (m, c), = a.p.d.items()
            rn, rd = math.isqrt(c.numerator) if c > 0 else 0, math.isqrt(c.denominator)
            if c > 0 and rn * rn == c.numerator and rd * rd == c.denominator and all(e % 2 == 0 for _, e in m):
                root = R(Poly({tuple((v, e // 2) for v, e in m): Fr(rn, rd)}), Poly.const(1), self)
                r = self.rabs(root)
                self.memo_sqrt[key] = r; return r
        if not a.q.is_const():
            # sqrt(P/Q) : reduce to polynomial radicand  sqrt(P*Q)/|Q|
            pq = self.rmk(self.mul(a.p, a.q), Poly.const(1))
            n = self.rsqrt_sym(pq)
            r = self.rdiv(n, self.rabs(R(a.q, Poly.const(1), self)))
            self.memo_sqrt[key] = r
            return r
        s = self.newreal('s', ('sqrt', a.p, a.q)); v = len(self.syms) - 1
        self.posvars.add(v)
        zv = self.syms[v]
        k = a.const()
        if k is not None and self.opts.get('sqrtconst') == 'bounds':    # a constant root known only by its bounds (weaker than its equation, so sound)
            lo = Fr(math.isqrt(k.numerator * k.denominator << 120), k.denominator << 60); hi = lo + Fr(1, k.denominator << 60)
            self.pc.append(zv >= z3.Q(lo.numerator, lo.denominator))
            self.pc.append(zv <= z3.Q(hi.numerator, hi.denominator))
            self.memo_sqrt[key] = s
            return s
        self.pc.append(zv >= 0)
        self.pc.append(zv * zv == self.zpoly(a.p))
        if v not in a.p.vars(): self.rules[v] = a.p
        self.memo_sqrt[key] = s
        return s
    def rabs(self, a):
        k = a.const()
        if k is not None: return self.rc(abs(k))
        s = self.sign_of_poly(a.p) * self.sign_of_poly(a.q)
        if s > 0: return a
        if s < 0: return self.rneg(a)
        if lead(a.p) < 0: a = self.rneg(a)
        return self.ite(self.rcmp('lt', a, self.rc(0)), self.rneg(a), a)
    def ite(self, c, a, b):
        c = norm(c)
        if c is True: return a
        if c is False: return b
        if isinstance(a, R) and isinstance(b, R):
            if a.p == b.p and a.q == b.q: return a
            k = self.lookup(c)
            if k is not None: return a if k else b
            if self.itemode == 'fork': return a if self.branch(c) else b
            if self.opts.get('itecheck') and not self.concrete:
                k = self.implied(c)
                if k is not None: return a if k else b
            key = (c.get_id(), a.p.key(), a.q.key(), b.p.key(), b.q.key())
            t = self.memo_ite.get(key)
            if t is None:
                t = self.newreal('m', ('ite', c, a, b)); self.keep.append(c)
                z = self.syms[-1]; 
                za, zb = self.zr(a), self.zr(b)
                z = self.zpoly(t.p)
                self.pc.append(z3.Or(z3.And(c, z == za), z3.And(z3.Not(c), z == zb)))
                self.memo_ite[key] = t
            return t
        raise Unsupported('ite kinds')
    def uf(self, name, *args):
        """uninterpreted real function (deterministic); axioms added by callers"""
        key = (name,) + tuple((a.p.key(), a.q.key()) for a in args)
        t = self.memo_uf.get(key)
        if t is None:
            t = self.newreal(name, ('uf', name, args))
            self.memo_uf[key] = t
        return t
    def toR(self, v):
        if isinstance(v, R): return v
        if isinstance(v, int):
            e = (v >> 23) & 0xff
            if e == 0xff: raise SpecialValue('inf/nan constant in real arithmetic')
            return self.rc(Fr(b2f(v)))
        if isinstance(v, LI): return self.ite(v.c, self.toR(v.a), self.toR(v.b))
        if isinstance(v, FB): return fb_real(self, v)
        if v is UNDEF:
            self.undefs += 1
            return self.newreal('undef')
        if isbv(v):
            v2 = norm(v)
            if isinstance(v2, int): return self.toR(v2)
            # If-tree of constants
            if z3.is_app_of(v2, z3.Z3_OP_ITE):
                c, a, b = v2.children()
                return self.ite(c, self.toR(norm(a)), self.toR(norm(b)))
        raise Unsupported(f'toR {type(v).__name__} {v}')
    def special(self, v):
        """concrete inf/nan bit pattern?"""
        return isinstance(v, int) and (v >> 23) & 0xff == 0xff

    # ---------------------------------------------------------------- IEEE bit mode
    def fp(self, v):
        if isinstance(v, int):
            return z3.fpBVToFP(z3.BitVecVal(v, 32), F32)
        t = self.fpcache.get(v.get_id())
        if t is None:
            t = z3.fpBVToFP(v, F32); self.fpcache[v.get_id()] = t; self.keep.append(v)
        return t
    def unfp(self, t):
        b = z3.fpToIEEEBV(t)
        self.keep.append(b); self.fpcache[b.get_id()] = t
        return b
    def fop(self, op, *a):
        if any(x is UNDEF for x in a): return UNDEF
        a = [x if isinstance(x, int) else norm(bv(x, 32)) for x in a]
        if all(isinstance(x, int) for x in a):
            return conc_fop(op, *a)
        if op in ('fadd', 'fmul', 'fma'):
            x, y = a[0], a[1]
            kx = (1, x.get_id()) if not isinstance(x, int) else (0, x)
            ky = (1, y.get_id()) if not isinstance(y, int) else (0, y)
            if kx > ky: a[0], a[1] = y, x
        f = [self.fp(x) for x in a]
        if op == 'fadd': r = z3.fpAdd(RNE, *f)
        elif op == 'fsub': r = z3.fpSub(RNE, *f)
        elif op == 'fmul': r = z3.fpMul(RNE, *f)
        elif op == 'fdiv': r = z3.fpDiv(RNE, *f)
        elif op == 'fma': r = z3.fpFMA(RNE, *f)
        elif op == 'sqrt': r = z3.fpSqrt(RNE, *f)
        elif op in RM: r = z3.fpRoundToIntegral(RM[op], *f)
        elif op == 'frem': return self.bits_uf('fmodf', a)
        else: raise Unsupported('fop ' + op)
        return self.unfp(r)
    def bits_uf(self, name, a, w=32):
        if (self.concrete or name == 'exp2f') and w == 32 and all(isinstance(x, int) for x in a):
            fn = getattr(_libm, name); fn.restype = ctypes.c_float; fn.argtypes = [ctypes.c_float] * len(a)
            return f2b(fn(*[b2f(x) for x in a]))
        f = z3.Function(name, *([z3.BitVecSort(w)] * (len(a) + 1)))
        return f(*[bv(x, w) for x in a])
    def fcmp_bits(self, pred, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return conc_fcmp(pred, b2f(a), b2f(b))
        fa, fb = self.fp(norm(bv(a, 32))), self.fp(norm(bv(b, 32)))
        un = z3.Or(z3.fpIsNaN(fa), z3.fpIsNaN(fb))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pred == 'true': return True
        if pred == 'false': return False
        if pred == 'ord': return z3.Not(un)
        if pred == 'uno': return un
        o, k = pred[0], pred[1:]
        if k == 'ne':
            return z3.And(z3.Not(un), z3.Not(z3.fpEQ(fa, fb))) if o == 'o' else z3.Not(z3.fpEQ(fa, fb))
        r = base[k](fa, fb)
        return r if o == 'o' else z3.Or(un, r)

    # ---------------------------------------------------------------- memory
    def alloc(self, size, name='obj'):
        o = Obj(self.nobj << OBJ_SHIFT, size, name); self.objs[self.nobj] = o; self.nobj += 1
        return o.base
    def obj(self, addr):
        if not isinstance(addr, int): addr = self.concretize(addr, 64)
        o = self.objs.get(addr >> OBJ_SHIFT)
        if o is None or not o.alive: raise MemError(f'access to invalid address {addr:#x}')
        return o, addr - o.base
    def aligned(self, addr, al):
        """the access assumes an address that is a multiple of al; o.al is what the placement of the object guarantees"""
        o = self.objs.get(addr >> OBJ_SHIFT)
        if o is not None and (o.al < al or addr & (al - 1)): raise MemError(f'misaligned access {o.name}+{addr - o.base}: needs {al}, guaranteed {o.al}')
    def raw_store(self, addr, v, n):
        """store n-byte scalar"""
        o, off = self.obj(addr)
        if off < 0 or off + n > o.size: raise MemError(f'store out of bounds {o.name}+{off} size {n}')
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n: cells[off] = (v, n); return
        # clear overlaps
        for k in range(max(0, off - 15), off + n):
            c = cells.get(k)
            if c is None or k + c[1] <= off: continue
            if k >= off and k + c[1] <= off + n: del cells[k]; continue
            self.split_cell(o, k, sorted({x for x in (off, off + n) if k < x < k + c[1]}))
            for kk in list(range(k, k + c[1])):
                if kk in cells and off <= kk < off + n: del cells[kk]
        cells[off] = (v, n)
    def split_cell(self, o, k, cuts):
        v, n = o.cells.pop(k)
        pts = [k] + list(cuts) + [k + n]
        for a, b in zip(pts, pts[1:]):
            o.cells[a] = (self.extract(v, n * 8, (a - k) * 8, (b - a) * 8), b - a)
    def raw_load(self, addr, n):
        o, off = self.obj(addr)
        if off < 0 or off + n > o.size: raise MemError(f'load out of bounds {o.name}+{off} size {n}')
        c = o.cells.get(off)
        if c is not None and c[1] == n: return c[0]
        parts = []; p = off
        while p < off + n:
            c = o.cells.get(p)
            if c is None:
                for k in range(max(0, p - 15), p):
                    ck = o.cells.get(k)
                    if ck is not None and k + ck[1] > p: c = ('in', k, ck); break
            if c is None:
                parts.append((UNDEF, 8)); p += 1; continue
            if len(c) == 3:
                k, ck = c[1], c[2]; m = min(k + ck[1], off + n) - p
                parts.append((self.extract(ck[0], ck[1] * 8, (p - k) * 8, m * 8), m * 8)); p += m
            else:
                m = min(c[1], off + n - p)
                parts.append((c[0] if m == c[1] else self.extract(c[0], c[1] * 8, 0, m * 8), m * 8)); p += m
        return self.cat(parts)
    def extract(self, v, w, lo, n):
        if lo == 0 and n == w: return v
        if v is UNDEF: return UNDEF
        if isinstance(v, int): return (v >> lo) & ((1 << n) - 1)
        if isinstance(v, bool): return self.extract(int(v), w, lo, n)
        if isb(v): return self.extract(z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w, lo, n)
        if isinstance(v, Cat):
            p = 0; out = []
            for x, pw in v.parts:
                a, b = max(p, lo), min(p + pw, lo + n)
                if a < b: out.append((self.extract(x, pw, a - p, b - a), b - a))
                p += pw
            return self.cat(out)
        if isinstance(v, Mask): return Mask(v.c, n)
        if isinstance(v, LI): return LI(v.c, self.extract(v.a, w, lo, n), self.extract(v.b, w, lo, n), n)
        if isinstance(v, R):
            k = v.const()
            if k is not None:
                b = real_bits(k)
                if b is not None: return self.extract(b, 32, lo, n)
            if lo == w - 1 and n == 1: return Mask(self.rcmp('lt', v, self.rc(0)), 1)
            raise Unsupported('extract bits of real')
        if lo == 0 and isbv(v) and v.decl().kind() in LOWOPS and v.num_args() <= 4:
            ks = [norm(self.extract(norm(a), w, 0, n)) for a in v.children()]
            r = bv(ks[0], n); f = LOWOPS[v.decl().kind()]
            for k in ks[1:]: r = f(r, bv(k, n))
            return norm(r)
        return norm(z3.Extract(lo + n - 1, lo, v))
    def cat(self, parts):
        if len(parts) == 1: return parts[0][0]
        flat = []
        for v, w in parts:
            if isinstance(v, Cat): flat += v.parts
            else: flat.append((v, w))
        parts = flat
        if all(v is UNDEF for v, _ in parts): return UNDEF
        if any(v is UNDEF for v, _ in parts) or any(lazy(v) for v, _ in parts):
            if all(isinstance(v, Mask) for v, _ in parts):
                c0 = parts[0][0].c
                if all(v.c is c0 or (isb(v.c) and isb(c0) and v.c.eq(c0)) for v, _ in parts):
                    return Mask(c0, sum(w for _, w in parts))
            return Cat(parts)
        if all(isinstance(v, int) for v, _ in parts):
            r = 0; p = 0
            for v, w in parts: r |= v << p; p += w
            return r
        return norm(z3.Concat(*[bv(v, w) for v, w in reversed(parts)]))
    def load(self, addr, ty):
        if ty.k == 'v':
            es = ty.e.n if ty.e.k != 'p' else 64
            if es % 8: raise Unsupported('load vec of i1')
            if not isinstance(addr, int): addr = self.concretize(addr, 64)
            return [self.fromraw(self.raw_load(addr + i * es // 8, es // 8), ty.e) for i in range(ty.n)]
        if ty.k in 'sa':
            if not isinstance(addr, int): addr = self.concretize(addr, 64)
            if ty.k == 's': return [self.load(addr + o, f) for o, f in zip(ty.offs, ty.fields)]
            return [self.load(addr + i * ty.e.size, ty.e) for i in range(ty.n)]
        n = ty.ssize
        if not isinstance(addr, int):
            v = self.table_load(addr, n) if self.opts.get('table', True) else None
            if v is not None: return self.fromraw(v, ty)
        v = self.raw_load(addr, n)
        return self.fromraw(v, ty)
    def table_load(self, addr, n):
        """load at a symbolic offset inside one small, fully defined object: a multiplexer over its contents (None: not applicable)"""
        a = norm(bv(addr, 64))
        if isinstance(a, int): return None
        base = self.tlobj.get(a.get_id())
        if base is None:
            if self.check() != z3.sat: return None
            base = self.slv().model().eval(a, True).as_long()
        o = self.objs.get(base >> OBJ_SHIFT) if base is not None else None
        if o is None or not o.alive or not n <= o.size <= 1024: return None
        off = norm(a - o.base)
        if isinstance(off, int): return None
        key = ('tl', a.get_id(), n)
        if key not in self.tlseen:
            if self.check(z3.UGT(off, o.size - n)) != z3.unsat: return None
            self.tlseen.add(key); self.tlkeep.append(a); self.tlobj[a.get_id()] = o.base
        vals = {}
        step = n
        while step > 1 and self.check(z3.URem(off, z3.BitVecVal(step, 64)) != 0) != z3.unsat: step = 1
        for k in range(0, o.size - n + 1, step):
            v = self.raw_load(o.base + k, n)
            if v is UNDEF or lazy(v) or isinstance(v, Cat): return None
            vals[k] = bv(v, 8 * n)
        bits = max(1, (o.size - 1).bit_length()); ob = z3.Extract(bits - 1, 0, off)
        def mux(lo, b):
            if b < 0: return vals.get(lo)
            x, y = mux(lo, b - 1), mux(lo | 1 << b, b - 1)
            if x is None: return y
            if y is None or x.eq(y): return x
            return z3.If(z3.Extract(b, b, ob) == 1, y, x)
        return norm(mux(0, bits - 1))
    def fromraw(self, v, ty):
        if ty.k == 'i' and ty.n == 1:
            if isinstance(v, int): return bool(v & 1)
            if isb(v) or isinstance(v, bool): return v
            return norm(z3.Extract(0, 0, bv(v, 8)) == 1)
        if ty.k == 'i' and ty.n % 8:
            return self.extract(v, ty.ssize * 8, 0, ty.n)
        return v
    def store(self, addr, v, ty):
        if ty.k == 'v':
            es = ty.e.n if ty.e.k != 'p' else 64
            if es % 8:
                raise Unsupported('store vec of i1')
            if not isinstance(addr, int): addr = self.concretize(addr, 64)
            for i in range(ty.n): self.raw_store(addr + i * es // 8, v[i], es // 8)
            return
        if ty.k in 'sa':
            if not isinstance(addr, int): addr = self.concretize(addr, 64)
            if v is UNDEF: return
            if ty.k == 's':
                for o, f, x in zip(ty.offs, ty.fields, v): self.store(addr + o, x, f)
            else:
                for i in range(ty.n): self.store(addr + i * ty.e.size, v[i], ty.e)
            return
        if ty.k == 'i' and ty.n == 1:
            v = int(v) if isinstance(v, bool) else (z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if isb(v) else v)
        elif ty.k == 'i' and ty.n % 8 and not isinstance(v, int):
            v = z3.ZeroExt(ty.ssize * 8 - ty.n, bv(v, ty.n))
        self.raw_store(addr, v, ty.ssize)
    def memcpy(self, d, s, n):
        n = self.concretize(n, 64)
        if n == 0: return
        so, soff = self.obj(s); do, doff = self.obj(d)
        if soff < 0 or soff + n > so.size: raise MemError('memcpy source out of bounds')
        if doff < 0 or doff + n > do.size: raise MemError('memcpy dest out of bounds')
        # collect exact cells
        items = []; p = 0
        while p < n:
            c = so.cells.get(soff + p)
            if c is not None and p + c[1] <= n: items.append((p, c[0], c[1])); p += c[1]; continue
            inside = c is not None
            if not inside:
                for k in range(max(0, soff + p - 15), soff + p):
                    ck = so.cells.get(k)
                    if ck is not None and k + ck[1] > soff + p: inside = True; break
            if inside: items.append((p, self.raw_load(so.base + soff + p, 1), 1))
            else: items.append((p, UNDEF, 1))
            p += 1
        for p, v, m in items: self.raw_store(do.base + doff + p, v, m)
    def memset(self, d, v, n):
        n = self.concretize(n, 64)
        if n == 0: return
        o, off = self.obj(d); p = 0
        if off < 0 or off + n > o.size: raise MemError('memset out of bounds')
        while p < n:
            m = 4 if (off + p) % 4 == 0 and n - p >= 4 else 1
            x = v
            if isinstance(v, int): x = v * 0x01010101 if m == 4 else v
            elif m == 4: x = norm(z3.Concat(v, v, v, v))
            self.raw_store(o.base + off + p, x, m); p += m

    def gaddr(self, name):
        a = self.globaddr.get(name)
        if a is None:
            if name in self.mod.globals:
                ty, init = self.mod.global_init(name)
                a = self.alloc(max(ty.size, 1), '@' + name); self.globaddr[name] = a
                if init is not None: self.init_store(a, init, ty)
            else:
                a = self.fnaddr.get(name)
                if a is None:
                    a = self.alloc(1, '@fn ' + name); self.fnaddr[name] = a; self.addrfn[a] = name
        return a
    def init_store(self, a, v, ty):
        if ty.k in 'av':
            for i in range(ty.n): self.init_store(a + i * ty.e.size, v[i], ty.e)
        elif ty.k == 's':
            for o, f, x in zip(ty.offs, ty.fields, v): self.init_store(a + o, x, f)
        else: self.store(a, self.cv(v), ty)
    def cv(self, c):
        """python constant from IR -> runtime value"""
        if isinstance(c, int): return c
        if isinstance(c, FC):
            return c.bits
        if isinstance(c, tuple): return self.gaddr(c[1]) + c[2]
        if isinstance(c, list): return [self.cv(x) for x in c]
        return c

from symexec import fb_real, conc_fop, conc_fcmp, RM, run_function  # noqa: E402  (split for size)
Ctx.run = run_function
