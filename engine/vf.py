"""Harness framework: symbolic proof of claims over real code, counterexample replay on the real build, evidence."""
import os, sys, json, time, hashlib, subprocess, ctypes, struct, random, signal, pickle, traceback, math, select as _select, re
from fractions import Fraction as Fr
import z3
import ir, sym
from sym import (Lin, Ctx, R, Stats, Infeasible, MemError, PathEnd, SpecialValue, Unsupported, UNDEF, bv, norm, band, bor, bnot, tob,
                 isb, isbv, f2b, b2f, lazy, real_bits, TooBig)
from symexec import ibin, icmp, fcmp, select as sel, mk_li, sgn, itofp, fptoi
import models

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
# the first three with the library's assertions on (one that fires in a valid use is a violation), the others without
CFGS = {'sse2': [], 'sse41': ['-msse4.1'], 'haswell': ['-march=haswell'], 'scalar': ['-DNDEBUG', '-include', VERIF + '/harness/scalar_env.hpp'],
        'neon': ['-DNDEBUG', '-I' + VERIF + '/harness/neon', '-include', VERIF + '/harness/neon_env.hpp']}
COMMON = ['-std=c++17', '-O2', '-D_USE_MATH_DEFINES', '-DNOMINMAX', '-w', '-I' + REPO + '/include', '-I' + VERIF + '/harness']
CLANG = ['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'] + COMMON + \
    ['-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-builtin-pow', '-fno-builtin-powf', '-fno-builtin-exp2', '-fno-builtin-exp2f', '-fno-builtin-log2f', '-fno-builtin-fmodf', '-emit-llvm', '-c', '-fno-threadsafe-statics']
GXX = ['g++'] + COMMON + ['-g', '-fPIC', '-shared', '-Wl,-z,defs']
M32 = 0xffffffff

class BuildError(Exception): pass

# ---------------------------------------------------------------------------------------------- words
class W:
    """32-bit word in specifications: works on concrete ints and z3 bit-vectors"""
    __slots__ = ('c', 'v', 'w')
    def __init__(s, c, v, w=32):
        s.c = c; s.w = w
        if isinstance(v, W): v = v.v
        if isinstance(v, int): v &= (1 << w) - 1
        s.v = v
    def _o(s, o): return o.v if isinstance(o, W) else (o & ((1 << s.w) - 1) if isinstance(o, int) else o)
    def _b(s, op, o): return W(s.c, ibin(s.c, op, s.v, s._o(o), s.w), s.w)
    def __add__(s, o): return s._b('add', o)
    def __sub__(s, o): return s._b('sub', o)
    def __mul__(s, o): return s._b('mul', o)
    def __and__(s, o): return s._b('and', o)
    def __or__(s, o): return s._b('or', o)
    def __xor__(s, o): return s._b('xor', o)
    def __radd__(s, o): return W(s.c, o, s.w) + s
    def __rsub__(s, o): return W(s.c, o, s.w) - s
    def shl(s, o): return s._b('shl', o)
    def shr(s, o): return s._b('lshr', o)
    def sar(s, o): return s._b('ashr', o)
    def udiv(s, o): return s._b('udiv', o)
    def sdiv(s, o): return s._b('sdiv', o)
    def urem(s, o): return s._b('urem', o)
    def srem(s, o): return s._b('srem', o)
    def __neg__(s): return W(s.c, 0, s.w) - s
    def __invert__(s): return s ^ ((1 << s.w) - 1)
    def cmp(s, p, o): return icmp(s.c, p, s.v, s._o(o), s.w)
    def eq(s, o): return s.cmp('eq', o)
    def ne(s, o): return s.cmp('ne', o)
    def ult(s, o): return s.cmp('ult', o)
    def ule(s, o): return s.cmp('ule', o)
    def slt(s, o): return s.cmp('slt', o)
    def sle(s, o): return s.cmp('sle', o)
    def bits(s, lo, n): return W(s.c, s.c.extract(s.v, s.w, lo, n), n)
    def zext(s, n): return W(s.c, s.c.cat([(s.v, s.w), (0, n - s.w)]), n) if n > s.w else s
    def sext(s, n):
        if n <= s.w: return s
        if isinstance(s.v, int): return W(s.c, sgn(s.v, s.w), n)
        return W(s.c, norm(z3.SignExt(n - s.w, s.v)), n)
    def signed(s): return sgn(s.v, s.w)

class Claim:
    __slots__ = ('name', 'kind', 'neg', 'negm', 'viol', 'vals', 'disc')      # disc: signed amount by which a numeric claim fails (exact)

class Env:
    """spec environment, symbolic or concrete"""
    def __init__(s, ctx, h, f, i, of=None, oi=None, virt=None):
        s.c = ctx; s.h = h; s.f = f; s.iraw = i; s.claims = []; s.ofraw = of; s.oiraw = oi; s.virt = virt or []
        s.conc = ctx.concrete
        s.skip = False; s.tight = None; s.exact = False; s._disc = None
        s.i = [W(ctx, x) for x in i]
        if of is not None:
            s.of = s._mkof(of); s.oi = [W(ctx, x) if x is not UNDEF and not lazy(x) or isinstance(x, sym.Mask) or isinstance(x, sym.LI) else x for x in oi]
            s.oi = [W(ctx, bv(x.v, 32)) if isinstance(x, W) and lazy(x.v) else x for x in s.oi]
            for x in s.oi:
                if isinstance(x, W): x.v = norm(x.v)
    def _mkof(s, of):
        if s.c.mode == 'bits': return of
        r = []
        for x in of:
            if isinstance(x, int) and s.c.special(x): r.append(x)       # inf / nan stay bit patterns
            elif x is UNDEF: r.append(UNDEF)
            else:
                try: r.append(s.c.toR(x))
                except Unsupported: r.append(x)
        return r
    # --- helpers
    def k(s, x): return s.c.rc(Fr(x)) if s.c.mode == 'real' else x
    def w(s, x, n=32): return W(s.c, x, n)
    def isnum(s, x): return isinstance(x, R)
    def sqrt(s, x): return s.c.rsqrt_sym(s._r(x))
    def abs(s, x): return s.c.rabs(s._r(x))
    def _r(s, x): return x if isinstance(x, R) else s.c.rc(Fr(x))
    def min(s, a, b): a, b = s._r(a), s._r(b); return s.c.ite(s.c.rcmp('lt', b, a), b, a)
    def max(s, a, b): a, b = s._r(a), s._r(b); return s.c.ite(s.c.rcmp('lt', a, b), b, a)
    def ite(s, cnd, a, b): return s.c.ite(cnd, s._r(a), s._r(b))
    def lt(s, a, b): return s.c.rcmp('lt', s._r(a), s._r(b))
    def le(s, a, b): return s.c.rcmp('le', s._r(a), s._r(b))
    def eqc(s, a, b): return s.c.rcmp('eq', s._r(a), s._r(b))
    def AND(s, *cs):
        r = True
        for c in cs: r = band(r, c)
        return r
    def OR(s, *cs):
        r = False
        for c in cs: r = bor(r, c)
        return r
    def NOT(s, c): return bnot(c)
    def IMP(s, a, b): return bor(bnot(a), b)
    def IFF(s, a, b): return norm(tob(a) == tob(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
    def nz(s, w): return w.ne(0)
    def libm(s, name, *a): return models.real_libm(s.c, name, [s._r(x) for x in a])
    # bits-mode float ops
    def fadd(s, a, b): return s.c.fop('fadd', a, b)
    def fsub(s, a, b): return s.c.fop('fsub', a, b)
    def fmul(s, a, b): return s.c.fop('fmul', a, b)
    def fdiv(s, a, b): return s.c.fop('fdiv', a, b)
    def fop(s, op, *a): return s.c.fop(op, *a)
    def fcmp(s, p, a, b): return fcmp(s.c, p, a, b, 32)
    def itof(s, w, signed=True): return itofp(s.c, w.v, w.w, signed, 32)
    def ftoi(s, a, signed=True): return W(s.c, fptoi(s.c, a, 32, signed, 32))
    def libmf(s, name, *a): return models.libm_call(s.c, name, list(a), 32)
    def F(s, x): return f2b(x)       # float literal as bits
    def isnan(s, a): return fcmp(s.c, 'uno', a, a, 32)
    def sel(s, c, a, b, w=32):
        if isinstance(c, bool): return a if c else b
        return norm(z3.If(c, bv(a, w), bv(b, w)))
    # --- assumptions
    def assume(s, cnd):
        if s.conc:
            if cnd is False: s.skip = True
            return
        s.c.assume(cnd)
    def unitbox(s, vs):
        """assume -1 <= v <= 1 for plain variables; products of them are then bounded in the linear abstraction as well"""
        for v in vs: s.assume(s.le(-1, v)); s.assume(s.le(v, 1))
        if not s.conc:
            s.c.unitvars = getattr(s.c, 'unitvars', set()) | {s.c.zr(v).get_id() for v in vs}
    def positive(s, x):
        if s.conc: s.assume(s.lt(0, x))
        else: s.c.positive(x)
    # --- claims
    def _add(s, name, neg, viol, negm=None, vals=None):
        c = Claim(); c.name = name; c.neg = neg; c.viol = viol; c.negm = negm; c.vals = vals; c.kind = ''; c.disc = s._disc; s._disc = None
        s.claims.append(c)
    def eq(s, name, a, b, tol=None):
        """real-mode equality (exact over the reals; tol only for the replay on the real build)"""
        tol = s.h.tol if tol is None else tol
        if s.conc:
            if not isinstance(a, R) or not isinstance(b, R):
                s._add(name, None, not (isinstance(a, int) and isinstance(b, int) and a == b), vals=(a, b)); return
            x, y = a.const(), b.const(); s._disc = x - y
            if s.tight: tol = min(tol, s.tight)
            if s.exact: tol = 0
            s._add(name, None, abs(x - y) > Fr(tol) * max(1, abs(y), s.scale()), vals=(float(x), float(y))); return
        if not isinstance(a, R) or not isinstance(b, R):
            if isinstance(a, int) and isinstance(b, int): s._add(name, a != b, None); return
            s._add(name, True, None); return
        d = s.c.radd(a, s.c.rneg(b))
        ne = bnot(s.c.rcmp('eq', d, s.c.rc(0)))
        m = None
        if ne is not False and not isinstance(ne, bool):
            def mk(mult, a=a, b=b, d=d):
                z = s.c.zr(d); zb = s.c.zr(b)
                t = z3.RealVal(str(Fr(tol) * Fr(mult)))
                az = z3.If(zb < 0, -zb, zb); sc = z3.If(az < 1, z3.RealVal(1), az)
                return z3.Or(z > t * sc, -z > t * sc)
            m = mk
        s._add(name, ne, None, m)
    def scale(s): return getattr(s, '_scale', 1)
    def near(s, name, a, b, eps, tol=None):
        """|a-b| <= eps over the reals"""
        tol = s.h.tol if tol is None else tol
        if s.conc:
            if not isinstance(a, R): s._add(name, None, True, vals=(a, None)); return
            b = s._r(b)
            x, y = a.const(), b.const(); s._disc = (1 if x > y else -1) * max(Fr(0), abs(x - y) - Fr(eps))
            if s.tight: tol = min(tol, s.tight)
            if s.exact: tol = 0
            s._add(name, None, abs(x - y) > Fr(eps) + Fr(tol) * max(1, abs(y)), vals=(float(x), float(y))); return
        if not isinstance(a, R): s._add(name, True, None); return
        b = s._r(b)
        d = s.c.radd(a, s.c.rneg(b)); e = s.c.rc(Fr(eps))
        ne = bor(s.c.rcmp('lt', e, d), s.c.rcmp('lt', d, s.c.rneg(e)))
        def mk(mult, b=b, d=d, eps=eps):
            z = s.c.zr(d); zb = s.c.zr(b)
            az = z3.If(zb < 0, -zb, zb); sc = z3.If(az < 1, z3.RealVal(1), az)
            t = z3.RealVal(str(Fr(tol) * Fr(mult))) * sc + z3.RealVal(str(Fr(eps)))
            return z3.Or(z > t, -z > t)
        s._add(name, ne, None, mk if not isinstance(ne, bool) else None)
    def le_(s, name, a, b, tol=None):
        tol = s.h.tol if tol is None else tol
        if isinstance(b, int) and not s.c.special(b): b = s._r(b)
        if isinstance(b, (float, Fr)): b = s._r(b)
        if s.conc:
            if not (isinstance(a, R) and isinstance(b, R)):
                s._add(name, None, True, vals=(a, b)); return
            x, y = a.const(), b.const(); s._disc = x - y
            if s.tight: tol = min(tol, s.tight)
            if s.exact: tol = 0
            s._add(name, None, x > y + Fr(tol) * max(1, abs(x), abs(y)), vals=(float(x), float(y))); return
        if not (isinstance(a, R) and isinstance(b, R)):
            s._add(name, True, None); return
        def mk(mult):
            return s.c.rcmp('lt', s.c.radd(b, s.c.rc(Fr(tol) * Fr(mult))), a)
        s._add(name, s.c.rcmp('lt', b, a), None, mk)
    def true(s, name, cnd, slacks=(), tol=None, vals=None):
        """boolean claim; slacks: real terms that must be away from zero for the replay to count"""
        tol = s.h.tol if tol is None else tol
        if s.conc:
            if s.tight: tol = min(tol, s.tight * 4)
            und = not s.exact and any(abs(x.const()) < Fr(tol) for x in slacks)
            s._add(name, None, (cnd is False) and not und, vals=vals); return
        neg = bnot(cnd); m = None
        if slacks:
            def mk(mult, slacks=slacks, neg=neg):
                cs = [tob(neg)]
                for x in slacks:
                    t = s.c.rc(Fr(tol) * Fr(mult))
                    cs.append(tob(bor(s.c.rcmp('lt', t, x), s.c.rcmp('lt', x, s.c.rneg(t)))))
                return z3.And(cs)
            m = mk
        s._add(name, neg, None, m)
    def iff(s, name, flag, cnd, slacks=(), tol=None):
        """integer flag (0/1 word) equals condition"""
        f = flag.ne(0) if isinstance(flag, W) else flag
        s.true(name, s.IFF(f, cnd), slacks, tol)
    def weq(s, name, a, b):
        """word equality"""
        if not isinstance(a, W): s._add(name, True, True); return
        r = a.eq(b)
        s.true(name, r, vals=(a.v if isinstance(a.v, int) else None, b.v if isinstance(b, W) and isinstance(b.v, int) else b if isinstance(b, int) else None))
    def beq(s, name, a, b):
        """bits-mode float equality: same bits, or both NaN"""
        if a is UNDEF: s._add(name, True, True); return
        if isinstance(a, int) and isinstance(b, int):
            na = (a & 0x7fffffff) > 0x7f800000; nb = (b & 0x7fffffff) > 0x7f800000
            s.true(name, a == b or (na and nb), vals=(b2f(a), b2f(b))); return
        if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): s.true(name, True); return
        def nan(x): return z3.UGT(bv(x, 32) & 0x7fffffff, 0x7f800000)
        s.true(name, z3.Or(bv(a, 32) == bv(b, 32), z3.And(nan(a), nan(b))))
    def bfeq(s, name, a, b):
        """bits-mode numeric equality (+0 == -0), or both NaN"""
        if a is UNDEF: s._add(name, True, True); return
        if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): s.true(name, True); return
        s.true(name, s.OR(fcmp(s.c, 'oeq', a, b, 32), s.AND(s.isnan(a), s.isnan(b))), vals=(b2f(a), b2f(b)) if s.conc else None)

class H:
    def __init__(s, name, cxx, spec, nf=0, ni=0, nof=0, noi=0, mode='real', pre=None, derive=None, nvirt=0, cfgs=None, opts=None,
                 box=8, tol=2e-3, unit=(), tier='quick', gen=None, timeout=None, iw=None, project=None, head='', known=None, posv=(),
                 intrange=None, bound='', asan=False, budget=None, search=None):
        s.name = name; s.cxx = cxx; s.spec = spec; s.nf = nf; s.ni = ni; s.nof = nof; s.noi = noi; s.mode = mode; s.pre = pre
        s.derive = derive; s.nvirt = nvirt; s.cfgs = [os.environ['VERIF_CFG']] if os.environ.get('VERIF_CFG') else cfgs or ['sse2', 'haswell']; s.opts = opts or {}; s.box = box; s.tol = tol
        s.unit = unit; s.tier = tier; s.gen = gen; s.timeout = timeout; s.project = project; s.head = head; s.known = known or []
        s.posv = posv; s.bound = bound; s.asan = asan; s.intrange = intrange or {}; s.budget = budget; s.search = search

    def source(s):
        return (f'extern "C" __attribute__((noinline)) void {s.name}(const float* __restrict f, const int32_t* __restrict i, '
                f'float* __restrict of, int32_t* __restrict oi)\n{{\n{s.cxx}\n}}\n')

# ---------------------------------------------------------------------------------------------- build
PRE = '#include "vf.hpp"\n'

class Build:
    def __init__(self, prop, harnesses, extra_src=(), head='', irflags=()):
        self.irflags = list(irflags)
        self.prop = prop; self.hs = harnesses; self.dir = os.path.join(VERIF, 'build', prop); self.extra = list(extra_src); self.head = head
        os.makedirs(self.dir, exist_ok=True)
    def files(self, cfg): return (f'{self.dir}/{cfg}.bc', f'{self.dir}/{cfg}.so')
    def build(self, cfgs):
        jobs = []
        for cfg in cfgs:
            src = f'{self.dir}/{cfg}.cpp'
            heads = []
            for h in self.hs:
                if cfg in h.cfgs and h.head and h.head not in heads: heads.append(h.head)
            txt = self.head + PRE + ''.join(f'#include "{REPO}/{e}"\n' for e in self.extra) + '\n'.join(heads) + '\n' + \
                ''.join(h.source() for h in self.hs if cfg in h.cfgs)
            open(src, 'w').write(txt)
            bc, so = self.files(cfg)
            fl = CFGS[cfg]
            jobs.append((cfg, subprocess.Popen(CLANG + fl + self.irflags + [src, '-o', bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            jobs.append((cfg, subprocess.Popen(GXX + fl + [src, '-o', so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        errs = {}
        for cfg, p in jobs:
            o = p.communicate()[0]
            if p.returncode: errs.setdefault(cfg, o.decode()[-3000:])
        if errs:
            e = BuildError(' | '.join(f'{self.prop}/{c}: ' + o for c, o in errs.items())); e.cfgs = set(errs)
            raise e

ALTS = ('scalar', 'neon')      # configurations other than the one this machine runs natively

def _drop_alt(self, cfg):
    """take an alternative configuration off the harnesses that do not compile in it"""
    hs = [h for h in self.hs if cfg in h.cfgs]; bad = self.compiles(hs, cfg)
    for h in hs:
        if h.name in bad: h.cfgs = [c for c in h.cfgs if c != cfg]
    if any(cfg in h.cfgs for h in self.hs):
        try: self.build([cfg]); return sorted(bad)
        except BuildError: pass
    for h in self.hs: h.cfgs = [c for c in h.cfgs if c != cfg]
    return sorted(h.name for h in hs)

def _compiles(self, hs, cfg=None):
    """names and messages of the harnesses that do not compile"""
    def one(h):
        src = f'{self.dir}/one_{h.name}.cpp'
        open(src, 'w').write(self.head + PRE + ''.join(f'#include "{REPO}/{e}"\n' for e in self.extra) + h.head + '\n' + h.source())
        p = subprocess.run(CLANG[:1] + COMMON + CFGS[cfg or h.cfgs[0]] + ['-O0', '-shared', '-fPIC', '-Wl,-z,defs', src, '-o', src + '.so'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(src)
        if os.path.exists(src + '.so'): os.unlink(src + '.so')
        return p.returncode, p.stdout.decode()[:400]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, hs))
    return {h.name: o for h, (rc, o) in zip(hs, rs) if rc}

def _drop(self, cfgs):
    """remove harnesses that no longer compile (API changed under them)"""
    bad = self.compiles(self.hs)
    self.hs = [h for h in self.hs if h.name not in bad]
    return list(bad.items())
Build.drop_broken = _drop; Build.drop_alt = _drop_alt; Build.compiles = _compiles

_libs = {}
def native(so, h, fvals, ivals, timeout=20):
    """run the real code in a child process; fvals: 32-bit patterns, ivals: 32-bit words. -> ('ok', of, oi) or ('crash', what)"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); signal.alarm(timeout)
            lib = ctypes.CDLL(so)
            def arr(n, v=()):      # at 4 modulo 16: what an array of floats may be placed at
                b = (ctypes.c_uint32 * (n + 8))(); o = (4 - ctypes.addressof(b)) % 16 // 4
                a = (ctypes.c_uint32 * n).from_buffer(b, 4 * o); a[:len(v)] = v; return a
            F = arr(max(len(fvals) + 16, 64), fvals); I = arr(max(len(ivals) + 16, 64), ivals)
            OF = arr(h.nof + 64); OI = arr(h.noi + 64)
            fn = getattr(lib, h.name); fn.restype = None
            fn(F, I, OF, OI)
            os.write(w, pickle.dumps((list(OF)[:h.nof], list(OI)[:h.noi])))
            os._exit(0)
        except BaseException as e:
            os._exit(97)
    os.close(w); data = b''
    while True:
        b = os.read(r, 65536)
        if not b: break
        data += b
    os.close(r); _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): return ('crash', f'signal {os.WTERMSIG(st)}')
    if not data: return ('crash', f'exit {os.WEXITSTATUS(st)}')
    a, b = pickle.loads(data)
    return ('ok', a, b)

# ---------------------------------------------------------------------------------------------- running
_mods = {}
def get_mod(path):
    m = _mods.get(path)
    if m is None: m = _mods[path] = ir.Module(path)
    return m

def run_ctors(ctx):
    """execute global constructors (dynamic initialisers of inline constants) on the concrete state"""
    mod = ctx.mod
    if 'llvm.global_ctors' not in mod.globals: return
    ty, init = mod.global_init('llvm.global_ctors')
    for ent in init or []:
        fn = ent[1]
        if isinstance(fn, tuple):
            try: ctx.run(fn[1], [])
            except (Unsupported, MemError, PathEnd, SpecialValue, TypeError, KeyError): ctx.stats.notes.add('ctor skipped ' + fn[1])

def snapshot_globals(mod, mode, path):
    key = (path, mode)
    if key in _snap: return _snap[key]
    st = Stats(); c = Ctx(mod, mode, [], st, {'maxinst': 3000000})
    c.concrete = True
    run_ctors(c)
    snap = [(n, c.objs[a >> sym.OBJ_SHIFT].size, dict(c.objs[a >> sym.OBJ_SHIFT].cells)) for n, a in c.globaddr.items() if n in mod.globals
            and not n.startswith('_ZGV') and n != 'llvm.global_ctors']
    # only data that does not contain pointers into the ctor context objects
    ok = []
    for n, size, cells in snap:
        cc = {}; bad = False
        for o, (v, w) in cells.items():
            if isinstance(v, R):
                k = v.const()
                b = real_bits(k) if k is not None else None
                if b is None: bad = True; break
                v = b
            if isinstance(v, int) and w == 8 and (v >> sym.OBJ_SHIFT) and (v >> sym.OBJ_SHIFT) < 4096: bad = True; break
            if not isinstance(v, (int, bool)) and v is not UNDEF: bad = True; break
            cc[o] = (v, w)
        if not bad: ok.append((n, size, cc))
    _snap[key] = ok
    return ok
_snap = {}

def setup_globals(ctx, snap):
    for n, size, cells in snap:
        a = ctx.alloc(size, '@' + n); ctx.globaddr[n] = a
        ctx.objs[a >> sym.OBJ_SHIFT].cells = dict(cells)

def make_inputs(ctx, h):
    """symbolic inputs"""
    if h.mode == 'real':
        f = [ctx.newreal(f'f{k}', ('in', 'f', k)) for k in range(h.nf)]
        virt = [ctx.newreal(f'v{k}', ('in', 'v', k)) for k in range(h.nvirt)]
        for k, x in (ctx.opts.get('fix') or {}).items():      # specialised exploration: this input is a number
            ctx.pc.append(ctx.syms[k] == z3.RealVal(str(x)))
            if k < h.nf: f[k] = ctx.rc(x)
            else: virt[k - h.nf] = ctx.rc(x)
        for k in h.posv:
            ctx.posvars.add(k); ctx.pc.append(ctx.syms[k] > 0)
        for grp in h.unit:
            # sum of squares == 1, as rewrite rule on the last member
            v = grp[-1]
            if all(g in (ctx.opts.get('fix') or {}) for g in grp): continue
            p = sym.Poly.const(1)
            for g in grp[:-1]: p = p - sym.Poly({((g, 2),): Fr(1)})
            ctx.rules[v] = p
            ctx.pc.append(ctx.zpoly(p) == ctx.syms[v] * ctx.syms[v])
    else:
        f = [z3.BitVec(f'f{k}', 32) for k in range(h.nf)]; virt = []
    i = []
    for k in range(h.ni):
        x = z3.BitVec(f'i{k}', 32); i.append(x)
    return f, i, virt

def sym_run(mod, snap, h, prefix, stats, deadline, extra_opts=None):
    opts = dict(h.opts); opts['deadline'] = deadline
    if extra_opts: opts.update(extra_opts)
    c = Ctx(mod, h.mode, prefix, stats, opts)
    setup_globals(c, snap)
    f, i, virt = make_inputs(c, h)
    c.inf, c.ini, c.inv = list(f), list(i), list(virt)
    E = Env(c, h, f, i, virt=virt)
    if h.derive: h.derive(E); f = E.f
    for k, (lo, hi) in h.intrange.items():
        E.assume(band(W(c, lo).sle(i[k]), W(c, i[k]).sle(hi)))
    if h.pre: h.pre(E)
    of, oi = exec_harness(c, h, f, [x.v for x in E.i])
    return c, Env(c, h, f, [x.v for x in E.i], of, oi, virt)

def exec_harness(c, h, f, i):
    fa = c.alloc(4 * max(h.nf, 1), 'in.f'); ia = c.alloc(4 * max(h.ni, 1), 'in.i')
    oa = c.alloc(4 * max(h.nof, 1), 'out.f'); ob = c.alloc(4 * max(h.noi, 1), 'out.i')
    for a in (fa, ia, oa, ob): c.objs[a >> sym.OBJ_SHIFT].al = 4     # arrays of float and int32 may lie at any multiple of 4
    for k, v in enumerate(f): c.raw_store(fa + 4 * k, v, 4)
    for k, v in enumerate(i): c.raw_store(ia + 4 * k, v, 4)
    c.run(h.name, [fa, ia, oa, ob])
    of = [c.raw_load(oa + 4 * k, 4) for k in range(h.nof)]; oi = [c.raw_load(ob + 4 * k, 4) for k in range(h.noi)]
    return of, oi

def conc_ctx(mod, h):
    st = Stats()
    o = {k: v for k, v in h.opts.items()}
    o['concrete'] = True
    c = Ctx(mod, h.mode, [], st, o); c.concrete = True
    return c

def conc_env(mod, h, fb, ib, ofb, oib, virt=None, tight=None, exact=False):
    """evaluate the specification on concrete inputs and the outputs of the real code"""
    c = conc_ctx(mod, h)
    def cf(b):
        if h.mode == 'bits': return b
        if (b >> 23) & 0xff == 0xff: return b
        return c.rc(Fr(b2f(b)))
    f = [cf(b) for b in fb]
    E0 = Env(c, h, f, list(ib), virt=[c.rc(x) for x in (virt or [])])
    for k, (lo, hi) in h.intrange.items():
        E0.assume(lo <= sgn(ib[k], 32) <= hi)
    if h.pre: h.pre(E0)
    E = Env(c, h, f, list(ib), [b if h.mode == 'bits' else cf(b) for b in ofb], list(oib), virt=E0.virt)
    E.skip = E0.skip; E.tight = tight; E.exact = exact
    # scale for tolerances: magnitude of inputs
    if not E.skip: h.spec(E)
    return E

def derive_conc(mod, h, fb, virt):
    """apply h.derive on concrete virtual inputs -> float bits"""
    c = conc_ctx(mod, h)
    f = [c.rc(Fr(b2f(b))) for b in fb]
    E = Env(c, h, f, [], virt=[c.rc(x) for x in virt])
    h.derive(E)
    return [f2b(float(x.const())) for x in E.f]

def project_unit(h, fv, vv):
    allv = list(fv) + list(vv)
    for grp in h.unit:
        n = math.sqrt(sum(float(allv[g]) ** 2 for g in grp))
        if n > 1e-12:
            for g in grp: allv[g] = Fr(float(allv[g]) / n)
        else: allv[grp[0]] = Fr(1)
    return allv[:len(fv)], allv[len(fv):]

def zval(m, t):
    v = m.eval(t, True)
    if z3.is_rational_value(v): return v.as_fraction()
    if z3.is_algebraic_value(v): return v.approx(20).as_fraction()
    return Fr(0)

def model_inputs(c, h, m):
    """z3 model -> (float bit patterns, ints, virt)"""
    ib = [m.eval(x, True).as_long() if isbv(x) else int(x) for x in c.ini]
    if h.mode == 'bits':
        fb = [m.eval(x, True).as_long() for x in c.inf]
        return fb, ib, []
    fv = [zval(m, c.syms[k]) for k in range(h.nf)]
    vv = [zval(m, c.syms[h.nf + k]) for k in range(h.nvirt)]
    return finish_inputs(c.mod, h, fv, vv), ib, finish_inputs.virt

def finish_inputs(mod, h, fv, vv):
    fv, vv = project_unit(h, fv, vv)
    if h.project: fv, vv = h.project(fv, vv)
    fb = []
    for x in fv:
        try: fb.append(f2b(float(x)))
        except OverflowError: fb.append(0x7f7fffff)
    vv = [Fr(float(x)) for x in vv]
    if h.derive and h.mode == 'real': fb = derive_conc(mod, h, fb, vv)
    finish_inputs.virt = vv
    return fb

def replay(so, mod, h, fb, ib, virt):
    """-> list of violated claim names (with values), or crash"""
    r = native(so, h, fb, ib)
    if r[0] == 'crash':
        E = None
        try:
            c = conc_ctx(mod, h)
            f = [b if h.mode == 'bits' else c.rc(Fr(b2f(b))) for b in fb]
            E0 = Env(c, h, f, list(ib), virt=[c.rc(x) for x in (virt or [])])
            for k, (lo, hi) in h.intrange.items(): E0.assume(lo <= sgn(ib[k], 32) <= hi)
            if h.pre: h.pre(E0)
            if E0.skip: return [], r
        except Exception: pass
        return [('crash: ' + r[1], None)], r
    try: E = conc_env(mod, h, fb, ib, r[1], r[2], virt)
    except (SpecialValue, PathEnd, Unsupported, ZeroDivisionError, OverflowError) as e:
        return [], ('specfail', repr(e))
    if E.skip: return [], ('skip',)
    return [(c.name, c.vals) for c in E.claims if c.viol], r

def tight_replay(so, mod, h, fb, ib, virt, snap):
    """confirm counterexamples smaller than the replay tolerance: the exact evaluation of the encoded code and the real build must both
    break the claim by clearly more than float rounding, and agree with each other about how much"""
    if h.mode != 'real' or h.opts.get('novalidate'): return [], None
    tight = 3e-4 if h.unit or h.derive or h.project else 3e-5
    try:
        c = conc_ctx(mod, h); setup_globals(c, snap)
        if any((b >> 23) & 0xff == 0xff for b in fb): return [], None
        f = [c.rc(Fr(b2f(b))) for b in fb]
        E0 = Env(c, h, f, list(ib), virt=[c.rc(x) for x in (virt or [])])
        for k, (lo, hi) in h.intrange.items(): E0.assume(lo <= sgn(ib[k], 32) <= hi)
        if h.pre: h.pre(E0)
        if E0.skip: return [], None
        c.inexact = False
        of, oi = exec_harness(c, h, f, list(ib))
        exact = not c.inexact         # no operation of this run rounds: the real build computes the same numbers, no tolerance is needed
        E = Env(c, h, f, list(ib), of, oi, virt=E0.virt); E.tight = tight; E.exact = exact
        h.spec(E)
        r = native(so, h, fb, ib)
        if r[0] != 'ok': return [], None
        N = conc_env(mod, h, fb, ib, r[1], r[2], virt, tight, exact)
    except (SpecialValue, PathEnd, Infeasible, Unsupported, MemError, ZeroDivisionError, OverflowError, TooBig, AttributeError, TypeError): return [], None
    ex = {x.name: x for x in E.claims if x.viol}; out = []
    for x in N.claims:
        e = ex.get(x.name)
        if not x.viol or e is None: continue
        if x.disc is not None and e.disc is not None and abs(x.disc - e.disc) > abs(e.disc) / 8: continue
        out.append((x.name, x.vals))
    return out, r

def asan_replay(bc, h, fb, ib):
    """run the real code under AddressSanitizer+UBSan(bounds); -> report line or None"""
    exe = bc[:-3] + '.asan'; src = bc[:-3] + '.cpp'; cfg = os.path.basename(bc)[:-3]
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(bc):
        tmp = f'{exe}.{os.getpid()}'
        p = subprocess.run(['g++'] + COMMON + CFGS[cfg] + ['-O1', '-g', '-fsanitize=address,shift-exponent,alignment', '-fno-sanitize-recover=all', src, VERIF + '/harness/asan_main.cpp', '-rdynamic', '-ldl', '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return None
        os.replace(tmp, exe)
    try:
        p = subprocess.run([exe, h.name, str(len(fb))] + [f'{x:x}' for x in list(fb) + list(ib)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0'))
    except subprocess.TimeoutExpired: return None
    o = p.stdout.decode(errors='replace')
    m = re.search(r'(?:ERROR: AddressSanitizer|runtime error): ([^\n]*)', o)
    return m.group(1)[:120] if m else None

def claim_match(c, v):
    return c == v

class Result:
    def __init__(s):
        s.name = ''; s.cfg = ''; s.paths = 0; s.claims = 0; s.discharged = 0; s.inconclusive = []; s.violations = []; s.unreproduced = []
        s.queries = 0; s.solver_time = 0; s.fns = []; s.validated = 0; s.valmismatch = []; s.notes = []; s.wall = 0; s.witness = 0
        s.div0 = 0; s.specialpaths = 0; s.trivial = 0; s.sample = None; s.error = None; s.reach = 0; s.slices = 0; s.slicepaths = 0; s.memerr = []; s.truncated = False

def boxed(c, h, b):
    return [z3.And(c.syms[k] >= -b, c.syms[k] <= b) for k in range(h.nf + h.nvirt)]

def solve_claim(c, neg, timeout, stats, nl=True):
    """is pc & neg satisfiable? portfolio of z3 configurations and cvc5"""
    t0 = time.time()
    fs = [x for x in c.pc] + [tob(neg)]
    order = []
    def z3try(mk, to):
        s = mk(); s.set('timeout', max(50, int(to * 1000)))
        for x in fs: s.add(x)
        t = time.time(); r = s.check(); stats.queries += 1; stats.time += time.time() - t
        return r, (s.model() if r == z3.sat else None)
    if c.mode == 'real':
        try:
            ln = Lin(); lf = [ln(x) for x in fs]
            if ln.nonlin:
                s = z3.SolverFor('QF_LRA'); s.set('timeout', max(50, int(timeout * 150))); s.add(lf)
                uv = getattr(c, 'unitvars', None)
                if uv:
                    for k, v in ln.vars.items():
                        if all(i in uv for i in k): s.add(v <= 1, v >= (0 if all(k.count(i) % 2 == 0 for i in set(k)) else -1))
                t = time.time(); r = s.check(); stats.queries += 1; stats.time += time.time() - t
                if r == z3.unsat: return r, None
        except z3.Z3Exception: pass
        tries = [(lambda: z3.Solver(), 0.25), (lambda: z3.SolverFor('QF_NRA') , 0.35), ]
        if c.opts.get('nra'): tries.reverse()
    else:
        try:
          for light in (False, True):
            ab = FpAbs(light); af = [ab(x) for x in fs]
            if ab.n:
                s = z3.SolverFor('QF_BVFP'); s.set('timeout', max(50, int(timeout * 150))); s.add(af + ab.ax)
                t = time.time(); r = s.check(); stats.queries += 1; stats.time += time.time() - t
                if r == z3.unsat: return r, None
        except z3.Z3Exception: pass
        tries = [(lambda: z3.SolverFor('QF_BVFP'), 0.5), (lambda: z3.Solver(), 0.25)]
    for mk, frac in tries:
        try: r, m = z3try(mk, timeout * frac)
        except z3.Z3Exception: continue
        if r != z3.unknown: return r, m
    # cvc5
    try:
        r = cvc5_check(fs, timeout * 0.4, stats)
        if r == 'unsat': return z3.unsat, None
    except Exception: pass
    return z3.unknown, None

class FpAbs:
    """over-approximation: the result of every IEEE arithmetic operation becomes a fresh value (same term, same value); unsat carries over"""
    KINDS = {getattr(z3, 'Z3_OP_FPA_' + k) for k in ('MUL', 'FMA', 'DIV', 'ADD', 'SUB', 'SQRT', 'REM', 'ROUND_TO_INTEGRAL', 'TO_SBV', 'TO_UBV')}
    LIGHT = {getattr(z3, 'Z3_OP_FPA_' + k) for k in ('MUL', 'FMA', 'DIV', 'SQRT', 'REM')}
    def __init__(s, light=False): s.memo = {}; s.n = 0; s.keep = []; s.tries = 0; s.ax = []; s.kinds = s.LIGHT if light else s.KINDS; s.bymul = {}
    def unit(s, m):
        """x * (+1 or -1) is x or its negation (NaN kept): applied when the solver shows the factor is always one of the two"""
        for a, x in ((m.arg(2), m.arg(1)), (m.arg(1), m.arg(2))):
            if z3.is_fp_value(a) or s.tries > 8 or a.num_args() == 0: continue
            s.tries += 1; a2 = s(a)
            q = z3.SolverFor('QF_BVFP'); q.set('timeout', 300)
            one = z3.FPVal(1.0, a.sort()); q.add(z3.Not(z3.Or(z3.fpEQ(a2, one), z3.fpEQ(a2, -one))))
            if q.check() == z3.unsat:
                x2 = s(x)
                return z3.If(z3.fpIsNaN(x2), z3.fpNaN(a.sort()), z3.If(z3.fpIsNegative(a2), z3.fpNeg(x2), x2))
        return None
    def __call__(s, e):
        st = [e]
        while st:
            x = st[-1]; k = x.get_id()
            if k in s.memo: st.pop(); continue
            if z3.is_app(x) and x.decl().kind() in s.kinds and x.num_args() > 1:
                s.n += 1; s.keep.append(x); u = s.unit(x) if x.decl().kind() == z3.Z3_OP_FPA_MUL else None
                s.memo[k] = z3.FreshConst(x.sort()) if u is None else u; st.pop()
                if u is None and x.decl().kind() in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV):
                    # sign rule (and no underflow when multiplying by a constant of magnitude >= 1)
                    r = s.memo[k]; y, w = s(x.arg(1)), s(x.arg(2))
                    s.ax.append(z3.Or(z3.fpIsNaN(r), z3.fpIsNegative(r) == z3.Xor(z3.fpIsNegative(y), z3.fpIsNegative(w))))
                    if x.decl().kind() == z3.Z3_OP_FPA_MUL:
                        for a, o in ((y, w), (w, y)):
                            if z3.is_fp_value(a) and z3.is_true(z3.simplify(z3.And(z3.fpGEQ(z3.fpAbs(a), z3.FPVal(1.0, a.sort())), z3.Not(z3.fpIsInf(a))))):
                                s.ax.append(z3.fpIsZero(r) == z3.fpIsZero(o)); s.ax.append(z3.fpIsNaN(r) == z3.fpIsNaN(o))
                            if z3.is_fp_value(a) and z3.is_true(z3.simplify(z3.And(z3.fpIsPositive(a), z3.Not(z3.fpIsInf(a)), z3.Not(z3.fpIsZero(a))))):
                                # monotone: compare with 1, and with every other product by the same constant
                                one = z3.FPVal(1.0, a.sort())
                                s.ax.append(z3.Implies(z3.fpLEQ(o, one), z3.fpLEQ(r, a))); s.ax.append(z3.Implies(z3.fpGEQ(o, one), z3.fpGEQ(r, a)))
                                for o2, r2 in s.bymul.get(a.sexpr(), [])[:12]:
                                    s.ax.append(z3.Implies(z3.fpLEQ(o, o2), z3.fpLEQ(r, r2))); s.ax.append(z3.Implies(z3.fpLEQ(o2, o), z3.fpLEQ(r2, r)))
                                s.bymul.setdefault(a.sexpr(), []).append((o, r))
                continue
            ch = x.children(); todo = [y for y in ch if y.get_id() not in s.memo]
            if todo: st.extend(todo); continue
            nc = [s.memo[y.get_id()] for y in ch]; s.keep.append(x)
            s.memo[k] = x.decl()(*nc) if any(not a.eq(b) for a, b in zip(ch, nc)) else x
            st.pop()
        return s.memo[e.get_id()]

def cvc5_check(fs, to, stats):
    s = z3.Solver(); s.add(fs)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    t = time.time()
    p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(to*1000)}', '--nl-cov', '-q', '-'] if 'Real' in txt else
                       ['cvc5', '--lang=smt2', f'--tlimit={int(to*1000)}', '-q', '-'], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=to + 5)
    stats.queries += 1; stats.time += time.time() - t
    o = p.stdout.decode()
    if '(error' in o: return 'unknown'
    return o.split('\n')[0].strip()

class SmallBV:
    """counterexample search: every real unknown restricted to a small dyadic number, the query bit-blasted (an under-approximation)"""
    def __init__(s, bits, frac): s.bits = bits; s.den = 1 << frac; s.memo = {}; s.vars = {}; s.keep = []
    def ext(s, v, w): return z3.SignExt(w - v.size(), v) if w > v.size() else v
    def wid(s, b):
        w = b.bit_length() + 1
        if w > 168: raise Unsupported('small search: width')
        return w
    def align(s, a, b):
        d = math.lcm(a[1], b[1])
        return s.scale(a, d // a[1], d), s.scale(b, d // b[1], d)
    def scale(s, a, k, d):
        if k == 1: return (a[0], d, a[2])
        b = a[2] * k; w = s.wid(b); return (s.ext(a[0], w) * z3.BitVecVal(k, w) if w >= a[0].size() else a[0] * k, d, b)
    def num(s, k): 
        n = abs(k.numerator); w = s.wid(n); return (z3.BitVecVal(k.numerator, w), k.denominator, n)
    def __call__(s, e):
        st = [e]
        while st:
            x = st[-1]; k = x.get_id()
            if k in s.memo: st.pop(); continue
            ch = x.children(); todo = [y for y in ch if y.get_id() not in s.memo]
            if todo: st.extend(todo); continue
            s.keep.append(x); s.memo[k] = s.one(x, [s.memo[y.get_id()] for y in ch]); st.pop()
        return s.memo[e.get_id()]
    def one(s, x, ch):
        kd = x.decl().kind()
        if z3.is_real(x):
            if z3.is_rational_value(x): return s.num(x.as_fraction())
            if kd == z3.Z3_OP_UNINTERPRETED and not ch:
                v = z3.BitVec(f'sb!{x.decl().name()}', s.bits); s.vars[x.get_id()] = v; s.keep.append(x); return (v, s.den, 1 << (s.bits - 1))
            if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                r = ch[0]
                for y in ch[1:]:
                    a, b = s.align(r, y); bd = a[2] + b[2]; w = s.wid(bd)
                    r = (s.ext(a[0], w) + s.ext(b[0], w) if kd == z3.Z3_OP_ADD else s.ext(a[0], w) - s.ext(b[0], w), a[1], bd)
                return r
            if kd == z3.Z3_OP_MUL:
                r = ch[0]
                for y in ch[1:]:
                    bd = r[2] * y[2]; w = s.wid(bd); w = max(w, r[0].size(), y[0].size()); r = (s.ext(r[0], w) * s.ext(y[0], w), r[1] * y[1], bd)
                return r
            if kd == z3.Z3_OP_UMINUS: w = ch[0][0].size() + 1; return (-s.ext(ch[0][0], w), ch[0][1], ch[0][2])
            if kd == z3.Z3_OP_ITE:
                a, b = s.align(ch[1], ch[2]); w = max(a[0].size(), b[0].size()); return (z3.If(ch[0], s.ext(a[0], w), s.ext(b[0], w)), a[1], max(a[2], b[2]))
            raise Unsupported('small search')
        if ch and isinstance(ch[0], tuple):
            a, b = s.align(ch[0], ch[1]); w = max(a[0].size(), b[0].size()); p, q = s.ext(a[0], w), s.ext(b[0], w)
            if kd == z3.Z3_OP_LE: return p <= q
            if kd == z3.Z3_OP_LT: return p < q
            if kd == z3.Z3_OP_GE: return p >= q
            if kd == z3.Z3_OP_GT: return p > q
            if kd == z3.Z3_OP_EQ: return p == q
            if kd == z3.Z3_OP_DISTINCT and len(ch) == 2: return p != q
            raise Unsupported('small search')
        if any(isinstance(y, tuple) for y in ch): raise Unsupported('small search')
        return x.decl()(*ch) if ch else x
    def val(s, m, x):
        v = s.vars.get(x.get_id())
        return Fr(m.eval(v, True).as_signed_long(), s.den) if v is not None else Fr(0)

def find_cex(c, h, E, claim, mod, so, rng, budget, stats, res, base_model=None):
    """search concrete inputs reproducing the violation on the real build"""
    tend = time.time() + budget
    tried = set()
    def attempt(m):
        try: fb, ib, virt = model_inputs(c, h, m)
        except (z3.Z3Exception, SpecialValue, ZeroDivisionError) as e: return None
        return attempt_vals(fb, ib, virt)
    def attempt_vals(fb, ib, virt):
        key = (tuple(fb), tuple(ib))
        if key in tried: return None
        tried.add(key)
        v, r = replay(so, mod, h, fb, ib, virt)
        if any(n == claim.name or n.startswith('crash') for n, _ in v) or (v and not claim.name): return fb, ib, virt, v, r
        if r[0] == 'ok' and claim.name:
            v, r = tight_replay(so, mod, h, fb, ib, virt, res.snap)
            if any(n == claim.name for n, _ in v): return fb, ib, virt, v, r
        return None
    if base_model is not None:
        x = attempt(base_model)
        if x: return x
    if h.search:
        # the path used an over-approximated callee: look for real inputs that show the same violation
        for k in range(4000):
            if time.time() > tend: return None
            fb, ib = h.search(rng); v, r = replay(so, mod, h, fb, ib, [])
            if any(n == claim.name or n.startswith('crash') for n, _ in v) or (v and not claim.name): return fb, ib, [], v, r
        return None
    if h.mode == 'bits':
        if base_model is None and c.inf and getattr(h, 'cfg', '') != 'haswell':      # haswell: the real build may contract products and sums
            # the solver did not decide the claim: models of this path alone, with part of the inputs fixed, replayed on the real build
            for k in range(24):
                if time.time() > tend - budget * 0.3: break
                s = z3.SolverFor('QF_BVFP'); s.set('timeout', 1500); s.add(c.pc)
                for j, x in enumerate(c.inf):
                    if k % 3 and rng.random() < 0.7: s.add(x == z3.BitVecVal(f2b(rng.choice([-1, 1]) * rng.choice([0.5, 1.5, 2.25, 3.0, 5.5])), 32))
                    else:
                        fx = c.fp(x); lim = rng.choice([1.0, 4.0, 16.0])
                        s.add(z3.fpLEQ(z3.fpAbs(fx), z3.FPVal(lim, sym.F32)), z3.fpGEQ(z3.fpAbs(fx), z3.FPVal(lim / 64, sym.F32)))
                r = s.check(); stats.queries += 1
                if r == z3.sat:
                    x = attempt(s.model())
                    if x: return x
        # a few alternative models
        s = z3.SolverFor('QF_BVFP'); s.set('timeout', 4000); s.add(c.pc); s.add(tob(claim.neg))
        for k in range(8):
            if time.time() > tend: return None
            extra = []
            if c.inf:
                f = [c.fp(x) for x in c.inf]
                if k % 2 == 0: extra = [z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.fpLT(z3.fpAbs(x), z3.FPVal(100.0, sym.F32))) for x in f]
            s.push(); s.add(extra)
            r = s.check()
            if r == z3.sat:
                x = attempt(s.model())
                if x: return x
                mm = s.model(); s.pop()
                s.add(z3.Or([y != mm.eval(y, True) for y in c.inf + c.ini]))
            else: s.pop()
        return None
    npc = len(c.pc)
    marg = []
    if claim.negm:
        for mult in (20, 3, 0.3, 0.03):
            try: marg.append(tob(claim.negm(mult)))
            except Exception: pass
    marg.append(tob(claim.neg))
    syms = [c.syms[k] for k in range(h.nf + h.nvirt)]
    freeunit = {g[-1] for g in h.unit}
    if base_model is None:
        # the solver did not decide the claim: models of this path alone, replayed on the real build
        for k in range(10):
            if time.time() > tend - budget * 0.6: break
            s = z3.SolverFor('QF_NRA'); s.set('timeout', 1500); s.add(c.pc)
            for j, x in enumerate(syms):
                if k: s.add(z3.And(x != 0, x >= -8, x <= 8))
                if k and rng.random() < 0.5: s.add(x > 0 if rng.random() < 0.5 else x < 0)
            try: r = s.check()
            except z3.Z3Exception: break
            stats.queries += 1
            if r == z3.sat:
                x = attempt(s.model())
                if x: return x
    # 0. small dyadic inputs, bit-blasted
    if not h.unit:
        for bits, frac in ((3, 0), (5, 1), (7, 3)):
            try:
                sb = SmallBV(bits, frac); fs = [sb(x) for x in list(c.pc) + [tob(claim.neg)]]
                s = z3.SolverFor('QF_BV'); s.set('timeout', 2500); s.add(fs); r = s.check()
            except (z3.Z3Exception, Unsupported): break
            stats.queries += 1
            if r != z3.sat: continue
            mm = s.model()
            try:
                ib = [mm.eval(x, True).as_long() if isbv(x) else int(x) for x in c.ini]
                fb = finish_inputs(mod, h, [sb.val(mm, c.syms[k]) for k in range(h.nf)], [sb.val(mm, c.syms[h.nf + k]) for k in range(h.nvirt)])
            except (SpecialValue, ZeroDivisionError, z3.Z3Exception): continue
            x = attempt_vals(fb, ib, finish_inputs.virt)
            if x: return x
    # 1. plain queries with box
    for goal in marg:
        for b in (4, 16, None):
            if time.time() > tend: break
            for mk in (z3.Solver, lambda: z3.SolverFor('QF_NRA')):
                s = mk(); s.set('timeout', 2500); s.add(c.pc); s.add(goal)
                if b: s.add([z3.And(x >= -b, x <= b) for x in syms])
                try: r = s.check()
                except z3.Z3Exception: continue
                stats.queries += 1
                if r == z3.sat:
                    x = attempt(s.model())
                    if x: return x
                    break
    # 2. partially fixed random dyadic inputs, solver completes the rest
    for goal in marg:
        for k in range(30):
            if time.time() > tend: return None
            s = z3.Solver(); s.set('timeout', 1500); s.add(c.pc); s.add(goal)
            ks = [j for j in range(len(syms)) if j not in freeunit]
            rng.shuffle(ks)
            nfix = len(ks) if k % 3 == 0 else max(0, len(ks) - rng.choice([1, 1, 2, 3]))
            for j in ks[:nfix]:
                s.add(syms[j] == z3.RealVal(str(Fr(rng.randint(-24, 24), 8))))
            try: r = s.check()
            except z3.Z3Exception: continue
            stats.queries += 1
            if r == z3.sat:
                x = attempt(s.model())
                if x: return x
    return None

def gen_inputs(h, rng):
    ib = []
    for k in range(h.ni):
        if k in h.intrange:
            lo, hi = h.intrange[k]; ib.append(rng.randint(lo, hi) & M32)
        else: ib.append(rng.choice([rng.getrandbits(32), rng.randint(-8, 8) & M32, rng.randint(0, 40)]))
    if h.mode == 'bits':
        fb = [rng.choice([f2b(rng.uniform(-10, 10)), f2b(float(rng.randint(-4, 4))), rng.getrandbits(32)]) for _ in range(h.nf)]
        return fb, ib, []
    fv = [Fr(rng.randint(-64, 64), 16) for _ in range(h.nf)]
    for k in h.posv:
        if k < h.nf: fv[k] = abs(fv[k]) + Fr(1, 16)
    vv = [Fr(rng.randint(-64, 64), 16) for _ in range(h.nvirt)]
    return fv, ib, vv

def validate(mod, so, h, rng, n, res, snap):
    """translator validation: same concrete inputs through the encoding and the real build"""
    for _ in range(n):
        fv, ib, vv = gen_inputs(h, rng)
        if h.gen: 
            g = h.gen(rng)
            fv, ib = g[0], g[1]; vv = g[2] if len(g) > 2 else []
        fb = fv if h.mode == 'bits' and not h.gen else (finish_inputs(mod, h, fv, vv) if h.mode == 'real' else [f2b(float(x)) if not isinstance(x, int) else x for x in fv])
        virt = getattr(finish_inputs, 'virt', []) if h.mode == 'real' else []
        validate_one(mod, so, h, fb, ib, virt, res, snap)

def validate_one(mod, so, h, fb, ib, virt, res, snap):
    if h.opts.get('novalidate'): return      # exact replay would not terminate (iterative code)
    c = conc_ctx(mod, h); setup_globals(c, snap)
    try:
        f = [b if h.mode == 'bits' else (b if (b >> 23) & 0xff == 0xff else c.rc(Fr(b2f(b)))) for b in fb]
        E0 = Env(c, h, f, list(ib), virt=[c.rc(x) for x in (virt or [])])
        for k, (lo, hi) in h.intrange.items(): E0.assume(lo <= sgn(ib[k], 32) <= hi)
        if h.pre: h.pre(E0)
        if E0.skip: return
        of, oi = exec_harness(c, h, f, list(ib))
    except (SpecialValue, PathEnd, Infeasible, Unsupported, MemError, ZeroDivisionError, OverflowError, TooBig) as e: return
    r = native(so, h, fb, ib)
    if r[0] != 'ok': 
        res.valmismatch.append(f'{h.name}: native {r}'); return
    bad = None
    for k, (x, y) in enumerate(zip(of, r[1])):
        if x is UNDEF: continue
        if h.mode == 'bits':
            if not isinstance(x, int): return
            if x != y and not ((x & 0x7fffffff) > 0x7f800000 and (y & 0x7fffffff) > 0x7f800000): bad = (k, x, y)
        else:
            try: xv = float(c.toR(x).const())
            except SpecialValue:
                continue
            except (Unsupported, AttributeError, TypeError): return
            yv = b2f(y)
            if not abs(xv - yv) <= 5e-3 * max(1, abs(xv), abs(yv)): bad = (k, xv, yv)
    for k, (x, y) in enumerate(zip(oi, r[2])):
        if x is UNDEF: continue
        if lazy(x): x = norm(bv(x, 32))
        if isinstance(x, bool): x = int(x)
        if not isinstance(x, int): return
        if x != y: bad = ('i%d' % k, x, y)
    if bad: res.valmismatch.append(f'{h.name}: out {bad} inputs {[b2f(x) for x in fb]} {ib}')
    else: res.validated += 1

class TimeUp(Exception): pass

def alarmed(sec, fn):
    """run fn, interrupted with TimeUp after sec seconds (exact polynomial arithmetic has no timeout of its own)"""
    def h(sig, fr):
        if fr is not None and '/z3' in fr.f_code.co_filename: signal.setitimer(signal.ITIMER_REAL, 0.003, 1.0)      # not inside the bindings: again in a moment
        else: raise TimeUp()
    signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, max(0.1, sec), 1.0)
    try: return fn()
    except TimeUp: return 'timeup'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, lambda *a: None)

def run_harness(h, cfg, bc, so, tier, seed, budget, only_slices=False, progress=None):
    """explore all paths of one harness in one configuration; returns Result"""
    h.cfg = cfg
    t0 = time.time(); res = Result(); res.name = h.name; res.cfg = cfg; Result.snap = None
    rng = random.Random(f'{seed}/{h.name}/{cfg}')
    mod = get_mod(bc); snap = snapshot_globals(mod, h.mode, bc); Result.snap = snap
    stats = Stats()
    if progress:
        class L(list):
            def append(s, x): list.append(s, x); progress(res)
        res.violations = L()
    if only_slices: res.inconclusive.append('worker killed: solver did not return')
    else:
      validate(mod, so, h, rng, 3 if tier == 'quick' else 12, res, snap)
      try:
        if alarmed(t0 + budget + 4 - time.time(), lambda: explore(h, cfg, bc, so, tier, mod, snap, rng, stats, res, t0 + budget)) == 'timeup':
            res.truncated = True; res.inconclusive.append('time budget: symbolic arithmetic')
      except TimeUp: res.truncated = True; res.inconclusive.append('time budget: symbolic arithmetic')
    if res.inconclusive and not res.violations and h.mode == 'real' and not h.search and h.nf + h.nvirt > 2 and not h.opts.get('nofix'):
        # something stayed undecided over all inputs: decide it over slices in which most inputs are numbers
        t1 = time.time() + (SLICE if tier == 'quick' else 4 * SLICE)
        slices(h, cfg, bc, so, mod, snap, rng, stats, res, t1)
        res.notes.insert(0, f'{res.slices} slices explored ({res.slicepaths} paths)')
    res.queries = stats.queries; res.solver_time = stats.time; res.fns = sorted(stats.fns); res.div0 = stats.div0
    res.notes += sorted(stats.notes); res.notes = sorted(set(res.notes))[:20]
    res.wall = time.time() - t0; res.violations = list(res.violations)
    return res

SLICE = 14
def slices(h, cfg, bc, so, mod, snap, rng, stats, res, end):
    dep = {g for grp in h.unit for g in grp}
    free = [k for k in range(h.nf + h.nvirt) if k not in dep]
    if h.derive and h.nvirt and 'derived' in h.opts: free = [k for k in free if k not in h.opts['derived']]
    n = 0
    while time.time() < end and not res.violations and (len(free) > 1 or free and h.unit):
        keep = set(rng.sample(free, max(1, min(len(free) - 1, (1, 2, 2, 3)[n % 4])))) ; n += 1
        fix = {}
        for grp in h.unit if n % 2 else ():                   # a rational point of the unit sphere
            t = [Fr(rng.randint(-8, 8), rng.choice((3, 4, 5, 7))) for _ in grp[:-1]]; d = 1 + sum(x*x for x in t)
            for g, x in zip(grp, [2*x/d for x in t] + [(2 - d)/d]): fix[g] = x
        for k in free:
            if k in keep: continue
            x = Fr(rng.randint(-16, 16), rng.choice((1, 2, 4)))
            fix[k] = abs(x) + Fr(1, 4) if k in h.posv else x
        sub = Result(); sub.name = res.name; sub.cfg = cfg
        e = min(end, time.time() + 5)
        try: r = alarmed(e - time.time() + 0.5, lambda: explore(h, cfg, bc, so, 'quick', mod, snap, rng, stats, sub, e, {'fix': fix}))
        except TimeUp: r = 'timeup'
        except Exception as x: res.notes.append(f'slice: {type(x).__name__}'); break
        for v in sub.violations: res.violations.append(v)
        res.slices += 1; res.slicepaths += sub.paths

def explore(h, cfg, bc, so, tier, mod, snap, rng, stats, res, deadline, extra=None):
    ct = (20 if tier == 'quick' else 60) if h.timeout is None else h.timeout * (1 if tier == 'quick' else 3)
    pend = [[]]; maxp = h.opts.get('maxpaths', 3000)
    seen_viol = set(); tviol = None
    while pend:
        if res.violations:
            tviol = tviol or time.time()
            if time.time() > tviol + 15: res.truncated = True; break      # already failing: the rest of the paths is not explored at length
        if time.time() > deadline: res.truncated = True; res.inconclusive.append('time budget: unexplored paths %d' % len(pend)); break
        if res.paths >= maxp: res.truncated = True; res.inconclusive.append('path limit'); break
        prefix = pend.pop(); c = None
        special = None
        holder = {}
        try:
            opts = dict(h.opts); opts['deadline'] = deadline; opts.update(extra or {})
            c = Ctx(mod, h.mode, prefix, stats, opts)
            setup_globals(c, snap)
            f, i, virt = make_inputs(c, h)
            c.inf, c.ini, c.inv = list(f), list(i), list(virt)
            E = Env(c, h, f, i, virt=virt)
            if h.derive: h.derive(E); f = E.f
            for k, (lo, hi) in h.intrange.items():
                E.assume(band(W(c, lo).sle(i[k]), W(c, i[k]).sle(hi)))
            if h.pre: h.pre(E)
            i = [x.v for x in E.i]                      # pre may have fixed some of them by forking
            of, oi = exec_harness(c, h, f, i)
            E = Env(c, h, f, i, of, oi, virt)
            h.spec(E)
        except Infeasible:
            if c: pend += c.pending
            continue
        except (SpecialValue, PathEnd, MemError) as e:
            special = e
        except TooBig:
            special = None; res.inconclusive.append('polynomial too large'); pend += c.pending; continue
        except Unsupported as e:
            res.inconclusive.append('unsupported: ' + str(e)); pend += c.pending; 
            # still replay a witness of this path
            c.pending = []
            special = e
        pend += c.pending
        if special is not None:
            try: r = c.check()
            except Unsupported: res.truncated = True; res.inconclusive.append('time budget'); break
            if r == z3.unsat: continue
            res.specialpaths += 1
            m = c.slv().model() if r == z3.sat else None
            dummy = Claim(); dummy.name = ''; dummy.neg = True; dummy.negm = None
            ok = None
            if m is not None:
                try:
                    fb, ib, vv = model_inputs(c, h, m)
                    v, rr = replay(so, mod, h, fb, ib, vv)
                    if v: ok = (fb, ib, vv, v, rr)
                except (SpecialValue, z3.Z3Exception, ZeroDivisionError, OverflowError): pass
                if ok is None and (isinstance(special, MemError) or 'ubsantrap' in str(special)):
                    try:
                        fb, ib, vv = model_inputs(c, h, m); rep = asan_replay(bc, h, fb, ib)
                        if rep: ok = (fb, ib, vv, [('memory safety' if isinstance(special, MemError) else 'defined behaviour', rep)], ('crash', rep))
                    except (SpecialValue, z3.Z3Exception, ZeroDivisionError, OverflowError): pass
                if ok is None and not isinstance(special, Unsupported):
                    ok = find_cex(c, h, None, dummy, mod, so, rng, 6, stats, res)
            if ok:
                key = ok[3][0][0]
                if key not in seen_viol:
                    seen_viol.add(key)
                    res.violations.append(mkviol(h, cfg, key, ok, f'path ends in: {special}'))
            else:
                res.notes.append(f'special path ({type(special).__name__}: {special}) replayed, claims held')
            continue
        res.paths += 1
        # reachability witness (vacuity guard) for the first paths
        wit = None
        if res.witness < (3 if tier == 'quick' else 8):
            s = z3.Solver(); s.set('timeout', 3000); s.add(c.pc)
            if h.mode == 'real': s.push(); s.add(boxed(c, h, h.box))
            r = s.check(); stats.queries += 1
            if r != z3.sat and h.mode == 'real': s.pop(); r = s.check()
            if r == z3.unsat: continue
            if r == z3.sat:
                res.witness += 1; wit = s.model()
                try:
                    fb, ib, vv = model_inputs(c, h, wit)
                    validate_one(mod, so, h, fb, ib, vv, res, snap)
                except (z3.Z3Exception, SpecialValue, ZeroDivisionError, OverflowError): pass
        for cl in E.claims:
            res.claims += 1
            neg = cl.neg
            if isinstance(neg, bool) and neg is False:
                stats.queries += 1; res.discharged += 1; res.trivial += 1; continue
            if isinstance(neg, bool): neg = z3.BoolVal(True)
            if cl.name in seen_viol: continue
            left = deadline - time.time()
            if left < 0.3: res.inconclusive.append(f'{cl.name}: time budget'); continue
            r, m = solve_claim(c, neg, min(ct, left), stats)
            if r == z3.unsat: res.discharged += 1; continue
            x = find_cex(c, h, E, cl, mod, so, rng, 40 if r == z3.sat else 8, stats, res, m)
            if x:
                seen_viol.add(cl.name)
                res.violations.append(mkviol(h, cfg, cl.name, x, 'solver counterexample reproduced on the real build'))
            elif r == z3.sat: res.unreproduced.append(cl.name)
            else: res.inconclusive.append(f'{cl.name}: solver unknown')
        if res.sample is None and E.claims:
            res.sample = {'harness': h.name, 'cfg': cfg, 'path': str(c.trace)[:200], 'claims': [cl.name for cl in E.claims][:6],
                          'query': str(E.claims[-1].neg)[:300]}

def mkviol(h, cfg, claim, x, why):
    fb, ib, virt, v, r = x
    return {'harness': h.name, 'cfg': cfg, 'claim': claim, 'why': why, 'f': [b2f(b) for b in fb], 'f_bits': [f'0x{b:08x}' for b in fb],
            'i': [sgn(b, 32) for b in ib], 'virt': [float(y) for y in virt], 'violated': [(n, repr(val)) for n, val in v][:12],
            'outputs': [[b2f(b) for b in r[1]], r[2]] if r and r[0] == 'ok' else str(r)}
