"""C24: Version encoding, hexadecimal text and enum flag operators."""
from vf import H
META = dict(
 title='Version, hexadecimal, flag and integer vector text encodings are exact',
 statement='Version packs and unpacks its four bytes without loss, orders exactly by (major, minor, patch, build), indexes its parts in that order and prints the decimal parts joined by dots (1 to 4 parts). '
   'toHex writes exactly `length` upper-case digits, the low digits when shorter and zero-padded when longer than the type, and toInt32/toInt64 read them back. '
   'The enum flag operators are bitwise on the underlying type, ! is 1 only for zero, and hasAnyFlag(a, f) is (a & f) != 0. '
   'toString of an integer vector, scalar or SIMD, is its components in decimal (signed ones with a minus sign), in order, separated by one space.',
 long=True,
 quant='every value of every part / every 8, 16, 32 and 64-bit unsigned value, hex lengths 1..18, enums with 8 to 64-bit underlying types; vector text: one component up to four digits, or in the first and last 64 values of each longer digit count up to the ends of the range, the others one digit', over=['inputs'],
 why='a shift or digit error appears only for particular bytes, lengths or carries; samples do not cover all of them',
 files=['include/math/version.hpp', 'include/math/hex.hpp', 'include/math/flags.hpp', 'include/math/vector/int.hpp', 'include/math/vector/uint.hpp', 'include/math/simd/vector/int.hpp', 'include/math/simd/vector/uint.hpp'],
 mech=[('struct Version', 'include/math/version.hpp'), ('toHex, toInt32, toInt64', 'include/math/hex.hpp'), ('DECLARE_ENUM_CLASS_FLAG_OPERATORS', 'include/math/flags.hpp'), ('toString', 'the integer vector headers')],
 note='The libstdc++ string and number formatting code is executed symbolically together with the library; strtoul is modelled. hasOneFlag is not claimed: its intended meaning is not documented.')
EXPLAIN = 'The functions, including std::string internals, run on symbolic bytes; text is compared character by character.'
ASSUME = ['strtoul/strtoull follow the C standard']
ALT = {'quick': (), 'thorough': ()}    # no vector instructions involved
BOUNDS = ['hex lengths 1..18', 'vector text: one component of up to four digits (quick: up to three, plus five and ten) or within 64 of the ends of each longer digit count, other components one digit']
HEAD = '#include <string>\n#include <vector>\ntemplate class std::basic_string<char>;\n'
IRFLAGS = ['-fsanitize=shift-exponent', '-fsanitize-trap=shift-exponent']    # an over-wide shift becomes a path of its own
def digits(E, v, n):
    """n decimal digits of a word"""
    out = []
    for k in range(n - 1, -1, -1): out.append(v.udiv(10**k).urem(10) + 48)
    return out
def digits2(E, v, n):
    """the same digits peeled off in pairs from the low end: (v / 100) / 100 ..."""
    if n <= 2: return digits(E, v, n)
    lo = v.urem(100); return digits2(E, v.udiv(100), n - 2) + [lo.udiv(10) + 48, lo.urem(10) + 48]
def harnesses(tier):
    hs = []; C = ['haswell']
    byt = lambda *ks: {k: (0, 255) for k in ks}
    def spec(E):
        ma, mi, pa, bu = E.i[:4]; enc = (ma.shl(24)) | (mi.shl(16)) | (pa.shl(8)) | bu
        E.weq('encode', E.oi[0], enc); E.weq('decode/encode', E.oi[1], E.i[4])
        for k in range(4):
            E.weq(f'field {k}', E.oi[2+k], E.i[k]); E.weq(f'index {k}', E.oi[6+k], E.i[k]); E.weq(f'const index {k}', E.oi[10+k], E.i[k])
            E.weq(f'decoded part {k}', E.oi[14+k], E.i[4].shr(24 - 8*k) & 255)
    hs.append(H('version_pack', 'Version v((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]), d((uint32)i[4]); const Version& c = v; oi[0] = (uint32)v; oi[1] = (uint32)d; '
        'oi[2] = v.major; oi[3] = v.minor; oi[4] = v.patch; oi[5] = v.build; for (int k = 0; k < 4; k++) { oi[6+k] = v[k]; oi[10+k] = c[k]; } oi[14] = d.major; oi[15] = d.minor; oi[16] = d.patch; oi[17] = d.build;',
        spec, mode='bits', ni=5, noi=18, intrange=byt(0, 1, 2, 3), cfgs=C))
    def spec(E):
        a, b = E.i[:4], E.i[4:8]; lt = False; eq = True
        for x, y in zip(a, b): lt = E.OR(lt, E.AND(eq, x.ult(y))); eq = E.AND(eq, x.eq(y))
        for k, (nm, c) in enumerate((('<', lt), ('>', E.AND(E.NOT(lt), E.NOT(eq))), ('<=', E.OR(lt, eq)), ('>=', E.NOT(lt)), ('==', eq), ('!=', E.NOT(eq)))): E.iff('operator' + nm, E.oi[k], c)
    hs.append(H('version_order', 'Version a((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]), b((uint8)i[4], (uint8)i[5], (uint8)i[6], (uint8)i[7]); oi[0] = a < b; oi[1] = a > b; oi[2] = a <= b; oi[3] = a >= b; oi[4] = a == b; oi[5] = a != b;',
        spec, mode='bits', ni=8, noi=6, intrange=byt(*range(8)), cfgs=C))
    PUT = 'oi[0] = (int)s.size(); for (size_t k = 0; k < s.size() && k < 40; k++) oi[1+k] = (unsigned char)s[k];'
    import itertools
    rngs = {1: (0, 9), 2: (10, 99), 3: (100, 255)}
    for n in (1, 2, 3, 4):
        for fixed in itertools.product((1, 2, 3), repeat=max(0, n - 2)):     # digit counts of the first parts, to keep the path sets small
            def spec(E, n=n, fixed=fixed):
                for L in itertools.product((1, 2, 3), repeat=n - len(fixed)):
                    L = fixed + L
                    cond = E.AND(*[E.AND(E.w(rngs[l][0]).ule(E.i[k]), E.i[k].ule(rngs[l][1])) for k, l in enumerate(L)])
                    if cond is False: continue
                    exp = []
                    for k, l in enumerate(L): exp += ([E.w(46)] if k else []) + digits(E, E.i[k], l)
                    ok = E.oi[0].eq(len(exp))
                    for j, ch in enumerate(exp):
                        o = E.oi[1+j]
                        ok = E.AND(ok, o.eq(ch)) if hasattr(o, 'eq') and not isinstance(o, bool) else False
                    E.true('text ' + '.'.join('d'*l for l in L), E.IMP(cond, ok))
            ir = byt(0, 1, 2, 3)
            for k, l in enumerate(fixed): ir[k] = rngs[l]
            hs.append(H(f'version_text_{n}' + ''.join(f'_{l}' for l in fixed), f'for (int k = 0; k < 20; k++) oi[k] = 0; string s = Version((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]).toString{n}(); ' + PUT, spec, mode='bits', ni=4, noi=20, intrange=ir, cfgs=C, opts={'maxinst': 4000000}))
    # hexadecimal
    for bits in (8, 16, 32, 64):
        for ln in (range(1, 19) if bits in (32, 64) else range(1, 10)):
            def spec(E, bits=bits, ln=ln):
                E.weq('length', E.oi[0], ln)
                for k in range(ln):
                    sh = (ln - 1 - k)*4
                    if sh >= bits: d = E.w(0)
                    else: d = (E.i[1].shr(sh - 32) if sh >= 32 else E.i[0].shr(sh)) & 15
                    E.weq(f'digit {k}', E.oi[1+k], E.w(E.sel(d.ult(10), (d + 48).v, (d + 55).v)))
                if ln*4 >= bits:
                    E.weq('read back low', E.oi[30], E.i[0] & ((1 << min(bits, 32)) - 1))
                    if bits == 64: E.weq('read back high', E.oi[31], E.i[1])
            val = '(uint64)(uint32)i[0] | ((uint64)(uint32)i[1] << 32)'
            back = f'uint64 r = toInt64(s); oi[30] = (int)r; oi[31] = (int)(r >> 32);' if bits == 64 else 'oi[30] = (int)toInt32(s);'
            hs.append(H(f'hex_{bits}_{ln}', f'uint64 w = {val}; string s = toHex((uint{bits})w, {ln}); ' + PUT + (back if ln*4 >= bits and ln <= (16 if bits == 64 else 15) else (f'oi[30] = i[0] & {hex((1 << min(bits,32))-1)}u; oi[31] = i[1];')), spec, mode='bits', ni=2, noi=32, cfgs=C))
        def spec(E, bits=bits):
            E.weq('default length', E.oi[0], bits//4)
        hs.append(H(f'hex_{bits}_default', f'oi[0] = (int)toHex((uint{bits})i[0]).size();', spec, mode='bits', ni=1, noi=1, cfgs=C))
    # flags
    head = '#ifndef VF_FLAGS\n#define VF_FLAGS\n' + ''.join(f'enum class FL{b} : uint{b} {{ None = 0 }}; DECLARE_ENUM_CLASS_FLAG_OPERATORS(FL{b})\n' for b in (8, 16, 32, 64)) + '#endif'
    for b in (8, 16, 32, 64):
        def spec(E, b=b):
            two = b == 64; msk = (1 << min(b, 32)) - 1
            A, B = [E.i[0] & msk, E.i[1]], [E.i[2] & msk, E.i[3]]
            ops = [('|', lambda x, y: x | y), ('&', lambda x, y: x & y), ('^', lambda x, y: x ^ y), ('~', lambda x, y: ~x), ('|=', lambda x, y: x | y), ('&=', lambda x, y: x & y), ('^=', lambda x, y: x ^ y)]
            for k, (nm, fn) in enumerate(ops):
                E.weq(f'operator{nm}', E.oi[2*k], fn(A[0], B[0]) & msk)
                if two: E.weq(f'operator{nm} high', E.oi[2*k+1], fn(A[1], B[1]))
            z = A[0].eq(0) if not two else E.AND(A[0].eq(0), A[1].eq(0))
            E.weq('operator!', E.oi[14], E.w(E.sel(z, 1, 0)))
            any_ = (A[0] & B[0]).ne(0) if not two else E.OR((A[0] & B[0]).ne(0), (A[1] & B[1]).ne(0))
            E.iff('hasAnyFlag', E.oi[15], any_)
        cv = lambda e: f'(FL{b})((uint64)(uint32)i[{e}] | ((uint64)(uint32)i[{e+1}] << 32))'
        body = f'FL{b} a = {cv(0)}, c = {cv(2)}, r; uint64 t; '
        for k, ex in enumerate(('r = a | c;', 'r = a & c;', 'r = a ^ c;', 'r = ~a;', 'r = a; r |= c;', 'r = a; r &= c;', 'r = a; r ^= c;')):
            body += f'{ex} t = (uint64)r; oi[{2*k}] = (int)t; oi[{2*k+1}] = (int)(t >> 32); '
        hs.append(H(f'flags_{b}', body + 'oi[14] = (int)(uint64)!a; oi[15] = hasAnyFlag(a, c);', spec, mode='bits', ni=4, noi=16, head=head, cfgs=C))
    # integer vectors: components in decimal, separated by one space
    dr = {n: (10**(n-1) if n > 1 else 0, 10**n - 1) for n in range(1, 11)}
    for ty, n, mk, sg in (('int2', 2, 'int2(i[0],i[1])', 1), ('int3', 3, 'int3(i[0],i[1],i[2])', 1), ('int4', 4, 'int4(i[0],i[1],i[2],i[3])', 1), ('i32x4', 4, 'i32x4(i[0],i[1],i[2],i[3])', 1),
                          ('uint2', 2, 'uint2(i[0],i[1])', 0), ('uint3', 3, 'uint3(i[0],i[1],i[2])', 0), ('uint4', 4, 'uint4(i[0],i[1],i[2],i[3])', 0), ('u32x4', 4, 'u32x4(i[0],i[1],i[2],i[3])', 0)):
        top = 2**31 - 1 if sg else 2**32 - 1
        for k in range(n):
            cls = []
            for ln in range(1, 11):
                lo, hi = dr[ln]
                for neg in ((0, 1) if sg else (0,)):
                    l, h = max(lo, neg), min(hi, top + neg)
                    cls += [(ln, neg, l, h)] if ln <= 4 else [(ln, neg, l, l + 63), (ln, neg, h - 63, h)]
            for ln, neg, lo, hi in (cls if tier == 'thorough' else [c for c in cls if c[0] in ((1, 2, 3, 5, 10) if k == 0 else (2, 10))]):
                def spec(E, k=k, ln=ln, neg=neg, n=n):
                    exp = []
                    for j in range(n):
                        if j: exp.append(E.w(32))
                        if j == k:
                            if neg: exp.append(E.w(45))
                            exp += digits2(E, E.w(0) - E.i[j] if neg else E.i[j], ln)
                        else: exp.append(E.i[j] + 48)
                    E.weq('length', E.oi[0], len(exp))
                    for j, ch in enumerate(exp): E.weq(f'character {j}', E.oi[1+j], ch)
                ir = {j: (0, 9) for j in range(n)}; w = lambda x: x - 2**32 if x >= 2**31 else x
                ir[k] = (-hi, -lo) if neg else (w(lo), w(hi)) if w(lo) <= w(hi) else (lo, hi)
                hs.append(H(f'vector_text_{ty}_{k}_{"m" if neg else ""}{ln}' + (f'_{lo}' if ln > 4 else ''), f'for (int k = 0; k < 30; k++) oi[k] = 0; string s = toString({mk}); ' + PUT, spec, mode='bits', ni=n, noi=41, intrange=ir, cfgs=C, opts={'maxinst': 4000000}))
    return hs
