"""C23: PackedVector stores sub-byte elements independently."""
from vf import H
META = dict(
 title='PackedVector behaves as an array of independent small integers',
 statement='A PackedVector of N elements of 1, 2 or 4 bits starts at zero, get(i) returns the last value written to i by set or unsafeSet modulo 2^Bits and no write changes another element; the byte size is ceil(N*Bits/8). '
   'resize keeps the surviving elements and copies or moves own their storage, so changing or destroying one never affects the other. Every access with i < N stays inside the allocation.',
 quant='every element count up to the bound, every pair of indices, all byte values', over=['inputs', 'histories'],
 why='neighbour corruption depends on the index within the byte and on the old contents; aliasing needs a copy followed by a write or a destruction',
 files=['include/math/packed-vector.hpp'], mech=[('PackedVector::unsafeGet/unsafeSet/get/set/resize', 'include/math/packed-vector.hpp')],
 note='Heap accesses are checked against the allocation in the symbolic memory; memory errors are replayed under AddressSanitizer.')
EXPLAIN = 'Histories set,set,get with symbolic indices and values are executed on the symbolic heap and compared with an array model.'
ASSUME = ['i < N for every access']
ALT = {'quick': (), 'thorough': ()}    # no vector instructions involved
BOUNDS = ['element counts 0..9 (thorough 0..20), plus 262 and 65540 with indices near 0, 256 and 65536; histories of two writes, one resize or copy, one read']
def harnesses(tier):
    hs = []; big = 9 if tier == 'quick' else 20
    for bits in (1, 2, 4):
        m = (1 << bits) - 1; V = f'PackedVector<{bits}>'
        for n in ((1, 3, 8, 9) if tier == 'quick' else range(1, 21)):
            rg = {0: (0, n-1), 1: (0, n-1), 4: (0, n-1)}
            def model(E, k, writes, m=m):
                r = E.w(0)
                for (ix, val) in writes: r = E.w(E.sel(k.eq(ix), (val & m).v, r.v))
                return r
            def spec(E, bits=bits, n=n, m=m, model=model):
                i, j, x, y, k = E.i[:5]
                E.weq('initially zero', E.oi[0], 0)
                E.weq('value after first write', E.oi[1], model(E, k, [(i, x)]))
                E.weq('value after second write', E.oi[2], model(E, k, [(i, x), (j, y)]))
                E.weq('size in bytes', E.oi[3], (n*bits + 7)//8)
            body = f'{V} v({n}); oi[0] = v.get(i[4]); v.SET(i[0], (uint8)i[2]); oi[1] = v.unsafeGet(i[4]); v.SET(i[1], (uint8)i[3]); oi[2] = v.get(i[4]); oi[3] = (int)v.size();'
            for st in ('unsafeSet', 'set'):
                hs.append(H(f'packed{bits}_{st}_{n}', body.replace('SET', st), spec, mode='bits', ni=5, noi=4, intrange=rg))
            # resize
            for n2 in ((2, 9) if tier == 'quick' else (1, 2, 5, 8, 9, 16, 17)):
                mn = min(n, n2); r2 = {0: (0, n-1), 2: (0, mn-1), 3: (0, n2-1)}
                def spec(E, bits=bits, n=n, n2=n2, m=m):
                    E.weq('surviving element', E.oi[0], E.w(E.sel(E.i[2].eq(E.i[0]), (E.i[1] & m).v, E.w(0).v)))
                    E.weq('size in bytes', E.oi[1], (n2*bits + 7)//8)
                    per = 8//bits
                    if n2 > n:
                        new = E.w((n + per - 1)//per*per - 1).slt(E.i[3])
                        E.true('bytes added are zero', E.IMP(new, E.oi[2].eq(0)))
                hs.append(H(f'packed{bits}_resize_{n}_{n2}', f'{V} v({n}); v.unsafeSet(i[0], (uint8)i[1]); v.resize({n2}); oi[0] = v.get(i[2]); oi[1] = (int)v.size(); oi[2] = v.get(i[3]);', spec, mode='bits', ni=4, noi=3, intrange=r2))
        n = 5; rg = {0: (0, n-1), 1: (0, n-1), 4: (0, n-1)}
        def spec(E, m=m):
            i, j, x, y, k = E.i[:5]; a = E.w(E.sel(k.eq(i), (x & m).v, E.w(0).v))
            E.weq('original unaffected by writing the copy', E.oi[0], a)
            E.weq('copy has the write', E.oi[1], E.w(E.sel(k.eq(j), (y & m).v, a.v)))
        hs.append(H(f'packed{bits}_copy', f'{V} v({n}); v.unsafeSet(i[0], (uint8)i[2]); {V} w = v; w.unsafeSet(i[1], (uint8)i[3]); oi[0] = v.get(i[4]); oi[1] = w.get(i[4]);', spec, mode='bits', ni=5, noi=2, intrange=rg))
        hs.append(H(f'packed{bits}_assign', f'{V} v({n}), w(1); v.unsafeSet(i[0], (uint8)i[2]); w = v; w.unsafeSet(i[1], (uint8)i[3]); oi[0] = v.get(i[4]); oi[1] = w.get(i[4]);', spec, mode='bits', ni=5, noi=2, intrange=rg))
        def spec(E, m=m):
            i, j, x, y, k = E.i[:5]
            E.weq('copy outlives the original', E.oi[0], E.w(E.sel(k.eq(i), (x & m).v, E.w(0).v)))
            E.weq('moved-to vector keeps the elements', E.oi[1], E.w(E.sel(k.eq(i), (x & m).v, E.w(0).v)))
        hs.append(H(f'packed{bits}_lifetime', f'{V} w, z; {{ {V} v({n}); v.unsafeSet(i[0], (uint8)i[2]); w = v; }} {{ {V} u({n}); u.unsafeSet(i[0], (uint8)i[2]); z = std::move(u); }} oi[0] = w.get(i[4]); oi[1] = z.get(i[4]);', spec, mode='bits', ni=5, noi=2, intrange=rg))
        # large vectors: windows around the 8 and 16 bit index limits, and what lies at the start
        for n, b in ((262, 256), (65540, 65536)):
            rg = {0: (b-3, b+3), 2: (b-3, b+3), 3: (0, 3)}
            def spec(E, m=m, n=n, bits=bits):
                i, x, k, l = E.i[:4]
                E.weq('element in the window', E.oi[0], E.w(E.sel(k.eq(i), (x & m).v, E.w(0).v)))
                E.weq('element at the start', E.oi[1], 0); E.weq('size in bytes', E.oi[2], (n*bits + 7)//8)
                E.weq('start after its own write', E.oi[3], x & m); E.weq('window after the second write', E.oi[4], E.w(E.sel(k.eq(i), (x & m).v, E.w(0).v)))
            hs.append(H(f'packed{bits}_large_{n}', f'{V} v({n}); v.set(i[0], (uint8)i[1]); oi[0] = v.get(i[2]); oi[1] = v.get(i[3]); oi[2] = (int)v.size(); v.unsafeSet(i[3], (uint8)i[1]); oi[3] = v.get(i[3]); oi[4] = v.unsafeGet(i[2]);', spec, mode='bits', ni=4, noi=5, intrange=rg))
    return hs
