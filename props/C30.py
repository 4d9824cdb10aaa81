"""C30: BVH construction."""
from fractions import Fraction as Fr
import itertools, random, struct
from vf import H
from ir import Unsupported, UNDEF
META = dict(
 title='BVH construction yields a valid, tight tree for every split decision',
 statement='After Bvh::recreate (boxes or triangles, own or given centroids) getPrimitives() is a permutation of the input primitives and the leaves partition it into consecutive non-empty ranges. Every node but the root, whose box is the given one, '
   'has exactly the union box of the primitives below it; child links form a binary tree over all nodes. Each split is at the border of the eight equal bins of the node centroid range with the lowest surface area cost (sum of count times area), which is below the cost of the node; a node of more than two primitives stays whole only when no border has such a cost. Every finite input, however close or far apart, is built without undefined behaviour.',
 long=True,
 quant='every sequence of split decisions (hooked split search), every box/triangle coordinate within the stated shapes, every finite centroid', over=['inputs', 'histories'],
 why='a rounding-dependent split, an empty side or a skipped stack entry needs a particular primitive layout that samples do not hit',
 files=['source/bvh.cpp', 'include/math/bvh.hpp'],
 mech=[('Bvh::recreate (Aabb)', 'source/bvh.cpp'), ('Bvh::recreate (triangles)', 'source/bvh.cpp'), ('findBestSplitPlane', 'source/bvh.cpp'), ('calculateNodeAabb', 'source/bvh.cpp'), ('Node accessors', 'include/math/bvh.hpp')],
 note='')
EXPLAIN = ('The compiled construction runs on symbolic coordinates. In the *_tree harnesses the split search is replaced by an unconstrained one (any axis, any split position, any cost), so the solver covers every possible tree; '
           'in the *_sah harnesses the real split search runs. Outputs of all paths are compared with a reference tree check.')
ASSUME = ['real arithmetic in the tree and SAH harnesses; the float harness (split_*) covers rounding, overflow and denormals of the bin computation']
ALT = {'quick': (), 'thorough': ('scalar', 'neon')}
BOUNDS = ['tree harnesses: 6 boxes along one axis, 4 boxes on all axes, 4 triangles; histories of two recreates with 2 to 4 primitives each (boxes, triangles, given centroids)', 'SAH harnesses: 3 boxes or triangles with symbolic extent along one axis', 'wide_*: 12 to 15 (thorough 18) primitives, all concrete but the position of one along one axis', 'split_*: two primitives, all finite centroids']
SOURCES = ['source/bvh.cpp']
HEAD = '''#include "math/bvh.hpp"
using namespace math;
#define SPLIT __attribute__((noinline,used))
SPLIT static void findBestSplitPlane(uint32, uint32, const Aabb*, const uint32*, const f32x4*, int32&, float&, float&);
SPLIT static void findBestSplitPlane(uint32, uint32, uint32, uint32, const uint8*, const uint8*, const uint32*, const f32x4*, const std::function<uint32(const uint8*)>&, int32&, float&, float&);
'''
HEAD_PLAIN = '#include "math/bvh.hpp"\nusing namespace math;\n'
HB = '_ZL18findBestSplitPlanejjPKN4math4AabbEPKjPKNS_5f32x4ERiRfS9_'
f32 = lambda x: struct.unpack('<f', struct.pack('<f', x))[0]

DUMP = '''
int k = 0; auto& ns = b.getNodes(); auto& ps = b.getPrimitives(); oi[k++] = (int)ns.size(); oi[k++] = (int)ps.size();
for (auto& n : ns) { oi[k++] = (int)n.getPrimitiveCount(); oi[k++] = (int)n.getLeftNode(); oi[k++] = n.isLeaf(); }
k = 2 + 3*(2*N-1); for (auto p : ps) oi[k++] = (int)p;
k = 0; for (auto& n : ns) { P3(of + k, n.aabb.getMin()); P3(of + k + 3, n.aabb.getMax()); k += 6; }
'''
def conc(E, w):
    return w if isinstance(w, int) else None
def tree(E, N, boxes, root, sah=None, tight=True):
    """boxes: list of ([3 min],[3 max]) spec reals; checks the dumped tree"""
    oi = E.oi; nn = oi[0]; ints = [w.v if hasattr(w, 'v') else w for w in oi]
    if not all(isinstance(x, int) or x is UNDEF for x in ints):
        raise Unsupported('symbolic tree shape')
    nn, np_ = ints[0], ints[1]; P = ints[2 + 3*(2*N-1):2 + 3*(2*N-1) + N]
    E.true('permutation', np_ == N and all(isinstance(p, int) for p in P) and sorted(P) == list(range(N)))
    E.true('node count', 1 <= nn <= 2*N - 1 and nn % 2 == 1)
    if not (np_ == N and sorted(x for x in P if isinstance(x, int)) == list(range(N)) and 1 <= nn <= 2*N-1): return
    cnt = [ints[2+3*k] for k in range(nn)]; left = [ints[3+3*k] for k in range(nn)]; leaf = [ints[4+3*k] for k in range(nn)]
    seen = []; ranges = []; ok = [True]
    def walk(k, d=0):
        if k in seen or k >= nn or d > 2*N: ok[0] = False; return []
        seen.append(k)
        if cnt[k]:
            if not leaf[k] or left[k] + cnt[k] > N: ok[0] = False; return []
            ranges.append((left[k], cnt[k])); return P[left[k]:left[k]+cnt[k]]
        if leaf[k] or left[k] < 1: ok[0] = False; return []
        s = walk(left[k], d+1) + walk(left[k]+1, d+1); under[k] = s; return s
    under = {}
    s = walk(0)
    E.true('tree shape', ok[0] and sorted(seen) == list(range(nn)))
    ranges.sort(); pos = 0; part = True
    for a, c in ranges: part &= a == pos; pos = a + c
    E.true('leaves partition the primitives', part and pos == N)
    if not ok[0] or sorted(seen) != list(range(nn)): return
    def sub(k): return P[left[k]:left[k]+cnt[k]] if cnt[k] else under[k]
    box = lambda k: (E.of[6*k:6*k+3], E.of[6*k+3:6*k+6])
    for a in range(3):
        E.eq(f'root min {a}', box(0)[0][a], root[0][a]); E.eq(f'root max {a}', box(0)[1][a], root[1][a])
    for k in range(1, nn):
        s = sub(k)
        for a in range(3):
            lo, hi = boxes[s[0]][0][a], boxes[s[0]][1][a]
            for p in s[1:]: lo = E.min(lo, boxes[p][0][a]); hi = E.max(hi, boxes[p][1][a])
            E.eq(f'node box min', box(k)[0][a], lo); E.eq(f'node box max', box(k)[1][a], hi)
    if sah:
        def area(k):
            d = [box(k)[1][a] - box(k)[0][a] for a in range(3)]
            return d[0]*d[1] + d[0]*d[2] + d[1]*d[2]
        for k in range(nn):
            if cnt[k]:
                if sah is not True: sah(E, k, sub(k), None, area(k))
                continue
            l = left[k]; E.true('split lowers the cost strictly', E.lt(area(l)*E.k(len(sub(l))) + area(l+1)*E.k(len(sub(l+1))), area(k)*E.k(len(sub(k))))); E.le_('split lowers the SAH cost', area(l)*E.k(len(sub(l))) + area(l+1)*E.k(len(sub(l+1))), area(k)*E.k(len(sub(k))))
            if sah is not True: sah(E, k, sub(l), sub(l+1), area(k))

def hook(axes, nm):
    """unconstrained split search: any of the given axes, any split position, any cost"""
    def h(c, args, I):
        ax, sp, co = args[-3:]; k = c.opts.setdefault('_calls', {}); 
        n = getattr(c, 'nsplit', 0); c.nsplit = n + 1
        if n >= nm: raise Unsupported('more splits than expected')
        a, s, t = c.inv[3*n], c.inv[3*n+1], c.inv[3*n+2]
        pick = axes[-1]
        for j, x in enumerate(axes[:-1]):
            if c.branch(c.rcmp('lt', a, c.rc(j))): pick = x; break
        c.raw_store(ax, pick, 4); c.raw_store(sp, s, 4); c.raw_store(co, t, 4)
        return None
    return h

HT = '_ZL18findBestSplitPlanejjjjPKhS0_PKjPKN4math5f32x4ERKSt8functionIFjS0_EERiRfSD_'
# concrete scene: (min, max) of the boxes; distinct centre order on each axis
SC = [((4, 1, -3), (6, 2, 1)), ((-5, 0, 2), (-4, 4, 3)), ((1, -6, -7), (2, -3, -5)), ((-1, 5, 6), (0, 7, 9)), ((7, -2, -1), (9, -1, 0)), ((-9, 2, 3), (-7, 4, 5)), ((2, 8, -9), (4, 10, -8))]
ARR = 'Aabb a[N]; for (int q = 0; q < N; q++) a[q] = Aabb(F4(f+6*q), F4(f+6*q+3)); '
ARR = 'Aabb a[N]; for (int q = 0; q < N; q++) a[q] = Aabb(S3(f+6*q), S3(f+6*q+3)); '
ROOT = 'Aabb root(f32x4(-16.0f, -16.0f, -16.0f), f32x4(16.0f, 16.0f, 16.0f)); '
def fbits(x): return struct.unpack('<I', struct.pack('<f', x))[0]
def scene(n):
    """random concrete scenes, from clustered small integers to neighbouring floats"""
    def g(rng):
        out = []; kind = rng.randint(0, 5); base = [rng.uniform(-8, 8) for _ in range(3)]
        for _ in range(n):
            lo = []; hi = []
            for a in range(3):
                if kind <= 2: x = rng.randint(-12, 11); w = rng.choice([0, 1, 2, 3])
                elif kind == 3: x = base[a] + rng.randint(0, 3)*1e-6; w = 0
                elif kind == 4: x = rng.choice([-10, -9.5, -9, 9, 9.25, 10]); w = 0.25
                else: x = (rng.randint(-12, 11) if a == 0 else 1); w = 1
                lo.append(f32(x)); hi.append(f32(f32(x) + w))
            out += lo + hi
        return [fbits(x) for x in out], []
    return g
def harnesses(tier):
    hs = []
    deep = tier == 'thorough'
    C = ['sse2', 'haswell']
    def N_(n): return f'const int N = {n}; '
    noi = lambda n: 2 + 3*(2*n-1) + n
    bx = lambda E, n: [(E.f[6*q:6*q+3], E.f[6*q+3:6*q+6]) for q in range(n)]
    rt = lambda E: ([E.k(-16)]*3, [E.k(16)]*3)
    def pin(n):
        def d(E): E.f = [E.k(x) for lo, hi in SC[:n] for x in lo + hi]
        return d
    # ---- every tree: unconstrained split search
    def mk(name, n, axes, cfgs=C, tierh='quick', prev=0, prevcode=''):
        # prev: a first recreate with that many other boxes (or prevcode) on the same object
        def spec(E):
            tree(E, n, bx(E, n), rt(E)); E.weq('centroid count', E.oi[noi(n)], n)
            for q in range(n):
                for a in range(3): E.eq('centroid', E.of[6*(2*n-1)+3*q+a], (E.f[6*q+a] + E.f[6*q+3+a])*E.k(Fr(1, 2)))
        if prev and not prevcode: prevcode = f'Aabb pa[{prev}]; for (int q = 0; q < {prev}; q++) pa[q] = Aabb(f32x4(3.0f*q - 9.0f, q, -q), f32x4(3.0f*q - 8.0f, q + 2.0f, 1.0f - q)); b.recreate(pa, root, {prev}); '
        k = n - 1 + max(prev - 1, 0)
        hs.append(H(name, N_(n) + ARR + ROOT + 'Bvh b; ' + prevcode + 'b.recreate(a, root, N);' + DUMP + f'oi[{noi(n)}] = (int)b.getCentroids().size(); for (int q = 0; q < N; q++) P3(of + 6*(2*N-1) + 3*q, b.getCentroids()[q]);',
                    spec, nf=6*n, nvirt=3*k, nof=6*(2*n-1) + 3*n, noi=noi(n) + 1, cfgs=cfgs,
                    opts={'hooks': {HB: hook(axes, k), HT: hook(axes, k)}, 'maxpaths': 20000}, tier=tierh, derive=pin(n), search=scene(n)))
    mk('tree_x6', 6, [0]); mk('tree_y5', 5, [1], ['sse2']); mk('tree_z5', 5, [2], ['sse2']); mk('tree_xyz4', 4, [0, 1, 2], ['sse2'])
    if deep: mk('tree_x7', 7, [0], ['sse2']); mk('tree_xyz5', 5, [0, 1, 2], ['sse2'])
    # histories: the object was built before with fewer or more boxes, with given centroids, or with triangles
    mk('again_more', 4, [0], ['sse2'], prev=2); mk('again_fewer', 2, [0], ['sse2'], prev=4); mk('again_same', 3, [0, 1], ['sse2'], prev=3)
    PT = 'float3 pv[9]; uint16_t pi[9]; for (int q = 0; q < 9; q++) { pv[q] = float3(q % 3 + q / 3 * 4 - 7.0f, q % 2, -q); pi[q] = (uint16_t)(8 - q); } b.recreate((const uint8*)pv, (const uint8*)pi, root, 9, sizeof(float3), 2); '
    mk('after_triangles', 4, [0], ['sse2'], prev=3, prevcode=PT)
    mk('after_given', 4, [0], ['sse2'], prev=2, prevcode='Aabb pa[2]; f32x4 pc[2]; for (int q = 0; q < 2; q++) { pa[q] = Aabb(f32x4(q, 0, 0), f32x4(q + 1, 1, 1)); pc[q] = f32x4(7 - q, 1, 1); } b.recreate(pa, root, 2, pc); ')
    if deep: mk('again_more5', 5, [0], ['sse2'], prev=3); mk('again_fewer5', 3, [0], ['sse2'], prev=5)
    # triangles: 16 bit and 32 bit indices, interleaved vertices
    def tri(name, n, axes, ib, stride, cfgs=('sse2',), tierh='quick', prev=0, prevcode=''):
        T = {2: 'uint16_t', 4: 'uint32_t'}[ib]
        code = N_(n) + f'{ROOT} alignas(16) uint8_t v[3*N*{stride}] = {{}}; {T} ix[3*N]; for (int q = 0; q < 3*N; q++) {{ int w = (q*7 + 3) % (3*N); memcpy(v + w*{stride}, f + 3*q, 12); ix[q] = ({T})w; }}' \
            f'Bvh b; {prevcode}b.recreate(v, (const uint8_t*)ix, root, 3*N, {stride}, {ib});' + DUMP + f'oi[{noi(n)}] = (int)b.getCentroids().size(); ' + 'for (int q = 0; q < N; q++) P3(of + 6*(2*N-1) + 3*q, b.getCentroids()[q]);'
        def bt(E):
            out = []
            for q in range(n):
                v = [E.f[9*q+3*j:9*q+3*j+3] for j in range(3)]
                out.append(([E.min(E.min(v[0][a], v[1][a]), v[2][a]) for a in range(3)], [E.max(E.max(v[0][a], v[1][a]), v[2][a]) for a in range(3)]))
            return out
        def spec(E):
            tree(E, n, bt(E), rt(E)); E.weq('centroid count', E.oi[noi(n)], n)
            for q in range(n):
                for a in range(3): E.near(f'centroid', E.of[6*(2*n-1)+3*q+a], (E.f[9*q+a] + E.f[9*q+3+a] + E.f[9*q+6+a])*E.k(Fr(1, 3)), Fr(1, 10**5))
        def pinT(E):
            o = []
            for q in range(n):
                lo, hi = SC[q]; m = [Fr(a + b, 2) + Fr(b - a, 8)*(-1)**q for a, b in zip(lo, hi)]
                vs = [list(lo), m, list(hi)]; k = q % 3; vs = vs[k:] + vs[:k]
                o += [E.k(x) for v in vs for x in v]
            E.f = o
        def search(rng):
            b, _ = scene(n)(rng); F = [struct.unpack('<f', struct.pack('<I', x))[0] for x in b]; o = []
            for q in range(n):
                lo, hi = F[6*q:6*q+3], F[6*q+3:6*q+6]; vs = [lo, [f32(x + rng.random()*(y - x)) for x, y in zip(lo, hi)], hi]; rng.shuffle(vs)
                o += [fbits(x) for v in vs for x in v]
            return o, []
        assert (3*n) % 7 or n == 7
        k = n - 1 + max(prev - 1, 0)
        hs.append(H(name, code, spec, nf=9*n, nvirt=3*k, nof=6*(2*n-1) + 3*n, noi=noi(n) + 1, cfgs=list(cfgs),
                    opts={'hooks': {HT: hook(axes, k), HB: hook(axes, k)}, 'maxpaths': 20000}, tier=tierh, derive=pinT, search=search))
    tri('tritree_16', 5, [0], 2, 12, C); tri('tritree_32', 4, [1, 2], 4, 20)
    PB = 'Aabb pa[{0}]; for (int q = 0; q < {0}; q++) pa[q] = Aabb(f32x4(3.0f*q - 9.0f, q, -q), f32x4(3.0f*q - 8.0f, q + 2.0f, 1.0f - q)); b.recreate(pa, root, {0}); '
    tri('tri_after_boxes', 4, [0], 2, 12, prev=2, prevcode=PB.format(2)); tri('tri_again_fewer', 2, [0], 2, 12, prev=3, prevcode=PT)
    if deep: tri('tritree_x6', 6, [0], 4, 12)
    # ---- the real split search: boxes with symbolic extent along one axis
    def sahref(ax, n, cen):
        """no bin border gives a cheaper split than the chosen one (None: leaf)"""
        def g(E, k, areaof, cnt, chosen):
            c = [cen(E, p) for p in range(n)]
            lo, hi = c[0], c[0]
            for x in c[1:]: lo = E.min(lo, x); hi = E.max(hi, x)
            out = []
            for i in range(7):
                s_ = lo + (hi - lo)*E.k(Fr(i+1, 8))
                for m in range(1, (1 << n) - 1):
                    S = [p for p in range(n) if m >> p & 1]; T = [p for p in range(n) if not m >> p & 1]
                    side = E.AND(*([E.lt(c[p], s_) for p in S] + [E.le(s_, c[p]) for p in T]))
                    cost = areaof(S)*E.k(len(S)) + areaof(T)*E.k(len(T))
                    out.append(E.IMP(E.AND(E.lt(lo, hi), side), E.le(chosen, cost + E.k(Fr(1, 16)))))
            E.true('no cheaper bin split', E.AND(*out))     # 1/16: violations keep clear of rounding
        return g
    def sah(name, n, ax, cfgs=('sse2',), tierh='quick', perm=None, tri=False):
        o = [(ax+1) % 3, (ax+2) % 3]
        TI, st = ('uint32_t', 20) if ax == 2 else ('uint16_t', 12)      # index type and vertex stride
        # concrete cross sections, symbolic [lo, lo + w] along the axis
        W = [(0, 1, 0, 2), (0, 2, 1, 2), (1, 2, 0, 1), (0, 1, 1, 3)]
        def bxs(E):
            out = []
            for q in range(n):
                lo = [None]*3; hi = [None]*3; w = W[q]
                lo[ax], hi[ax] = E.f[2*q] - E.f[2*q+1], E.f[2*q] + E.f[2*q+1]; lo[o[0]], hi[o[0]] = E.k(w[0]), E.k(w[1]); lo[o[1]], hi[o[1]] = E.k(w[2]), E.k(w[3])
                out.append((lo, hi))
            return out
        def pre(E):
            # without loss of generality (translation, scaling) the extreme centres are 0 and 8
            for q in range(n):
                E.assume(E.le(0, E.f[2*q+1])); E.assume(E.le(E.f[2*q+1], 64))
                if q not in perm: E.assume(E.le(0, E.f[2*q])); E.assume(E.le(E.f[2*q], 8))
        def der(E):
            E.f = list(E.f); E.f[2*perm[0]] = E.k(0); E.f[2*perm[1]] = E.k(8)
        code = N_(n) + f'const int A = {ax}, B = {o[0]}, D = {o[1]}; ' + 'Aabb a[N]; Aabb root; f32x4 c[N]; { float lo[3], hi[3], rl[3] = {0,0,0}, rh[3] = {0,0,0}; const float W[4][4] = {{0,1,0,2},{0,2,1,2},{1,2,0,1},{0,1,1,3}};' \
            '' \
            'rl[A] = f[0] - f[1]; rh[A] = f[0] + f[1]; rl[B] = 0; rh[B] = 3; rl[D] = 0; rh[D] = 3; for (int q = 0; q < N; q++) { lo[A] = f[2*q] - f[2*q+1]; hi[A] = f[2*q] + f[2*q+1]; lo[B] = W[q][0]; hi[B] = W[q][1]; lo[D] = W[q][2]; hi[D] = W[q][3];' \
            'a[q] = Aabb(S3(lo), S3(hi)); rl[A] = std::min(rl[A], lo[A]); rh[A] = std::max(rh[A], hi[A]); float m[3]; m[A] = f[2*q]; m[B] = 1; m[D] = 1; c[q] = S3(m); } root = Aabb(S3(rl), S3(rh)); }' \
            + ('Bvh b; b.recreate(a, root, N, c);' if not tri else f'{TI} ix[3*N]; alignas(16) uint8_t v[3*N*{st}] = {{}}; for (int q = 0; q < N; q++) {{ auto lo = (float3)a[q].getMin(), hi = (float3)a[q].getMax(); for (int j = 0; j < 3; j++) {{ float3 p; for (int k = 0; k < 3; k++) p[k] = (k+q)%3 == j ? lo[k] : (k+q+1)%3 == j ? hi[k] : k == A ? f[2*q] : lo[k]; int w = (3*q+j+4) % (3*N); memcpy(v + w*{st}, &p, 12); ix[3*q+j] = ({TI})w; }} }} Bvh b; b.recreate(v, (const uint8_t*)ix, root, 3*N, {st}, sizeof({TI}), c);') + DUMP
        def spec(E):
            bs = bxs(E)
            rl = bs[0][0][ax]; rh = rl
            for lo, hi in bs: rl = E.min(rl, lo[ax]); rh = E.max(rh, hi[ax])
            root = ([E.k(0)]*3, [E.k(3)]*3); root[0][ax] = rl; root[1][ax] = rh
            tree(E, n, bs, root, sah=True)
            def areaof(S):
                d = []
                for a in range(3):
                    lo, hi = bs[S[0]][0][a], bs[S[0]][1][a]
                    for p in S[1:]: lo = E.min(lo, bs[p][0][a]); hi = E.max(hi, bs[p][1][a])
                    d.append(hi - lo)
                return d[0]*d[1] + d[0]*d[2] + d[1]*d[2]
            ints = [w.v if hasattr(w, 'v') else w for w in E.oi]
            r = (rh - rl); ra = E.k(9) + r*E.k(6); ra = ra*E.k(n)
            if ints[0] == 1: chosen = ra
            else:
                c1 = ints[3]; u = lambda k: ints[2+3*k]
                # primitives of the first split: left child range
                P = ints[2 + 3*(2*n-1):2 + 3*(2*n-1) + n]
                def below(k): return P[ints[3+3*k]:ints[3+3*k]+ints[2+3*k]] if ints[2+3*k] else below(ints[3+3*k]) + below(ints[3+3*k]+1)
                S, T = below(c1), below(c1+1); chosen = areaof(S)*E.k(len(S)) + areaof(T)*E.k(len(T))
            sahref(ax, n, lambda E, p: E.f[2*p])(E, 0, areaof, None, chosen)
        hs.append(H(name, code, spec, nf=2*n, nof=6*(2*n-1), noi=noi(n), pre=pre, derive=der, cfgs=list(cfgs), opts={'maxpaths': 20000, 'ite': 'sym', 'itecheck': True, 'table': False}, tier=tierh,
                    gen=lambda rng: (sum([[Fr(rng.randint(0, 64), 8), Fr(rng.randint(0, 20), 4)] for _ in range(n)], []), [])))
    sah('sah_x3', 3, 0, C, perm=(0, 2)); sah('sah_y3', 3, 1, perm=(2, 1)); sah('sah_z3', 3, 2, perm=(1, 0)); sah('sah_z2', 2, 2, perm=(1, 0)); sah('trisah_x3', 3, 0, perm=(1, 2), tri=True); sah('trisah_z3', 3, 2, perm=(0, 1), tri=True)
    if deep:
        for k, pm in enumerate([(0, 3), (2, 0), (1, 3)]): sah(f'sah4_{k}', 4, k, perm=pm); sah(f'trisah4_{k}', 4, k, perm=pm, tri=True)
    # ---- nodes below the root: given centroids, symbolic half widths along the split axis, every inner node against all bin borders of its own centroids
    def below(name, cen, ax, tri=False, cfgs=('sse2',), same=False):     # same: equal cross sections and centres, so that a split may gain nothing
        n = len(cen); o = [(ax+1) % 3, (ax+2) % 3]; W = [(0, 1, 0, 2), (0, 2, 1, 2), (1, 2, 0, 1), (0, 1, 1, 3), (0, 3, 1, 2)]; mid = [0]*n if same else cen
        if same: W = [(0, 1, 0, 2)]*5
        Ws = '{' + ','.join('{%d,%d,%d,%d}' % w for w in W) + '}'
        TI, st = ('uint32_t', 24) if ax == 2 else ('uint16_t', 16)
        def bxs(E):
            out = []
            for q in range(n):
                lo = [None]*3; hi = [None]*3; w = W[q]
                lo[ax], hi[ax] = E.k(mid[q]) - E.f[q], E.k(mid[q]) + E.f[q]; lo[o[0]], hi[o[0]] = E.k(w[0]), E.k(w[1]); lo[o[1]], hi[o[1]] = E.k(w[2]), E.k(w[3])
                out.append((lo, hi))
            return out
        def pre(E):
            for q in range(n): E.assume(E.le(0, E.f[q])); E.assume(E.le(E.f[q], 32))
        code = N_(n) + f'const int A = {ax}, B = {o[0]}, D = {o[1]}; const float cen[N] = {{{", ".join(map(str, cen))}}}, mid[N] = {{{", ".join(map(str, mid))}}}; ' + 'Aabb a[N]; Aabb root(f32x4(-256.0f, -256.0f, -256.0f), f32x4(256.0f, 256.0f, 256.0f)); f32x4 c[N]; { float lo[3], hi[3]; const float W[5][4] = ' + Ws + ';' \
            'for (int q = 0; q < N; q++) { lo[A] = mid[q] - f[q]; hi[A] = mid[q] + f[q]; lo[B] = W[q][0]; hi[B] = W[q][1]; lo[D] = W[q][2]; hi[D] = W[q][3]; a[q] = Aabb(S3(lo), S3(hi)); float m[3]; m[A] = cen[q]; m[B] = 1; m[D] = 1; c[q] = S3(m); } }' \
            + ('Bvh b; b.recreate(a, root, N, c);' if not tri else f'{TI} ix[3*N]; alignas(16) uint8_t v[3*N*{st}] = {{}}; for (int q = 0; q < N; q++) {{ auto lo = (float3)a[q].getMin(), hi = (float3)a[q].getMax(); for (int j = 0; j < 3; j++) {{ float3 p; for (int k = 0; k < 3; k++) p[k] = (k+q)%3 == j ? lo[k] : (k+q+1)%3 == j ? hi[k] : k == A ? mid[q] : lo[k]; int w = (3*q+j+4) % (3*N); memcpy(v + w*{st}, &p, 12); ix[3*q+j] = ({TI})w; }} }} Bvh b; b.recreate(v, (const uint8_t*)ix, root, 3*N, {st}, sizeof({TI}), c);') + DUMP
        def spec(E):
            bs = bxs(E)
            def areaof(S):
                d = []
                for a in range(3):
                    lo, hi = bs[S[0]][0][a], bs[S[0]][1][a]
                    for p in S[1:]: lo = E.min(lo, bs[p][0][a]); hi = E.max(hi, bs[p][1][a])
                    d.append(hi - lo)
                return d[0]*d[1] + d[0]*d[2] + d[1]*d[2]
            def node(E, k, S, T, whole):
                leaf = T is None; U = S + (T or [])
                if leaf and len(U) < 3: return
                lo, hi = min(cen[p] for p in U), max(cen[p] for p in U); chosen = whole*E.k(len(U)) if leaf else areaof(S)*E.k(len(S)) + areaof(T)*E.k(len(T)); out = []; seen = set()
                for i in range(1, 8):
                    s_ = lo + Fr(hi - lo)*i/8; L = frozenset(p for p in U if cen[p] < s_); R = frozenset(U) - L
                    if not L or not R or L in seen: continue
                    seen.add(L); out.append(E.le(chosen, areaof(sorted(L))*E.k(len(L)) + areaof(sorted(R))*E.k(len(R)) + E.k(Fr(1, 16))))
                if not leaf: E.true('node split at a bin border of its own centroids', frozenset(S) in seen or frozenset(T) in seen)
                E.true('no cheaper bin split of the node', E.AND(*out))
            tree(E, n, bs, ([E.k(-256)]*3, [E.k(256)]*3), sah=node)
        hs.append(H(name, code, spec, nf=n, nof=6*(2*n-1), noi=noi(n), pre=pre, cfgs=list(cfgs), opts={'maxpaths': 20000, 'ite': 'sym', 'itecheck': True, 'table': False},
                    gen=lambda rng: ([Fr(rng.randint(0, 80), 4) for _ in range(n)], [])))
    below('below_x4', [20, 1, 200, 8], 0); below('below_tri_z4', [15, -200, 2, 6], 2, tri=True); below('below_y5', [200, 20, -180, 1, 8], 1); below('same_z4', [15, -200, 2, 6], 2, same=True); below('same_tri_y4', [-200, 15, 6, 2], 1, tri=True, same=True); below('below_tri_x5', [3, 200, 20, -180, 8], 0, tri=True)
    if deep: below('below_z5', [200, 20, 1, 30, 8], 2); below('below_tri_y5', [3, 200, 20, 1, 8], 1, tri=True)
    # ---- many primitives: concrete scene with one moving box, the real split search on all three axes
    def wide(name, n, who, ax, tri=False, cfgs=('sse2',), tierh='quick', seed=1, rng_=(-6, 6), chain=False):
        R = random.Random(seed*100 + n); cells = R.sample(range(216), n)
        base = []
        for q in range(n):
            lo = [4*(cells[q] // 6**a % 6) - 12 for a in range(3)]
            if chain: lo = [q % 3 * 3, (q * 5) % 4, 12*(q // 3) - 30 + q % 3]      # clusters of three along z
            else: lo[(ax+2) % 3] *= 2
            base.append((lo, [x + R.choice([1, 2, 3]) for x in lo]))
        TI, st = ('uint32_t', 20) if ax == 2 else ('uint16_t', 12)
        flat = ', '.join(f'{x}' for lo, hi in base for x in lo + hi)
        code = N_(n) + f'static const float S[6*N] = {{{flat}}}; Aabb a[N]; Aabb root(f32x4(-32.0f, -32.0f, -32.0f), f32x4(32.0f, 32.0f, 32.0f)); float bb[6*N]; memcpy(bb, S, sizeof(S)); {{ float w = bb[{6*who+ax+3}] - bb[{6*who+ax}]; bb[{6*who+ax}] = f[0]; bb[{6*who+ax+3}] = f[0] + w; }}' \
            'for (int q = 0; q < N; q++) a[q] = Aabb(S3(bb+6*q), S3(bb+6*q+3)); Bvh b; ' \
            + ('b.recreate(a, root, N);' if not tri else f'{TI} ix[3*N]; alignas(16) uint8_t v[3*N*{st}] = {{}}; for (int q = 0; q < N; q++) for (int j = 0; j < 3; j++) {{ float p[3]; for (int k = 0; k < 3; k++) p[k] = (k + q) % 3 == j ? bb[6*q+k] : (k + q + 1) % 3 == j ? bb[6*q+3+k] : (bb[6*q+k] + bb[6*q+3+k]) * 0.5f; int w = (3*q + j + 7) % (3*N); memcpy(v + w*{st}, p, 12); ix[3*q+j] = ({TI})w; }} b.recreate(v, (const uint8_t*)ix, root, 3*N, {st}, sizeof({TI}));') + DUMP
        def pre(E): E.assume(E.le(E.k(rng_[0]), E.f[0])); E.assume(E.le(E.f[0], E.k(rng_[1])))
        def spec(E):
            bs = [([E.k(x) for x in lo], [E.k(x) for x in hi]) for lo, hi in base]
            lo, hi = bs[who]; w = base[who][1][ax] - base[who][0][ax]; lo[ax] = E.f[0]; hi[ax] = E.f[0] + E.k(w)
            def areaof(S):
                d = []
                for a in range(3):
                    lo, hi = bs[S[0]][0][a], bs[S[0]][1][a]
                    for p in S[1:]: lo = E.min(lo, bs[p][0][a]); hi = E.max(hi, bs[p][1][a])
                    d.append(hi - lo)
                return d[0]*d[1] + d[0]*d[2] + d[1]*d[2]
            def cz(p, a): return Fr(base[p][0][a] + base[p][1][a], 2)
            def node(E, k, S, T, whole):
                # against all bin borders of the axes on which the centres of the node's primitives are concrete
                leaf = T is None; U = S + (T or [])
                if leaf and len(U) < 3: return
                chosen = whole*E.k(len(U)) if leaf else areaof(S)*E.k(len(S)) + areaof(T)*E.k(len(T)); out = []; seen = set()
                for a in range(3):
                    if a == ax and who in U: continue
                    lo, hi = min(cz(p, a) for p in U), max(cz(p, a) for p in U)
                    for i in range(1, 8):
                        s_ = lo + (hi - lo)*i/8; L = frozenset(p for p in U if cz(p, a) < s_); R_ = frozenset(U) - L
                        if any(abs(cz(p, a) - s_) < Fr(1, 1000) for p in U): continue      # on the border: the side is a matter of rounding
                        if not L or not R_ or L in seen: continue
                        seen.add(L); out.append(E.le(chosen, areaof(sorted(L))*E.k(len(L)) + areaof(sorted(R_))*E.k(len(R_)) + E.k(Fr(1, 16))))
                E.true('no cheaper bin split of the node', E.AND(*out))
            tree(E, n, bs, ([E.k(-32)]*3, [E.k(32)]*3), sah=node)
        hs.append(H(name, code, spec, nf=1, nof=6*(2*n-1), noi=noi(n), pre=pre, cfgs=list(cfgs), opts={'maxpaths': 20000, 'table': False}, tier=tierh, budget=200,
                    gen=lambda rng: ([Fr(rng.randint(8*rng_[0], 8*rng_[1]), 8)], [])))
    wide('wide_12', 12, 5, 0); wide('wide_tri_12', 12, 7, 2, tri=True); wide('wide_chain', 15, 7, 0, rng_=(2, 4), chain=True); wide('wide_tri_chain', 15, 4, 1, tri=True, rng_=(2, 4), chain=True)
    if deep: wide('wide_18', 18, 9, 1, rng_=(-3, 3)); wide('wide_tri_18', 18, 3, 0, tri=True, rng_=(-3, 3), seed=2)
    # ---- float arithmetic of the split search: two primitives, any finite distance
    MASK = 0x001fffff if not deep else 0x0007ffff      # distance with a 3 (thorough 5) bit significand, any exponent
    def prefin(E):
        x = E.w(E.f[0]); E.assume(x.ult(0x7f800000)); E.assume(x.ne(0)); E.assume((x & MASK).eq(0))
    def spec(E):
        E.true('axis', E.oi[0].slt(3) if hasattr(E.oi[0], 'slt') else 0 <= E.oi[0] < 3)
    hs.append(H('split_two', N_(2) + 'Aabb a[N] = {Aabb(f32x4(0,0,0), f32x4(1,1,1)), Aabb(f32x4(2,2,2), f32x4(3,3,3))}; f32x4 c[N] = {f32x4(0, 0, 0), f32x4(f[0], 0, 0)}; uint32 p[N] = {0, 1};'
       'int32 axis; float split, cost; findBestSplitPlane(0, 2, a, p, c, axis, split, cost); oi[0] = axis; of[0] = split; of[1] = cost;', spec, nf=1, nof=2, noi=1, mode='bits', pre=prefin, cfgs=['sse2'], asan=True, opts={'branch_timeout': 40000, 'weight': 100}, budget=200))
    return hs
