"""C31: BVH traversal and frustum collection."""
from fractions import Fraction as Fr
from vf import H
from C30 import SC as SC7
SC = SC7 + [((3, 4, 5), (5, 5, 9)), ((-8, -8, 1), (-6, -5, 2)), ((8, 6, -6), (11, 7, -4)), ((-3, -9, 7), (-2, -7, 8)), ((0, 3, -12), (1, 6, -10))]
META = dict(
 title='BVH traversal and frustum collection visit exactly the reachable nodes',
 statement='Bvh::traverse calls isIntersected exactly once for the root and for both children of every accepted inner node, calls onLeaf exactly once with the primitive range of every accepted leaf, and leaves the stack empty for the next query. '
   'collectInFrustum reports every primitive whose box is not entirely behind one of the planes, reports none of a leaf that is, none twice, and returns the number written, with its own or a caller supplied stack. Node count, child and primitive fields do not disturb the box and vice versa.',
 quant='every accept/reject decision of the callback on all binary trees of up to 4 leaves; every set of one or two planes', over=['inputs', 'histories'],
 why='skipped or doubly visited nodes appear only for particular combinations of accepted and rejected siblings and of stack contents',
 files=['source/bvh.cpp', 'include/math/bvh.hpp'],
 mech=[('Bvh::traverse', 'include/math/bvh.hpp'), ('Bvh::collectInFrustum', 'source/bvh.cpp'), ('isBehindFrustum', 'include/math/aabb.hpp'), ('Node accessors', 'include/math/bvh.hpp')],
 note='')
EXPLAIN = 'Trees are laid out directly in the node array (all shapes), the callback answers and the planes are symbolic; counters written by the callbacks are compared with the reachability of each node.'
ASSUME = ['real arithmetic for the plane distances']
ALT = {'quick': ('scalar',), 'thorough': ('scalar', 'neon')}
BOUNDS = ['all binary trees with up to 4 leaves (5 leaves thorough), both child orders; leaves of one to three primitives; chains and a balanced tree of 14 (traverse) and 12 (collect) leaves with 4 to 6 free answers resp. one moving plane', 'one and two arbitrary planes, six axis planes with one of them moving; boxes of the collected tree are concrete']
SOURCES = ['source/bvh.cpp']
def shapes(n):
    """binary trees with n leaves as nested tuples"""
    if n == 1: return ['L']
    return [(a, b) for k in range(1, n) for a in shapes(k) for b in shapes(n - k)]
def layout(t, cnt=(1, 2)):
    """node table: (left,) for inner nodes, (first, count) for leaves; children adjacent, allocated in depth first order"""
    nodes = [None]; prim = [0]; lf = [0]
    def put(k, t):
        if t == 'L':
            c = cnt[lf[0] % len(cnt)]; lf[0] += 1; nodes[k] = (prim[0], c); prim[0] += c
        else:
            l = len(nodes); nodes.extend([None, None]); nodes[k] = (l,)
            put(l, t[0]); put(l+1, t[1])
    put(0, t)
    return nodes, prim[0]
HEADT = '''
struct TB : Bvh { using Bvh::nodes; using Bvh::primitives;
  void leaf(int k, int first, int count) { nodes[k].setFirstPrimitive(first); nodes[k].setPrimitiveCount(count); }
  void inner(int k, int left) { nodes[k].setLeftNode(left); nodes[k].setPrimitiveCount(0); } };
'''
def perm(np_):
    return [(q*3 + 1) % np_ if np_ % 3 else (np_ - 1 - q) for q in range(np_)]
def setup(nodes, np_):
    s = f'TB b; b.nodes.resize({len(nodes)}); b.primitives = {{{", ".join(map(str, perm(np_)))}}}; '
    for k, n in enumerate(nodes): s += f'b.inner({k}, {n[0]}); ' if len(n) == 1 else f'b.leaf({k}, {n[0]}, {n[1]}); '
    return s
def unions(nodes, P):
    bx = [None]*len(nodes)
    def go(k):
        n = nodes[k]
        if len(n) == 2: s = [SC[P[q]] for q in range(n[0], n[0] + n[1])]
        else: s = [go(n[0]), go(n[0]+1)]
        bx[k] = (tuple(min(b[0][a] for b in s) for a in range(3)), tuple(max(b[1][a] for b in s) for a in range(3)))
        return bx[k]
    go(0); return bx
def harnesses(tier):
    hs = []; deep = tier == 'thorough'
    C = ['sse2', 'haswell']
    # ---- traverse
    def trav(name, t, twice, cfgs=('sse2',), cnt=(1, 2), free=None):      # free: nodes whose answer is symbolic, all others are accepted
        nodes, np_ = layout(t, cnt); n = len(nodes)
        par = {}
        for k, x in enumerate(nodes):
            if len(x) == 1: par[x[0]] = k; par[x[0]+1] = k
        call = lambda m, o: (f'{{ uint32 acc = (uint32)i[{m}]; b.traverse([&](const Bvh::Node& nd) {{ int id = (int)(&nd - b.nodes.data()); oi[{o}+id]++; return (bool)((acc >> id) & 1); }}, '
                             f'[&](uint32 first, uint32 count) {{ oi[{o+n}+first]++; oi[{o+n+np_}+first] += count; }}); }}')
        runs = 2 if twice else 1; sz = n + 2*np_
        code = setup(nodes, np_) + f'for (int k = 0; k < {sz*runs+1}; k++) oi[k] = 0; ' + ''.join(call(r, r*sz) for r in range(runs)) + f'oi[{sz*runs}] = (int)b.getNodeStack().size();'
        def spec(E):
            for r in range(runs):
                acc = lambda k: (E.i[r] & (1 << k)).ne(0) if free is None or k in free else True
                for k in range(n):
                    c = True; q = k
                    while q in par: q = par[q]; c = E.AND(c, acc(q))
                    v = E.oi[r*sz + k]
                    E.true(f'node {k} visited', E.AND(E.IMP(c, v.eq(1)), E.IMP(E.NOT(c), v.eq(0))))
                    if len(nodes[k]) == 2:
                        f, cn = nodes[k]; hit = E.AND(c, acc(k)); h = E.oi[r*sz + n + f]; m = E.oi[r*sz + n + np_ + f]
                        E.true(f'leaf {k} reported', E.AND(E.IMP(hit, E.AND(h.eq(1), m.eq(cn))), E.IMP(E.NOT(hit), E.AND(h.eq(0), m.eq(0)))))
            E.weq('stack empty', E.oi[runs*sz], 0)
        fm = sum(1 << k for k in free) if free is not None else 0
        def pre(E):
            if free is not None:
                for r in range(runs): E.assume((E.i[r] | fm).eq(0xffffffff))
        hs.append(H(name, code, spec, ni=runs, noi=sz*runs+1, mode='bits', cfgs=list(cfgs), head=HEADT, opts={'maxpaths': 20000}, pre=pre if free is not None else None, gen=lambda rng: ([], [rng.getrandbits(12) if free is None else rng.getrandbits(32) & fm | (0xffffffff & ~fm) for _ in range(runs)])))
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for j, t in enumerate(shapes(n)): trav(f'traverse_{n}_{j}', t, False, C if j == 0 else ['sse2'])
    for j, t in enumerate(shapes(3)): trav(f'traverse_twice_{j}', t, True)
    # deep trees: 14 leaves
    def chain(n, left): return 'L' if n == 1 else (chain(n-1, left), 'L') if left else ('L', chain(n-1, left))
    def full(n): return 'L' if n == 1 else (full((n+1)//2), full(n//2))
    trav('traverse_left_14', chain(14, True), False, free=(0, 2, 9, 24, 25, 26)); trav('traverse_right_14', chain(14, False), False, free=(4, 11, 20, 26)); trav('traverse_full_14', full(14), False, free=(1, 2, 3, 4, 13, 25))
    # ---- empty tree
    hs.append(H('empty', 'Bvh b; int n = 0; b.traverse([&](const Bvh::Node&) { n++; return true; }, [&](uint32, uint32) { n++; }); Plane p(f32x4(0, 0, 1), f[0]); uint32 out[2]; oi[0] = n; oi[1] = (int)b.collectInFrustum(&p, 1, out);',
        lambda E: (E.weq('no callback', E.oi[0], 0), E.weq('nothing collected', E.oi[1], 0)), nf=1, noi=2, cfgs=['sse2']))
    # ---- collectInFrustum
    def coll(name, t, npl, own, cfgs=('sse2',), cnt=(1, 2), fixed=None):      # fixed: the planes' normals; only the distances of planes with None are symbolic
        nodes, np_ = layout(t, cnt); P = perm(np_); bx = unions(nodes, P)
        v = lambda t: 'f32x4(%d, %d, %d)' % t
        code = setup(nodes, np_)
        for k, (lo, hi) in enumerate(bx): code += f'{{ auto c = b.nodes[{k}].getPrimitiveCount(), l = b.nodes[{k}].getLeftNode(); b.nodes[{k}].aabb = Aabb({v(lo)}, {v(hi)}); b.nodes[{k}].setPrimitiveCount(c); b.nodes[{k}].setLeftNode(l); }} '
        code += f'Plane p[{npl}]; for (int k = 0; k < {npl}; k++) p[k] = Plane(S3(f+4*k), f[4*k+3], false); uint32 out[{2*np_}]; std::stack<Bvh::Node*> st; for (int k = 0; k < {2*np_}; k++) out[k] = 999;' \
            + (''.join(f'p[{k}] = Plane(f32x4({x}, {y}, {z}), {f"f[{k}]" if d is None else f"{d}.0f"}, false); ' for k, (x, y, z, d) in enumerate(fixed)) if fixed else '') + f'uint32 n = b.collectInFrustum(p, {npl}, out, {"&st" if own else "nullptr"}); oi[0] = (int)n; for (int k = 0; k < {2*np_}; k++) oi[1+k] = (int)out[k]; oi[{1+2*np_}] = (int)(st.size() + b.getNodeStack().size());'
        def behind(E, b):
            lo, hi = b; r = False
            for k in range(npl):
                x, y, z, d = E.f[4*k:4*k+4] if not fixed else [E.k(w) for w in fixed[k][:3]] + [E.f[k] if fixed[k][3] is None else E.k(fixed[k][3])]; c = True
                for X in (lo[0], hi[0]):
                    for Y in (lo[1], hi[1]):
                        for Z in (lo[2], hi[2]): c = E.AND(c, E.lt(x*E.k(X) + y*E.k(Y) + z*E.k(Z) + d, E.k(0)))
                r = E.OR(r, c)
            return r
        def spec(E):
            oi = [w.v for w in E.oi]; n = oi[0]
            E.true('count', isinstance(n, int) and n <= np_)
            if not (isinstance(n, int) and n <= np_): return
            got = oi[1:1+n]
            E.true('no duplicates', len(set(got)) == n and all(0 <= x < np_ for x in got)); E.true('rest untouched', all(x == 999 for x in oi[1+n:1+2*np_]))
            E.weq('stack empty', E.oi[1+2*np_], 0)
            for k, nd in enumerate(nodes):
                if len(nd) != 2: continue
                lb = behind(E, bx[k])
                for q in range(nd[0], nd[0] + nd[1]):
                    if P[q] in got: E.true(f'leaf {k} not behind', E.NOT(lb))
                    else: E.true(f'primitive {P[q]} behind', behind(E, SC[P[q]]))
        hs.append(H(name, code, spec, nf=4*npl, noi=2+2*np_, cfgs=list(cfgs), head=HEADT, opts={'maxpaths': 20000, 'ite': 'sym'}))
    for j, t in enumerate(shapes(3)): coll(f'collect3_{j}', t, 1, j % 2, C)
    for j, t in enumerate(shapes(4)):
        if deep or j in (0, 2, 4): coll(f'collect4_{j}', t, 1, (j + 1) % 2)
    for j, t in enumerate(shapes(2)): coll(f'collect2_{j}', t, 1, j % 2, cnt=(2, 1))
    for j, t in enumerate(shapes(3)): coll(f'collect3r_{j}', t, 1, (j + 1) % 2, cnt=(2, 1, 1)); coll(f'collect3m_{j}', t, 1, j % 2, cnt=(1, 3, 1))
    coll('collect_ones', shapes(4)[2], 1, False, cnt=(1,)); coll('collect_last', shapes(4)[0], 1, True, cnt=(1, 2, 2, 1))
    for j, t in enumerate(shapes(3)): trav(f'traverse_r_{j}', t, False, cnt=(2, 3, 1))
    coll('collect_planes2', shapes(3)[1], 2, False)
    coll('collect_root', 'L', 2, True)
    # deep trees, six planes
    FAR = [(1, 0, 0, 90), (-1, 0, 0, 80), (0, 1, 0, 70), (0, -1, 0, 60), (0, 0, 1, 50), (0, 0, -1, 40)]
    for j in range(6): coll(f'collect_six_{j}', full(6), 6, j % 2, cnt=(1, 2), fixed=[(w[:3] + (None,)) if q == j else w for q, w in enumerate(FAR)])
    coll('collect_left_12', chain(12, True), 1, False, cnt=(1,), fixed=[(1, 0, 0, None)]); coll('collect_right_12', chain(12, False), 1, True, cnt=(1,), fixed=[(0, -1, 0, None)]); coll('collect_full_12', full(12), 1, False, cnt=(1,), fixed=[(0, 0, 1, None)])
    if deep: coll('collect_planes2b', shapes(4)[2], 2, True)
    # ---- node fields
    def spec(E):
        E.weq('count', E.oi[0], E.i[0]); E.weq('left', E.oi[1], E.i[1]); E.weq('first', E.oi[2], E.i[1]);
        E.true('isLeaf', E.IFF(E.oi[3].ne(0), E.i[0].ne(0)))
        for k in range(6): E.beq(f'box {k}', E.of[k], E.f[k])
        E.weq('count after first', E.oi[4], E.i[0]); E.weq('left after count', E.oi[5], E.i[1])
    hs.append(H('node_fields', 'Bvh::Node n; n.aabb = Aabb(S3(f), S3(f+3)); n.setPrimitiveCount((uint32)i[0]); n.setLeftNode((uint32)i[1]); oi[0] = (int)n.getPrimitiveCount(); oi[1] = (int)n.getLeftNode(); oi[2] = (int)n.getFirstPrimitive(); oi[3] = n.isLeaf();'
        'P3(of, n.aabb.getMin()); P3(of+3, n.aabb.getMax()); n.setFirstPrimitive((uint32)i[1]); oi[4] = (int)n.getPrimitiveCount(); n.setPrimitiveCount((uint32)i[0]); oi[5] = (int)n.getLeftNode();', spec, nf=6, ni=2, nof=6, noi=6, mode='bits', cfgs=C, pre=lambda E: [E.assume(E.fcmp('ole', E.f[j], E.f[3+j])) for j in range(3)]))
    return hs
