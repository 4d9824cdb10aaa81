#!/usr/bin/env python3-vt
"""check.py <property> quick|thorough [harness-substring]
Decides one property by symbolic execution of the code compiled from /repo's working tree plus SMT solving."""
import os, sys, json, time, pickle, signal, traceback, select, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine'); sys.path.insert(0, HERE + '/props'); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import vf

def load_known():
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:'):
                # KNOWN-FINDING: property=C07 key=<harness>/<claim> <text>
                d = dict(x.split('=', 1) for x in l.split() if '=' in x and x.split('=')[0] in ('property', 'key'))
                out.append((d.get('property'), d.get('key'), l))
    return out

def replay_cmd(prop, path):
    """check.py <property> replay FILE: run the recorded inputs on the real build (g++) again and evaluate the specification on its outputs"""
    from fractions import Fraction
    d = json.load(open(path)); m = importlib.import_module(prop)
    hs = [h for h in m.harnesses('thorough') + m.harnesses('quick') if h.name == d['harness']][:1]
    for h in hs: h.cfg = d['cfg']
    if not hs: print('no such harness any more: ' + d['harness']); return 2
    b = vf.Build(prop, hs, getattr(m, 'SOURCES', ()), getattr(m, 'HEAD', ''), getattr(m, 'IRFLAGS', ()))
    try: b.build([d['cfg']])
    except vf.BuildError as e: print(f'BUILD-ERROR {e}'); return 2
    bc, so = b.files(d['cfg']); mod = vf.get_mod(bc)
    fb = d['f_bits']; ib = [x & 0xffffffff for x in d['i']]; virt = [Fraction(x) for x in d.get('virt') or []]
    bad, r = vf.replay(so, mod, hs[0], fb, ib, virt)
    how = 'real build'
    if not bad:
        bad, _ = vf.tight_replay(so, mod, hs[0], fb, ib, virt, vf.snapshot_globals(mod, hs[0].mode, bc)); how = 'exact evaluation and real build'
    if not bad and r[0] == 'ok' and vf.asan_replay(bc, hs[0], fb, ib): bad, how = [('memory error', None)], 'sanitizer build'
    print(f"{d['harness']} [{d['cfg']}] f={d['f']} i={d['i']}\noutputs: {r}")
    for n, v in bad: print(f'VIOLATED ({how}): {n} {v}')
    if bad: print(f'VIOLATION property={prop} replay={path}'); return 1
    print('not violated'); return 0

def main():
    if len(sys.argv) > 3 and sys.argv[2] == 'replay': sys.exit(replay_cmd(sys.argv[1], sys.argv[3]))
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    flt = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    m = importlib.import_module(prop)
    hs = [h for h in m.harnesses(tier) if tier == 'thorough' or h.tier == 'quick']
    if flt: hs = [h for h in hs if flt in h.name]
    total = getattr(m, 'TOTAL', {'quick': 240, 'thorough': 3600})[tier]
    maxj = getattr(m, 'BUDGET', {'quick': 60, 'thorough': 900})[tier]
    cfgs = sorted({c for h in hs for c in h.cfgs}); alts = []
    if not os.environ.get('VERIF_CFG'):
        alts = list(getattr(m, 'ALT', {'quick': vf.ALTS, 'thorough': vf.ALTS})[tier])
        for h in hs:
            if 'haswell' in h.cfgs: h.cfgs = list(h.cfgs) + [c for c in alts if c not in h.opts.get('noalt', ())]
    b = vf.Build(prop, hs, getattr(m, 'SOURCES', ()), getattr(m, 'HEAD', ''), getattr(m, 'IRFLAGS', ()))
    dropped = []; failed = set()
    try: b.build(cfgs + alts)
    except vf.BuildError as e: failed = e.cfgs; err = e
    if failed - set(alts):
        e = err
        dropped = b.drop_broken(cfgs)
        if not b.hs and hasattr(m, 'HEAD_PLAIN'):   # the hooked internal function changed its signature: run without the hook
            b = vf.Build(prop, hs, getattr(m, 'SOURCES', ()), m.HEAD_PLAIN, getattr(m, 'IRFLAGS', ()))
            try: b.build(cfgs); dropped = []
            except vf.BuildError: dropped = b.drop_broken(cfgs)
            print('INCONCLUSIVE the internal function replaced by the oracle is no longer declared as expected: its real code is executed instead')
        if not b.hs:
            print(f'BUILD-ERROR {e}'); sys.exit(2)
        hs = b.hs; b.build(cfgs)
        try: b.build(alts); failed = set()
        except vf.BuildError as e: failed = e.cfgs
        for n, msg in dropped: print(f'INCONCLUSIVE {n}: harness no longer compiles: {msg}')
    for c in sorted(failed & set(alts)):
        for n in b.drop_alt(c): dropped.append((n, f'does not compile in configuration {c}'))
    build_s = time.time() - t0
    jobs = []
    for h in hs:
        for c in h.cfgs: jobs.append((h, c))
    jobs.sort(key=lambda j: (j[1] in alts, -(j[0].opts.get('weight', 1))))
    ncpu = min(8, os.cpu_count() or 4)
    results = []; run = {}
    deadline = t0 + total
    todo = list(jobs); again = set()
    verbose = os.environ.get('V')
    while todo or run:
        while todo and len(run) < ncpu and time.time() < deadline - 1:
            h, c = todo.pop(0)
            bud = min(maxj if h.budget is None else h.budget * (1 if tier == 'quick' else 6), deadline - time.time())
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); os.setpgid(0, 0)
                    if not verbose:
                        dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1)
                    def progress(r, f=os.fdopen(os.dup(w), 'wb')):
                        v = r.violations; r.violations = list(v); d = pickle.dumps(r); r.violations = v
                        f.write(len(d).to_bytes(8, 'little') + d); f.flush()
                    try: res = vf.run_harness(h, c, *b.files(c), tier, seed, bud, (h.name, c) in again, progress)
                    except BaseException as e:
                        res = vf.Result(); res.name = h.name; res.cfg = c; res.error = traceback.format_exc()[-1500:]
                    res.inconclusive = res.inconclusive[:40]
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f: f.write(len(data).to_bytes(8, 'little') + data)
                finally: os._exit(0)
            os.close(w); run[r] = [h, c, pid, time.time() + bud + 20 + vf.SLICE * (1 if tier == 'quick' else 4), b'']
        if todo and time.time() >= deadline - 1:
            for h, c in todo:
                res = vf.Result(); res.name = h.name; res.cfg = c; res.inconclusive = ['not started: time budget']; results.append(res)
            todo = []
        if not run: break
        rd, _, _ = select.select(list(run), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 16)
            e = run[r]
            if d: e[4] += d; continue
            os.close(r); os.waitpid(e[2], 0); del run[r]
            res = None; buf = e[4]; o = 0
            while o + 8 <= len(buf):          # the last complete report of the worker
                n = int.from_bytes(buf[o:o+8], 'little')
                if o + 8 + n > len(buf): break
                res = pickle.loads(buf[o+8:o+8+n]); o += 8 + n
            if res is None:
                if (e[0].name, e[1]) not in again: again.add((e[0].name, e[1])); todo.insert(0, (e[0], e[1])); continue
                res = vf.Result(); res.name = e[0].name; res.cfg = e[1]; res.error = 'worker died'
            results.append(res)
            if verbose: show(res)
        for r in list(run):
            e = run[r]
            if time.time() > e[3]:
                try: os.killpg(e[2], signal.SIGKILL)
                except ProcessLookupError: pass
                try: os.kill(e[2], signal.SIGKILL)
                except ProcessLookupError: pass
                e[3] = time.time() + 60
    known = load_known()
    reported = []; knownhit = []
    hm = {h.name: h for h in hs}
    for res in results:
        for v in res.violations:
            key = f"{v['harness']}/{v['claim']}"
            k = [l for p, kk, l in known if p == prop and kk == key]
            if k:
                knownhit.append(k[0]); continue
            v['property'] = prop
            v['harness_source'] = hm[v['harness']].source()
            reported.append(v)
    rd = HERE + '/evidence/replay'; os.makedirs(rd, exist_ok=True)
    for l in sorted(set(knownhit)): print(l)
    seen = set(); nviol = 0
    for v in reported:
        key = v['harness']
        nviol += 1
        if key in seen: continue
        seen.add(key)
        path = f"{rd}/{prop}-{v['harness']}-{v['cfg']}-{nviol}.json"
        json.dump(v, open(path, 'w'), indent=1, default=str)
        if len(seen) <= 6:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   {v['harness']} [{v['cfg']}] claim={v['claim']} f={v['f']} i={v['i']} {v['violated'][:3]}")
    inc = [(r.name, r.cfg, x) for r in results for x in r.inconclusive] + [(r.name, r.cfg, 'internal: ' + r.error) for r in results if r.error]
    mis = [x for r in results for x in r.valmismatch]
    unrep = [(r.name, r.cfg, x) for r in results for x in r.unreproduced]
    for n, c, x in inc[:12]: print(f'INCONCLUSIVE {n} [{c}] {x[-300:]}')
    for x in mis[:8]: print(f'ENCODING-MISMATCH {x}')
    for n, c, x in unrep[:12]: print(f'UNREPRODUCED {n} [{c}] {x} (solver counterexample not confirmed by the real build; not reported)')
    claims = sum(r.claims for r in results); dis = sum(r.discharged for r in results)
    fns = sorted({f for r in results for f in r.fns})
    notes = sorted({n for r in results for n in r.notes})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
          'coverage': {
            'explanation': getattr(m, 'EXPLAIN', '') + ' Every harness function is compiled by clang to LLVM IR from the current /repo tree, executed '
                'symbolically on every feasible path; each claim is an SMT query path-condition AND NOT claim; unsat = holds for all inputs within the bounds.',
            'obligations': claims, 'discharged': dis, 'inconclusive': len(inc), 'unreproduced': len(unrep),
            'harnesses': len(hs), 'configurations': cfgs + alts, 'paths': sum(r.paths for r in results), 'special_paths': sum(r.specialpaths for r in results),
            'queries': sum(r.queries for r in results), 'decided_by_normal_form': sum(r.trivial for r in results),
            'solver_time_s': round(sum(r.solver_time for r in results), 2), 'build_s': round(build_s, 2),
            'translator_validations': sum(r.validated for r in results), 'translator_mismatches': mis[:10],
            'reachability_witnesses': sum(r.witness for r in results),
            'functions_encoded': [f for f in fns if not f.startswith('llvm.')][:400],
            'bounds': sorted({h.bound for h in hs if h.bound}) + list(getattr(m, 'BOUNDS', [])),
            'inconclusive_list': [f'{n}[{c}]: {x[-200:]}' for n, c, x in inc][:60], 'unreproduced_list': [f'{n}[{c}]: {x}' for n, c, x in unrep][:40],
            'notes': notes[:60], 'known_findings_hit': sorted(set(knownhit)),
            'samples': [r.sample for r in results if r.sample][:8] or [{'none': True}],
            'dropped': dropped,
            'per_harness': [{'h': r.name, 'cfg': r.cfg, 'paths': r.paths, 'claims': r.claims, 'ok': r.discharged, 's': round(r.wall, 1)} for r in results][:600],
          },
          'assumptions': list(getattr(m, 'ASSUME', [])) + [
            'clang 18 -O2 IR (vectorisers off, no fp-contract) represents the code; counterexamples are replayed on a g++ -O2 build',
            'real mode: float arithmetic is exact (rounding, overflow, NaN outside the claim); bits mode: IEEE-754 binary32 round-to-nearest-even']}
    if not flt:
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1, default=str)
    print(f'{prop} {tier}: harness runs {len(results)}, paths {ev["coverage"]["paths"]}, claims {claims}, discharged {dis}, inconclusive {len(inc)}, '
          f'unreproduced {len(unrep)}, violations {nviol}, {ev["wall_s"]} s')
    sys.exit(1 if nviol else 0)

def show(r):
    print(f'-- {r.name} [{r.cfg}] paths={r.paths} claims={r.claims} ok={r.discharged} viol={[v["claim"] for v in r.violations]} inc={r.inconclusive[:5]} '
          f'unrep={r.unreproduced[:6]} special={r.specialpaths} val={r.validated} mis={r.valmismatch[:2]} wit={r.witness} q={r.queries} t={r.wall:.1f} notes={r.notes[:4]}'
          + (f'\n{r.error}' if r.error else ''), flush=True)
    for v in r.violations[:3]: print('    V', v['claim'], v['f'], v['i'], v['violated'][:2], v['why'])

main()
