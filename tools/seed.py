#!/usr/bin/env python3
"""Build and confirm a planted bug: seed.py NAME...   (definitions in tools/seeds/*.py; scratch copy under /tmp; nothing is applied to /repo)
For every seed: applies the edit to a scratch copy, builds it, runs the stable tests, runs the demo on both trees, runs the property's check
on the changed tree (VERIF_REPO) and stores patch.diff, demo.sh, demo.cpp, meta.json in seeded/NAME when it is a valid seed."""
import sys, os, subprocess, shutil, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
SEEDS = {}
def S(name, prop, edits, demo, needs, breaks, flags='', src=''):
    SEEDS[name] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, src=src)
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken.  Run with cwd = the library's root.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
g++ -std=c++17 -O1 -w %s -D_USE_MATH_DEFINES -DNOMINMAX -Iinclude "$d/demo.cpp" %s -o "$t/demo" || exit 3
"$t/demo"
'''
PRE = '''#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cfloat>
#include <cstring>
static bool nearly(double a, double b, double e = 1e-4) { return std::fabs(a - b) <= e * (1 + std::fabs(b)); }
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
def main():
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(open(f).read(), {'S': S})
    names = sys.argv[1:] or [n for n in SEEDS if not os.path.exists(f'{V}/seeded/{n}/patch.diff')]
    wt = '/tmp/seedwt'
    for n in names:
        s = SEEDS[n]
        shutil.rmtree(wt, ignore_errors=True)
        sh(f'cp -a /repo {wt} && cd {wt} && git checkout -q -- . && (test ! -d _build || find {wt}/_build -delete)')
        for f, old, new, *cnt in s['edits']:
            p = f'{wt}/{f}'; t = open(p).read()
            want = cnt[0] if cnt else 1
            if want == 'nth':
                parts = t.split(old); k = cnt[1]
                if len(parts) <= k: print(n, 'EDIT NOT FOUND', f, old); break
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                if t.count(old) != want: print(n, 'EDIT COUNT', t.count(old), f, old); break
                t = t.replace(old, new)
            open(p, 'w').write(t)
        else:
            d = f'/tmp/seeddemo'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + '/demo.cpp', 'w').write(PRE + s['demo']); open(d + '/demo.sh', 'w').write(DEMO_SH % (s['flags'], s['src']))
            diff = sh(f'git -C {wt} diff').stdout
            ok = sh(f'cd /repo && bash {d}/demo.sh'); bad = sh(f'cd {wt} && bash {d}/demo.sh')
            if ok.returncode or not bad.returncode or bad.returncode in (2, 3): print(n, 'DEMO BAD', ok.returncode, ok.stdout[-500:], bad.returncode, bad.stdout[-500:]); continue
            # build and stable tests on the real tree location (copied), via the build script with the path replaced
            sh(f"sed 's#/repo#{wt}#g' /opt/vp/configure-and-ninja.sh > /tmp/seedconfigure-and-ninja.sh")
            b = sh(f"sed 's#/repo#{wt}#g; s#/opt/vp/configure#/tmp/seedconfigure#' /opt/vp/build.sh > /tmp/seedbuild.sh; bash /tmp/seedbuild.sh")
            if b.returncode: print(n, 'BUILD FAILED', b.stdout[-600:]); continue
            t = sh(f"sed 's#/repo#{wt}#g; s#/opt/vp/configure#/tmp/seedconfigure#' /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json")
            tj = json.load(open('/tmp/seedtest.json'))
            if tj['failed'] or len(tj['passed']) < 4: print(n, 'TESTS FAIL', tj); continue
            out = f'{V}/seeded/{n}'; os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            shutil.copy(d + '/demo.cpp', out); shutil.copy(d + '/demo.sh', out)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            e = dict(os.environ, VERIF_REPO=wt, VERIF_SEED='1')
            c = sh(f'cd {V} && timeout 900 python3-vt check.py {s["prop"]} quick', env=e)
            vl = [l for l in c.stdout.splitlines() if l.startswith('   ')][:2]
            print(f'{n} {s["prop"]}: {"CAUGHT" if c.returncode == 1 and "VIOLATION property="+s["prop"] in c.stdout else "MISSED"} rc={c.returncode} {c.stdout.splitlines()[-1][:170] if c.stdout else ""}')
            rf = V + '/tools/seed_results.txt'
            rs = dict(l.rstrip('\n').split(' ', 1) for l in open(rf)) if os.path.exists(rf) else {}
            hn = sorted({l.split()[0] for l in c.stdout.splitlines() if l.startswith('   ')})
            rs[n] = f'{s["prop"]} ({", ".join(hn[:3])})' if c.returncode == 1 and hn else 'missed'
            open(rf, 'w').write(''.join(f'{a} {b}\n' for a, b in sorted(rs.items())))
            for l in vl: print('      ', l.strip()[:230])
    shutil.rmtree(wt, ignore_errors=True)
main()
