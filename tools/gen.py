#!/usr/bin/env python3-vt
"""regenerates properties.jsonl and MANIFEST.json from the META of props/*.py (single source of truth)"""
import sys, os, json, importlib, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/engine', H + '/props', H]
props, checks, na = [], [], []
for f in sorted(glob.glob(H + '/props/C[0-9]*.py')):
    m = importlib.import_module(os.path.basename(f)[:-3]); id = os.path.basename(f)[:-3]; M = m.META
    assert len(M['title']) <= 80, id
    assert len(re.findall(r'[.!?](\s|$)', M['statement'])) <= 3 or M.get('long'), (id, 'statement too long')
    props.append({'id': id, 'title': M['title'], 'statement': M['statement'],
        'quantifier': {'over': M.get('over', ['inputs']), 'text': M['quant']},
        'why_tests_cant': M['why'],
        'anchors': {'files': M['files'], 'mechanism': [{'name': a, 'where': b} for a, b in M['mech']], 'hook_needed': None}})
    checks.append({'property': id, 'quick_cmd': f'python3-vt /verif/check.py {id} quick', 'thorough_cmd': f'python3-vt /verif/check.py {id} thorough',
        'evidence_file': f'evidence/{id}.json', 'technique': M.get('tech', 'symbolic execution of the compiled LLVM IR + SMT (z3, cvc5), counterexamples replayed on the g++ build'),
        'level': 'other', 'level_note': M['note']})
for l in open(H + '/tools/not_applicable.jsonl') if os.path.exists(H + '/tools/not_applicable.jsonl') else []:
    if l.strip():
        d = json.loads(l)
        props.append(d['prop']); na.append({'property': d['prop']['id'], 'reason': d['reason']})
props.sort(key=lambda p: p['id'])
open(H + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in props))
man = {'version': 1, 'setup_cmd': 'python3-vt /verif/tools/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'Every check regenerates its encoding from /repo on every run: harness C++ -> clang LLVM IR -> symbolic execution -> SMT; see DESIGN.md.'}
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'checks')

# ---- DESIGN.md
def design():
    head = open(H + '/tools/design_head.md').read()
    fixed = {}; known = {}
    for l in open(H + '/known_findings.txt'):
        mm = re.match(r'(fixed|KNOWN-FINDING): property=(C\d+) (.*)', l)
        if mm: (fixed if mm[1] == 'fixed' else known).setdefault(mm[2], []).append(mm[3])
    seeds = {}; rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    res = {}
    rf = H + '/tools/seed_results.txt'
    if os.path.exists(rf):
        for l in open(rf):
            n, r = l.rstrip('\n').split(' ', 1); res[n] = r
    for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
        n = os.path.basename(os.path.dirname(d)); j = json.load(open(d)); r = res.get(n, 'not run')
        seeds.setdefault(j['property'], []).append(n)
        rows.append(f"| `{n}` | {j['property']} | {j['needs'].replace('|', '/')} | {r} |")
    out = []
    for p in props:
        id = p['id']
        if id in [x['property'] for x in na]:
            out.append(f"### {id} {p['title']} (not applicable)\n{[x['reason'] for x in na if x['property'] == id][0]}\n"); continue
        m = importlib.import_module(id); M = m.META
        s = [f"### {id} {M['title']}", M['statement'], '', f"* Quantifies over: {M['quant']}.", f"* Why tests cannot settle it: {M['why']}.",
             '* Anchors: ' + ', '.join(f'{a} (`{b}`)' for a, b in M['mech']) + '.']
        if getattr(m, 'EXPLAIN', ''): s.append('* How it is decided: ' + m.EXPLAIN)
        if getattr(m, 'BOUNDS', None): s.append('* Bounds: ' + '; '.join(m.BOUNDS) + '.')
        if getattr(m, 'ASSUME', None): s.append('* Assumptions: ' + '; '.join(m.ASSUME) + '.')
        if M['note']: s.append('* Strength: ' + M['note'])
        for x in fixed.get(id, []): s.append(f"* Defect found and repaired: {x.split(' ', 1)[1]} ({x.split(' ', 1)[0]}).")
        for x in known.get(id, []): s.append(f"* Known finding: {x}.")
        if seeds.get(id): s.append('* Planted bugs: ' + ', '.join(f'`{x}`' for x in seeds[id]) + '.')
        out.append('\n'.join(s) + '\n')
    t = head.replace('@SEEDS@', '\n'.join(rows)).replace('@PROPS@', '\n'.join(out))
    open(H + '/DESIGN.md', 'w').write(t)
design()
