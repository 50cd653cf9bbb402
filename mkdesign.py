#!/usr/bin/env python3
# Regenerates DESIGN.md: design/head.md + one section per property (from properties.jsonl, checks/*/check.json) + design/tail.md
import json, os
R = os.path.dirname(os.path.abspath(__file__))
V = {'asan': 'ASan+UBSan (gcc, libstdc++ assertions)', 'leak': 'ASan+UBSan+LeakSanitizer', 'tsan': 'ThreadSanitizer',
     'rel': 'plain -O2 build', 'clang': 'clang UBSan incl. float-cast'}
out = [open(f'{R}/design/head.md').read().rstrip(), '', '## Properties, one by one', '']
notes = {}
cur = None
for l in open(f'{R}/design/oracles.md'):
    if l.startswith('# '): cur = l[2:].strip(); notes[cur] = ''
    elif cur: notes[cur] += l
for line in open(f'{R}/properties.jsonl'):
    p = json.loads(line); i = p['id']
    out += [f"### {i} {p['title']}", '']
    f = f'{R}/checks/{i}/check.json'
    if not os.path.exists(f):
        out += ['Not built.', '']; continue
    d = json.load(open(f))
    vs = []
    for b in d['bins']:
        v = b.get('variant', 'asan')
        if v not in vs: vs.append(v)
    srcs = sorted({s for b in d['bins'] for s in b['src'] if not s.startswith('..')})
    out += [f"- Explored: {d['rule']}."]
    if notes.get(i, '').strip(): out += ['- Oracle and reach: ' + ' '.join(notes[i].split())]
    out += [f"- Instrumentation: {', '.join(V[v] for v in vs)}; {len(d['bins'])} binaries, harness {', '.join(srcs)}."]
    req = d.get('require', {})
    out += ['- The check fails as broken unless the monitors saw at least: ' + ', '.join(f'{k} {v}' for k, v in req.items()) + '.']
    out += [f"- Thorough tier: workload x {d.get('thorough_scale', 20)} from other seeds."]
    for a in d.get('assumptions', []): out += [f'- Assumption: {a}.']
    out += ['']
out += [open(f'{R}/design/tail.md').read().rstrip(), '']
open(f'{R}/DESIGN.md', 'w').write('\n'.join(out))
