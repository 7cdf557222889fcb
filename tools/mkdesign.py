#!/usr/bin/env python3
"""Regenerates DESIGN.md: tools/design_intro.md, one section per property (tools/design.py, the harnesses' bounds, seeded bugs), tools/design_end.md."""
import json, os, re, glob, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from design import P
seeds = {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['needs']))
fixed = {}
for l in open(root + '/known-findings.txt'):
    m = re.match(r'(fixed|finding): property=(C\d+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m[2], []).append((m[1], m[3], m[4]))
out = [open(here + '/design_intro.md').read().rstrip() + '\n']
for l in open(root + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    how, outside = P[i]
    out.append(f"### {i} {d['title']}\n\n{how}\n\nHarnesses and bounds:\n")
    for f in sorted(glob.glob(f'{root}/harness/{i.lower()}/*.go')):
        src = open(f).read()
        for m in re.finditer(r'((?:^//.*\n)+)func ((?:Check|Known)_\w+)\(', src, re.M):
            t = ' '.join(x[2:].strip() for x in m[1].split('\n') if x.startswith('//') and not x.startswith('//verif:')).strip()
            t = re.sub(r'^' + m[2] + r'\b:?\s*', '', t)
            out.append(f"- `{m[2]}`: {t}")
    out.append('')
    if outside:
        out.append(f"Outside: {outside}\n")
    for k, c, t in fixed.get(i, []):
        out.append(f"{'Repaired in ' + c if k == 'fixed' else 'Known finding ' + c}: {t}.\n")
    if i in seeds:
        out.append("Planted bugs that this check catches:\n")
        for n, w, need in seeds[i]:
            out.append(f"- `{n}`: {w} (needs: {need})")
        out.append('')
out.append(open(here + '/design_end.md').read())
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
