#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.tmpl.md, the contracts, levels.json and seeded/."""
import glob, json, os, re
V = '/verif'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl') if l.strip()]
levels = json.load(open(f'{V}/levels.json'))
fns = {}
for f in sorted(glob.glob(f'{V}/contracts/*.spec')):
    pkg = cur = None
    for l in open(f):
        if m := re.match(r'package (\S+)', l):
            pkg = m[1].split('/')[-1]
        elif m := re.match(r'(func|lemma) ([\w.]+)', l):
            cur = ('lemma ' if m[1] == 'lemma' else f'{pkg}.') + m[2]
            ens = []
        elif re.match(r'(spec|rec) ', l):
            cur = None
        elif cur and (m := re.match(r'\s+props (.*)', l)):
            for p in m[1].split():
                fns.setdefault(p, {})[cur] = ens
        elif cur and (m := re.match(r'\s+(?:ensures|at \S+\([^)]*\)|at [^:]*) ([\w ,\'-]+): ', l)):
            ens.append(m[1])
exec(open(f'{V}/tools/refs.py').read())
o = ['## The properties, one by one\n']
for p in props:
    i = p['id']
    lv = levels.get(i)
    o.append(f"### {i} — {p['title']}\n")
    f = fns.get(i, {})
    if f:
        o.append(f"*Level: proof{'' if lv and lv['full'] else ' (part)'}.* " + (lv['note'] if lv else ''))
        o.append('\nUnder contract: ' + '; '.join(f"`{n}`" + (f" ({', '.join(e)})" if e else '') for n, e in f.items()) + '.')
    else:
        o.append('*Level: exploration (bounded only).*')
    o.append('\n' + REFS[i] + '\n')
s = []
for d in sorted(glob.glob(f'{V}/seeded/*')):
    m = json.load(open(f'{d}/meta.json'))
    n = os.path.basename(d)
    s.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {CATCH.get(n, 'caught by the check of ' + m['property'])} |")
t = open(f'{V}/tools/design.tmpl.md').read()
t = t.replace('@@PROPS@@', '\n'.join(o)).replace('@@SEEDED@@', '| bug | property | needs | breaks | caught |\n|---|---|---|---|---|\n' + '\n'.join(s))
open(f'{V}/DESIGN.md', 'w').write(t)
