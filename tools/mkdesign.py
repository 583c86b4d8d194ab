#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (between the markers) from properties.jsonl, the evidence of the last runs and seeded/."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
out = []
for p in props:
    i = p['id']; f = os.path.join(V, 'evidence', i + '.json')
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Decided by {man[i]['technique']}.")
    if os.path.exists(f):
        e = json.load(open(f)); c = e['coverage']
        if e.get('violations'): raise SystemExit('evidence of a failed run: ' + i)
        out.append(f"Explored: {c['rule']}.")
        a = e.get('assumptions') or c.get('assumptions')
        if a: out.append('Assumed: ' + '; '.join(a) + '.')
        n = c['evaluations']; r = f"{n/1e6:.1f} million" if n > 999999 else f"{n/1e3:.0f} thousand"
        cf = c.get('configurations')
        out.append(f"A quick run makes about {r} evaluations" + (f" over {cf} configurations" if cf else '') + f" in {max(1, round(e['wall_s']))} s on eight cores; a thorough run makes 20 to 100 times as many." if e['tier'] == 'quick' else '')
    out.append(f"Quantified over {p['quantifier']['text']}. {p['why_tests_cant']}\n")
tab = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(os.path.join(V, 'tools', 'caught.json'))) if os.path.exists(os.path.join(V, 'tools', 'caught.json')) else {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    b = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    tab.append(f"| {b} | {d['property']} | {d['needs']} | {caught.get(b, '')} |")
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
for name, rows in (('PROPERTIES', out), ('PLANTED', tab)):
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + '\n'.join(r for r in rows if r) + '\n' + s[j:]
open(p, 'w').write(s)
