"""Writes DESIGN.md from design_head.md, the property table, the check docstrings, the seeds and design_tail.md (run by hand)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
out = [rd('tools', 'design_head.md')]
man = {c['property']: c for c in json.loads(rd('MANIFEST.json'))['checks']}
na = {c['property']: c['reason'] for c in json.loads(rd('MANIFEST.json'))['not_applicable']}
extra = json.loads(rd('tools', 'design_notes.json'))
cat = json.loads(rd('tools', 'catches.json'))
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    i = p['id']
    if i in na:
        out.append(f'### {i} {p["title"]}: not applicable\n{na[i]}\n')
        continue
    doc = ' '.join(ast.get_docstring(ast.parse(rd('checks', i.lower() + '.py'))).split())
    e = extra.get(i, {})
    out.append(f'### {i} {p["title"]}\n{doc}\n\n*Quantified over*: {p["quantifier"]["text"]}. *Oracle*: {e.get("oracle", "formulas in spec/")}. '
               f'*Bounds*: {e.get("bounds", "none on values, sizes or bins; options enumerated")}. *Cost*: {e.get("cost", "a few seconds")}.'
               + (f'\n\n{e["note"]}' if 'note' in e else '')
               + (f'\n\n*Planted changes it catches*: {", ".join(sorted(s for s, ps in cat.items() if i in ps))}.' if any(i in ps for ps in cat.values()) else '') + '\n')
out.append(rd('tools', 'design_tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
