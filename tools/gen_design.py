"""writes DESIGN.md from design/, the harnesses, the planted bugs and design/caught.json"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(HERE + '/design/how.py').read(), ns)
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
costs = json.load(open(HERE + '/design/costs.json'))
out = [open(HERE + '/design/head.md').read()]


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            return ast.literal_eval(n.value)
    return None


for p in props:
    i = p['id']
    tree = ast.parse(open('%s/props/%s.py' % (HERE, i.lower())).read())
    out.append('### %s %s\n\n%s\n' % (i, p['title'], ns['HOW'][i]))
    b = const(tree, 'BOUNDS') or {}
    out.append('Bounds: ' + '; '.join('*%s* %s' % kv for kv in b.items()) + '.\n')
    a = const(tree, 'ASSUMPTIONS')
    if a:
        out.append('Assumed: ' + '; '.join(a) + '.\n')
    c = costs.get(i)
    if c:
        out.append('Cost: quick %s; thorough %s.\n' % (c['quick'], c.get('thorough', 'not measured')))
out.append('### Not applicable\n\nNone: every property is decided by the method.\n')
out.append(open(HERE + '/design/tail.md').read())
caught = json.load(open(HERE + '/design/caught.json'))
out.append('| bug | property | needs | found by |\n|---|---|---|---|')
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, 'not run')))
s = '\n'.join(out) + '\n'
open(HERE + '/DESIGN.md', 'w').write(s)
