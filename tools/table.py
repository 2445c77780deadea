"""rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json"""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| id | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    f = lambda s: ' '.join(str(s).split()).replace('|', '/')
    rows.append(f"| {d.split('/')[-2]} | {m['property']} | {f(m['what_it_breaks'])[:150]} | {f(m['needs'])[:130]} |")
p = root + '/DESIGN.md'
s = open(p).read().replace('SEEDTABLE\n', '<!-- seeded -->\n')
open(p, 'w').write(s.split('<!-- seeded -->')[0] + '\n'.join(rows) + '\n')
