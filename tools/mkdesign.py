"""DESIGN.md = tools/design.txt + the table of planted bugs (tools/caught.json: id -> checks that caught it)."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
text = open(os.path.join(here, 'design.txt')).read()
rows = []
caught = json.load(open(os.path.join(here, 'caught.json')))
sd = os.path.join(root, 'seeded')
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, 'meta.json')))
    w = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    rows.append(f"| {n} | {m['property']} | {w} | {caught.get(n, 'not tried yet')} |")
text = text.replace('@@BUGS@@', '| planted bug | breaks | what | caught by its own check |\n|---|---|---|---|\n' + '\n'.join(rows))
text = text.replace('@@NBUGS@@', str(len(rows)))
open(os.path.join(root, 'DESIGN.md'), 'w').write(text)
