"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(here + '/DESIGN.md').read()
a, b = t.index('<!-- seeds -->') + 14, t.index('<!-- end -->')
rows = ['| change | caught by | what it breaks | what it needs |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m.get('caught_by', m['property']), m['what_it_breaks'], m['needs']))
open(here + '/DESIGN.md', 'w').write(t[:a] + '\n\n' + '\n'.join(rows) + '\n\n' + t[b:])
