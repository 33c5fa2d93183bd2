"""Rewrites the table of planted changes in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ''
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    what = m['what_it_breaks'].rstrip('.')
    rows += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m.get('first', 'caught'), what[0].lower() + what[1:], m['needs'].rstrip('.'))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda x: x.group(1) + '| change | property | at first | breaks | needs |\n|---|---|---|---|---|\n' + rows + x.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
