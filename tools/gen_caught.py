"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append('`%s` (%s)' % (os.path.basename(os.path.dirname(m)), d['what_it_breaks'].rstrip('.')))
t = '| check | planted changes it catches |\n|---|---|\n' + ''.join('| %s | %s |\n' % (k, '; '.join(v).replace('|', '\\|')) for k, v in sorted(rows.items()))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- end -->)', lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, 'w').write(s)
