"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json; keeps the stars of seeds already listed, adds those named on the command line."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
head, tail = s.split('## Planted bugs (`seeded/`)\n', 1)
star = set(re.findall(r'(s\d\d-[\w-]+)\*', tail)) | set(sys.argv[1:])
by = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    n = f.split('/')[-2]
    by.setdefault(json.load(open(f))['property'], []).append(n + '*' * (n in star))
lines = ['* %s: %s' % (c, ', '.join(by[c])) for c in sorted(by)]
body = re.sub(r'(?m)(^\* C\d\d: s.*\n)+', '\n'.join(lines) + '\n', tail, count=1)
open(p, 'w').write(head + '## Planted bugs (`seeded/`)\n' + body)
