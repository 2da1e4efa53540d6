# writes tools/seeds.md: which check caught which planted bug (from the log lines of the planting runs)
import json, glob, os, re, sys
rows = []
for d in sorted(glob.glob('/verif/seeded/*/')):
    i = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json'))
    rows.append((i, m['property'], m['needs'], m['what_it_breaks']))
caught = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) tsc .*check rc (\d+) \[(.*?)\]", l)
        if m: caught[m[1]] = re.search(r'replays/(\S+)\.json', m[3])[1] if m[2] == '1' and 'VIOLATION' in m[3] else 'MISSED'
old = {}
if os.path.exists('/verif/tools/seeds.md'):
    for l in open('/verif/tools/seeds.md'):
        c = [x.strip() for x in l.split('|')]
        if len(c) > 4 and c[1] not in ('bug', '---'): old[c[1]] = c[3]
with open('/verif/tools/seeds.md', 'w') as o:
    o.write('# Planted bugs and the sub-check that caught each\n\n| bug | property | caught by | needs | breaks |\n|---|---|---|---|---|\n')
    for i, p, n, w in rows: o.write(f"| {i} | {p} | {caught.get(i, old.get(i, '?'))} | {n} | {w} |\n")
