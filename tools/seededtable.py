"""seededtable.py: brings the table of planted bugs in DESIGN.md up to date."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob(here + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
