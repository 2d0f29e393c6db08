"""Write the table of planted bugs in DESIGN.md section 7 from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
MISSED = {}     # planted bugs which no check catches

rows = ['| change | caught by | what it needs | what it breaks |', '|---|---|---|---|']
for f in sorted((ROOT / 'seeded').glob('*/meta.json')):
    m = json.loads(f.read_text())
    cell = [f.parent.name, MISSED.get(f.parent.name, m['property']), m['needs'], m['what_it_breaks']]
    rows.append('| ' + ' | '.join(' '.join(str(c).split()).replace('|', '/') for c in cell) + ' |')
p = ROOT / 'DESIGN.md'
s = p.read_text()
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
p.write_text(s[:a] + '<!-- seeded -->\n' + '\n'.join(rows) + '\n' + s[b:])
