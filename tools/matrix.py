#!/opt/venv/bin/python
"""Rewrites section 5 of DESIGN.md (planted bugs) from seeded/*/meta.json and tools/missed_first.json."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = json.load(open(os.path.join(HERE, 'tools/missed_first.json')))
rows, n = [], 0
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    note = ''
    if i in first:
        note = 'missed at first; added: ' + first[i]
    rows.append('| %s | %s | %s | %s |' % (i, m.get('caught_by', m['property']), m['needs'].replace('|', '/').replace('\n', ' '), note))
text = '''## 5. Planted bugs

%d changes, each written from a property and the code, confirmed to build, to
pass all 241 tests and to fail its own demonstration.  Every one of them is now
reported by the check named in the second column (`tools/plant.py` applies them
one by one to a scratch copy and runs the check).  %d were missed when they were
written; the last column says what the generators or oracles gained by it.

| change | caught by | needs | strengthened |
|---|---|---|---|
%s
''' % (len(rows), len([i for i in first if os.path.isdir(os.path.join(HERE, 'seeded', i))]), '\n'.join(rows))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(?s)\n(<<MATRIX>>|## 5\. Planted bugs.*)$', '', s).rstrip()
open(p, 'w').write(s + '\n\n' + text)
