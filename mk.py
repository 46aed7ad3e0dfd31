#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one list, so they stay in step."""
import json, os, re
root = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []

def three(text):
    """At most three sentences: what follows the second is one, parted by semicolons."""
    ss = re.split(r'(?<=[.]) (?=[A-Z])', text)
    if len(ss) <= 3:
        return text
    plain = 'A An The With It Its As To On If In At No Nothing Found Nodes New Inserting Adding Afterwards Every Each When Whatever Where Reading Opening Both What Files Two One They There Values Texts All And'.split()
    rest = [ss[2]]
    for t in ss[3:]:
        w = t.split(' ')[0]
        rest.append(t[0].lower() + t[1:] if w.strip(',') in plain else t)
    return ' '.join(ss[:2] + ['; '.join(x.rstrip('.') for x in rest) + '.'])

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=three(statement), quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note, _na=na))

exec(open(os.path.join(root, 'props.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in P:
    if p['_na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['_na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='bash check.sh ' + p['id'],
                                thorough_cmd='VERIF_TIER=thorough bash check.sh ' + p['id'],
                                evidence_file='evidence/%s.json' % p['id'],
                                technique=p['_t'], level='other', level_note=p['_n']))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')

# DESIGN.md: introduction, one section per property, planted bugs
D = {}
exec(open(os.path.join(root, 'design', 'props.py')).read())
o = open(os.path.join(root, 'design', 'intro.md')).read().rstrip() + '\n'
for p in P:
    o += '\n### %s %s\n\n' % (p['id'], p['title'])
    if p['_na']:
        o += 'Not applicable to static analysis here: ' + p['_na'] + '\n'
    else:
        o += D.get(p['id'], '').strip() + '\n\nMethod: %s. %s\n' % (p['_t'], p['_n'])
rows = []
sd = os.path.join(root, 'seeded')
missed = open(os.path.join(root, 'design', 'missed.txt')).read().split() if os.path.exists(os.path.join(root, 'design', 'missed.txt')) else []
for d in sorted(os.listdir(sd)):
    j = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, 'missed' if d in missed else 'caught by ' + j['property'], j['what_it_breaks'].replace('|', '/')))
o += '\n' + open(os.path.join(root, 'design', 'outro.md')).read().replace('@SEEDS@', '| change | result | what it breaks |\n|---|---|---|\n' + '\n'.join(rows))
open(os.path.join(root, 'DESIGN.md'), 'w').write(o)
