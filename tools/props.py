"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/ppocr/'
P = []
def p(id, title, statement, over, text, why, files, mech, claim=None, na=None):
    """claim: (technique, level, note) or None; na: reason"""
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na))

exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        o.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
            quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
            anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']]))) + '\n')
man = dict(version=1, setup_cmd='python3-vt /verif/tools/setup.py', checks=[], not_applicable=[],
           notes='All checks are static: they read /repo\'s sources (through clang to LLVM IR) and never run them.')
for x in P:
    if x['claim']:
        t, l, n = x['claim']
        man['checks'].append(dict(property=x['id'], quick_cmd='python3-vt /verif/check.py ' + x['id'],
            thorough_cmd='python3-vt /verif/check.py %s --thorough' % x['id'], technique=t, level=l, level_note=n))
    else: man['not_applicable'].append(dict(property=x['id'], reason=x['na'] or 'no check built yet'))
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
