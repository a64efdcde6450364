"""Writes properties.jsonl and MANIFEST.json (run after editing: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))),
              technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, reason)


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, t, n in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['id'], quick_cmd='./run.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./run.sh ' + p['id'],
                        technique=t, level='model_checking', level_note=n) for p, t, n in P if t],
           not_applicable=[dict(property=p['id'], reason=n) for p, t, n in P if not t],
           notes='No hooks in /repo: the checks drive the public interfaces and own the randomness, clock and '
                 'process primitives by replacing modules before the code under test is imported.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
