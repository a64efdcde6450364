"""Writes DESIGN.md from design_head.md, props_data.py, the last evidence files, known_findings.txt, seeded/ and design_tail.md."""
import glob, json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note): P.append((id, title, statement, text, why, files, technique, note))
def na(id, title, statement, over, text, why, files, mech, reason): P.append((id, title, statement, text, why, files, None, reason))
exec(open(os.path.join(T, 'props_data.py')).read())
notes = {}
for part in re.split(r'^## ', open(os.path.join(T, 'design_notes.md')).read(), flags=re.M)[1:]:
    k, _, v = part.partition('\n')
    notes[k.strip()] = v.strip()
fixed = {}
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    seeds.setdefault(m['property'], []).append((os.path.basename(d), m))
try:
    results = json.load(open(os.path.join(T, 'seed_results.json')))
except OSError:
    results = {}
out = [open(os.path.join(T, 'design_head.md')).read()]
out.append('## The properties and how each is decided\n')
for id, title, st, text, why, files, tech, note in P:
    out.append('### %s. %s\n\n%s\n' % (id, title, st))
    if not tech:
        out.append('**Not applicable**: %s\n' % note)
        continue
    try:
        ev = json.load(open(os.path.join(V, 'evidence', id + '.json')))
    except OSError:
        ev = None
    out.append('* *Quantified over*: %s. *Why tests cannot settle it*: %s' % (text, why))
    out.append('* *Anchors*: %s' % ', '.join('`%s`' % f for f in files))
    out.append('* *Deciding method*: %s. %s' % (tech, note))
    if ev:
        c = ev['coverage']
        out.append('* *Enumerated and compared*: %s' % c['rule'])
        out.append('* *Bounds (quick)*: %s. Last quick run: %s states, %s transitions, %s s.' % (c['scope'], c['states'], c['transitions'], round(ev['wall_s'])))
        out.append('* *Parts*: ' + '; '.join('%s (%d cases)' % (k, v['cases']) for k, v in c['parts'].items()))
    for h, t in fixed.get(id, []):
        out.append('* *Defect repaired* (`%s`): %s' % (h, t))
    for s, m in seeds.get(id, []):
        out.append('* *Planted* `%s`: %s (needs: %s) – %s' % (s, m['what_it_breaks'], m['needs'], results.get(s, 'caught by ' + id)))
    if id in notes:
        out.append('\n' + notes[id])
    out.append('')
out.append(open(os.path.join(T, 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
