"""Development tool (not used by any check): make and confirm one planted bug.
usage: seed.py ID  (reads tools/seeds/ID.py: PROPERTY, FILE, EDITS=[(old,new)], NEEDS, BREAKS, DEMO)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(sid, spec):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='seed_')
    w = os.path.join(wt, 'r')
    sh('cp -a %s %s' % (R, w))
    try:
        edits = spec['EDITS'] if isinstance(spec['EDITS'], dict) else {spec['FILE']: spec['EDITS']}
        for f, eds in edits.items():
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            for old, new in eds:
                assert s.count(old) == 1, (f, old, s.count(old))
                s = s.replace(old, new)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        patch = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + spec['DEMO'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH= OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore\nexec $PY -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=R)
        b = sh('bash %s/demo.sh' % d, cwd=w)
        print(sid, 'unpatched rc', a.returncode, 'patched rc', b.returncode, (b.stderr or b.stdout).strip().splitlines()[-1:])
        if a.returncode:
            print(a.stdout[-1500:], a.stderr[-3000:])
        t = sh('. /opt/vp/env.sh; $PY -B -m pytest -q -p no:cacheprovider tests/test_autocast.py 2>&1 | tail -1', cwd=w)
        print('  tests', t.stdout.strip()[-60:])
        c = sh('MC_REPO=%s MC_EVIDENCE=%s/ev bash %s/run.sh %s' % (w, wt, V, spec['PROPERTY']))
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print('  check rc', c.returncode, v[:1], c.stdout.strip().splitlines()[0][:160] if c.stdout else c.stderr[-300:])
        g = sh('git -C %s apply --check %s/patch.diff' % (R, d))
        print('  apply', g.returncode, g.stderr.strip())
        return a.returncode == 0 and b.returncode != 0, c.returncode == 1
    finally:
        shutil.rmtree(wt)


if __name__ == '__main__':
    for sid in sys.argv[1:]:
        ns = {}
        exec(open(os.path.join(V, 'tools', 'seeds', sid + '.py')).read(), ns)
        make(sid, ns)
