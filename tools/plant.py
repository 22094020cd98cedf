"""plant.py SPEC.py...: confirm a planted change in a scratch copy and keep it as seeded/<id>/

SPEC.py defines PROPERTY, EDITS = [(file under PyCTBN/PyCTBN, old, new)], NEEDS, BREAKS and DEMO (a Python program)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# cwd: the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=600):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    except subprocess.TimeoutExpired:
        return 99, 'time out'


def fixed_lines():
    out = subprocess.run("git diff -U0 7c8b28e HEAD -- PyCTBN", shell=True, cwd='/repo', capture_output=True, text=True).stdout
    return {l[1:].strip() for l in out.splitlines() if l.startswith('+') and not l.startswith('+++') and len(l.strip()) > 2}


def main(spec):
    s = runpy.run_path(spec)
    name = os.path.basename(spec)[:-3]
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    w = d + '/repo'
    shutil.copytree('/repo', w)
    try:
        demo = tempfile.mkdtemp(prefix='demo', dir=d)
        open(demo + '/demo.py', 'w').write(s['DEMO'].strip() + '\n')
        open(demo + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(demo + '/demo.sh', 0o755)
        rc, out = sh('bash %s/demo.sh' % demo, w, 300)
        if rc != 0:
            print(name, 'REJECTED: demo fails on the unchanged tree', rc, out)
            return
        for f, old, new in s['EDITS']:
            p = w + '/PyCTBN/PyCTBN/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(name, 'REJECTED: pattern occurs', t.count(old), 'times:', old[:80])
                return
            open(p, 'w').write(t.replace(old, new))
        patch = subprocess.run('git diff', shell=True, cwd=w, capture_output=True, text=True).stdout
        fx = fixed_lines()
        gone = [l[1:].strip() for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
        if any(g in fx for g in gone if len(g) > 2):
            print(name, 'WARNING: changes a line of a repair:', [g for g in gone if g in fx])
        rc, out = sh('bash %s/demo.sh' % demo, w, 300)
        if rc == 0:
            print(name, 'REJECTED: demo passes with the change')
            return
        msg = out.strip().splitlines()[-1:] or ['']
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + w)
        open(d + '/test.sh', 'w').write(t)
        rc, out = sh('bash %s/test.sh %s/out.json' % (d, d), w)
        try:
            got = json.load(open(d + '/out.json'))
        except OSError:
            print(name, 'REJECTED: tests', out)
            return
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        txt = json.dumps(got)
        passed = got.get('passed') or [k for k, v in got.items() if v in ('passed', True)]
        miss = [x for x in stable if x not in passed]
        if miss:
            print(name, 'REJECTED: tests fail:', miss[:3], txt[:200] if len(miss) == len(stable) else '')
            return
        o = HERE + '/seeded/' + name
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(demo + '/' + f, o)
        open(o + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(o + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, PYCTBN_SA_REPO=w + '/PyCTBN')
        r = subprocess.run([sys.executable, '-m', 'pyctbn_sa.check', s['PROPERTY']], cwd=HERE, env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith(('violated', 'UNDECIDED'))][:1]
        print(name, 'kept;', {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc %d' % r.returncode), '|', msg[0][:100], '|', (v or r.stdout.splitlines()[-1:] or [''])[0][:200])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    for sp in sys.argv[1:]:
        main(sp)
