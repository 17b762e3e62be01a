#!/usr/bin/env python3
"""Confirm a planted bug and store it under /verif/seeded/<id>.

    plant.py SPEC.py

SPEC.py defines id, property, edits = [(path, old, new)], demo (python source),
needs, breaks.  The patch is confirmed in a scratch copy of /repo: it applies,
the stable tests still pass, the demo exits 0 without it and nonzero with it.
Then the checks are run against the scratch copy (SA_REPO) to record whether
this property's check catches it."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
exec env MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(path):
    spec = {}
    exec(open(path).read(), spec)
    sid = spec['id']
    scratch = tempfile.mkdtemp(prefix='plant-')
    repo = os.path.join(scratch, 'repo')
    try:
        sh(['cp', '-a', '/repo', repo])
        base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
        for f, old, new in spec['edits']:
            p = os.path.join(repo, 'bicycleparameters', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d matches of %r' % (sid, s.count(old), old[:60])
            orig = sh(['git', '-C', '/repo', 'show', base + ':bicycleparameters/' + f]).stdout
            if old not in orig:
                print('  note: old text is not verbatim in the original', f)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', repo, 'diff']).stdout
        dest = os.path.join(scratch, sid)
        os.mkdir(dest)
        open(os.path.join(dest, 'patch.diff'), 'w').write(diff)
        open(os.path.join(dest, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
        open(os.path.join(dest, 'demo.py'), 'w').write(spec['demo'])
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
        good = sh([os.path.join(dest, 'demo.sh')], cwd='/repo')
        bad = sh([os.path.join(dest, 'demo.sh')], cwd=repo)
        if good.returncode != 0:
            return '%s: demo fails on the unchanged tree\n%s' % (sid, good.stdout[-1500:])
        if bad.returncode == 0:
            return '%s: demo passes with the change' % sid
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', PYTHONPATH=repo)
        xml = os.path.join(scratch, 'j.xml')
        sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
            '--continue-on-collection-errors', '--doctest-modules', '-o', 'junit_family=xunit2',
            '--junitxml=' + xml, 'bicycleparameters/'], cwd=repo, env=env)
        import xml.etree.ElementTree as ET
        failed = set()
        passed = set()
        for tc in ET.parse(xml).getroot().iter('testcase'):
            n = (tc.get('classname') or '') + '::' + tc.get('name')
            (failed if any(c.tag in ('failure', 'error') for c in tc) else passed).add(n)
        stable = json.load(open('/opt/vp/BASELINE.json'))
        names = stable.get('stable') or stable.get('tests') or stable
        names = [t if isinstance(t, str) else t.get('id') for t in names]
        lost = [t for t in names if not any(t.split('::')[-1] == p.split('::')[-1] for p in passed)]
        if lost:
            return '%s: stable tests fail %s' % (sid, lost)
        r = sh(['python3', os.path.join(HERE, 'sa', 'run.py'), '--property', spec['property']],
               env=dict(os.environ, SA_REPO=repo))
        caught = r.returncode == 1 and 'VIOLATION property=' + spec['property'] in r.stdout
        final = os.path.join(HERE, 'seeded', sid)
        if os.path.exists(final):
            shutil.rmtree(final)
        shutil.copytree(dest, final)
        head = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATED', 'C'))][:2]
        return '%s %s: %s (rc %d)  %s' % (sid, spec['property'], 'CAUGHT' if caught else 'MISSED', r.returncode, ' | '.join(head)[:200])
    finally:
        shutil.rmtree(scratch)


for p in sys.argv[1:]:
    print(main(p), flush=True)
