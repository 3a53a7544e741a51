"""plant(id, property, edits, demo, needs, breaks): make /verif/seeded/<id> after confirming in a
scratch copy that the change applies, the repository's tests pass with it, and the demonstration
passes without and fails with it.  edits: [(file, old, new)...]; demo: python source."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **kw):
    env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(cwd):
    """(passed stable tests, missing)"""
    x = os.path.join(cwd, 'junit.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov', '--timeout=120', '-o', 'junit_family=xunit2', '--junitxml', x], cwd, timeout=600)
    sh(['/usr/bin/python3', '/opt/vp/results.py', os.path.join(cwd, 'out.json'), 'junit:' + x], cwd)
    res = json.load(open(os.path.join(cwd, 'out.json')))
    passed = set(res.get('passed', res.get('pass', [])))
    return sorted(STABLE - passed)


def original_lines(path):
    """line numbers of a file of /repo that its first commit already had"""
    root = subprocess.check_output(['git', '-C', os.environ.get('PLANT_REPO', '/repo'), 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
    res = set()
    for n, line in enumerate(subprocess.check_output(['git', '-C', os.environ.get('PLANT_REPO', '/repo'), 'blame', '-s', '-l', '--root', path], text=True).splitlines(), 1):
        if line.lstrip('^')[:39] == root[:39]:
            res.add(n)
    return res


def plant(ident, prop, edits, demo, needs, breaks, run_tests=True):
    base = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    wt = os.path.join(base, 'repo')
    d = os.path.join(VERIF, 'seeded', ident)
    try:
        subprocess.check_call(['cp', '-a', os.environ.get('PLANT_REPO', '/repo'), wt])
        dd = os.path.join(base, 'demo')
        os.mkdir(dd)
        open(os.path.join(dd, 'demo.py'), 'w').write("import os\nimport sys\nsys.path.insert(0, os.getcwd())\n" + demo.lstrip('\n'))
        open(os.path.join(dd, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0 if the property holds for this case\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                                     'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dd, 'demo.sh'), 0o755)
        r = sh(['bash', os.path.join(dd, 'demo.sh')], wt)
        if r.returncode:
            return print(ident, 'REJECTED: demo fails on the unchanged tree\n', r.stdout[-1500:])
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            orig = original_lines(f)
            if s.count(old) != 1:
                return print(ident, 'REJECTED: %d matches in %s of %r' % (s.count(old), f, old))
            a = s[:s.index(old)].count('\n') + 1
            if not any(n in orig for n in range(a, a + old.count('\n') + 1)):
                return print(ident, 'REJECTED: no original line in', repr(old))
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
        r = sh(['bash', os.path.join(dd, 'demo.sh')], wt)
        if not r.returncode:
            return print(ident, 'REJECTED: demo passes with the change\n', r.stdout[-1500:])
        if 'Error' in r.stdout and 'AssertionError' not in r.stdout:
            print(ident, 'NOTE demo output', r.stdout[-600:])
        if run_tests:
            missing = tests(wt)
            if missing:
                return print(ident, 'REJECTED: tests fail', missing[:5])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(dd, d)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(ident, 'ok')
    finally:
        shutil.rmtree(base)
