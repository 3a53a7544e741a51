"""Apply each planted change to a scratch copy of /repo and run its property's check there
(VERIF_REPO); print which are caught.  usage: seedrun.py [tier] [ids...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = 'quick'
args = sys.argv[1:]
if args and args[0] in ('quick', 'thorough'):
    tier = args.pop(0)
ids = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
for i in ids:
    d = os.path.join(VERIF, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    base = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
    try:
        wt = os.path.join(base, 'repo')
        subprocess.check_call(['cp', '-a', os.environ.get('PLANT_REPO', '/repo'), wt])
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=wt)
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', flush=True)
            continue
        r = subprocess.run([os.path.join(VERIF, 'check'), prop, tier], cwd=VERIF, env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        caught = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
        msg = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
        print(i, prop, 'caught' if caught else 'MISSED (%d)' % r.returncode, (msg[0][:160] if msg else ''), flush=True)
    finally:
        shutil.rmtree(base)
