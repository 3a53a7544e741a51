"""C36: a battery of everything the library does, in processes run in every way that differs
from the plain one in at most two respects (three in the thorough tier), compared with it."""
import itertools
import json
import os
import subprocess
import sys

from mc import cli
from mc.core import Out, REPO, VERIF, HarnessError, Violation, require

ID = 'C36'
LEVEL = 'exploration'
RULE = ('every way of running the process which differs from the plain one in at most 2 (thorough: 3) of 8 respects; in each, every scenario of the battery '
        '(reading, writing, streams, headers, dates, commands, capturing); non-trivial: the process is run in another way than the plain one')
ASSUMPTIONS = ['Where the process has no standard error, what would be written there is lost; nothing else changes.',
               'Warnings turned into errors (-W error, -bb) are not among the ways of running.']
MODULES = ['archiveiterator', 'bufferedreaders', 'checker', 'cli', 'digestverifyingreader', 'exceptions', 'extractor', 'indexer', 'limitreader', 'recompressor', 'recordbuilder', 'recordloader',
           'statusandheaders', 'timeutils', 'utils', 'warcwriter']
DIMS = [
    ('flags', ['', '-O', '-OO', '-X dev', '-I', '-X utf8=0', '-X utf8=1']),
    ('zone', ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-14', '<+0530>-5:30', 'YYY12']),
    ('locale', ['C.UTF-8', 'C', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'ar_EG.UTF-8', 'ja_JP.EUC-JP', 'fr_FR.ISO-8859-1']),
    ('seed', ['0', '1', '4242', 'random']),
    ('closed', ['', '0', '2', '02']),
    ('cwd', ['scratch', 'root', 'removed']),
    ('how', ['plain', 'setlocale', 'thread', 'fork', 'gc', 'nogc', 'coroutine']),
    ('first', ['', 'warcio', 'http.client', 'urllib.request'] + ['warcio.' + m for m in MODULES]),
]
CHARMAPS = {'de_DE.UTF-8': 'UTF-8', 'tr_TR.UTF-8': 'UTF-8', 'ar_EG.UTF-8': 'UTF-8', 'ja_JP.EUC-JP': 'EUC-JP', 'fr_FR.ISO-8859-1': 'ISO-8859-1'}


def BOUNDS(tier):
    return dict(respects={n: len(v) for n, v in DIMS}, differing=3 if tier == 'thorough' else 2)


def units(tier):
    out = [dict(dims=[])]
    for k in range(1, 4 if tier == 'thorough' else 3):
        for dims in itertools.combinations(range(len(DIMS)), k):
            # one unit for each value of the first respect
            for v in range(1, len(DIMS[dims[0]][1])):
                out.append(dict(dims=list(dims), v=v))
    return out


def explore(u, run):
    with cli.scratch() as d:
        _locales['dir'] = d
        try:
            ways(u, run)
        finally:
            del _locales['dir']


def ways(u, run):
    if not u['dims']:
        run([0] * len(DIMS))
        return
    for rest in itertools.product(*[range(1, len(DIMS[d][1])) for d in u['dims'][1:]]):
        env = [0] * len(DIMS)
        for d, v in zip(u['dims'], (u['v'],) + rest):
            env[d] = v
        run(env)


_locales = {}       # where locales are kept for the cases of a unit


def locale_dir(name, d):
    """a directory to find the locale in, made anew (what the system has is C only)"""
    if name not in CHARMAPS:
        return None
    charmap = CHARMAPS[name]
    p = os.path.join(_locales.get('dir', d), 'locales')
    if os.path.isdir(os.path.join(p, name)):
        return p
    os.makedirs(p, exist_ok=True)
    r = subprocess.run(['localedef', '--no-warnings=ascii', '-i', name.split('.')[0], '-f', charmap, os.path.join(p, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.isdir(os.path.join(p, name)):
        raise HarnessError('no locale %s (%d)' % (name, r.returncode))
    return p


def launch(env):
    w = {n: vals[i] for (n, vals), i in zip(DIMS, env)}
    with cli.scratch() as d:
        work = os.path.join(d, 'work')
        gone = os.path.join(d, 'gone')
        os.mkdir(work)
        os.mkdir(gone)
        vars_ = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'TZ': w['zone'], 'LC_ALL': w['locale'], 'LANG': w['locale'], 'PYTHONHASHSEED': w['seed'], 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': work,
                 'PYTHONCOERCECLOCALE': '0'}
        p = locale_dir(w['locale'], d)
        if p:
            vars_['LOCPATH'] = p
        out = os.path.join(d, 'out.json')
        args = [sys.executable] + w['flags'].split() + [os.path.join(VERIF, 'mc', 'battery.py'), VERIF, REPO, out, work, w['how'], w['first']]
        cwd = {'scratch': work, 'root': '/', 'removed': gone}[w['cwd']]
        shell = 'exec "$@"' + ''.join(' %s%s&-' % (c, '<' if c == '0' else '>') for c in w['closed'])
        if w['cwd'] == 'removed':
            shell = 'rmdir "$PWD"; ' + shell
        r = subprocess.run(['/bin/sh', '-c', shell, 'sh'] + args, cwd=cwd, env=vars_, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=55)
        if not os.path.exists(out):
            return w, None, 'exit %d: %s' % (r.returncode, r.stderr.decode('utf-8', 'replace')[-1500:])
        with open(out) as fh:
            return w, json.load(fh), None


_base = []


def run_case(env):
    env = list(env)
    if not _base:
        w, res, err = launch([0] * len(DIMS))
        if res is None:
            raise Violation('the battery does not run: %s' % err)
        _base.append(res)
    base = _base[0]
    w, res, err = launch(env)
    diff = {n: w[n] for (n, v), i in zip(DIMS, env) if i}
    require(res is not None, 'process run with %s fails: %s', diff, err)
    require(sorted(res) == sorted(base), 'scenarios %s', sorted(set(res) ^ set(base)))
    for k in base:
        if res[k] != base[k]:
            a, b = base[k], res[k]
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            raise Violation('process run with %r: %s gives ...%s, otherwise ...%s' % (diff, k, b[max(0, i - 60):i + 200], a[max(0, i - 60):i + 200]))
    return Out(tuple(sorted(diff.items())), nontrivial=bool(diff), transitions=len(base))
