"""Driver of every check: deterministic enumeration of units of work over a
fork pool, per-case watchdog, counting, evidence, replay files, known findings.

A check module defines
  ID, LEVEL, RULE, ASSUMPTIONS (list of str), BOUNDS (dict or fn(tier)->dict)
  units(tier)             -> list of JSON-able units (small-first order)
  explore(unit, run)      -> calls run(case) for every case of the unit;
                             a case is JSON-able and run_case(case) decides it
  run_case(case)          -> decides ONE case: raises Violation when the
                             property is broken, otherwise returns an outcome
                             (any repr-able value) or an Out
"""
import ctypes
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import struct
import sys
import pickle
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = float(os.environ.get('VERIF_CASE_TIMEOUT', '60'))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class CaseTimeout(BaseException):
    pass


class Out(object):
    """Outcome of one case with extra measured counts."""
    __slots__ = ('outcome', 'nontrivial', 'states', 'transitions', 'extra')

    def __init__(self, outcome=None, nontrivial=True, states=(), transitions=0, **extra):
        self.outcome = outcome
        self.nontrivial = nontrivial
        self.states = states            # iterable of hashables
        self.transitions = transitions
        self.extra = extra              # name -> int, summed


def h64(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode('utf-8', 'surrogatepass')
    return struct.unpack('<q', hashlib.blake2b(obj, digest_size=8).digest())[0]


def require(cond, msg, *args, key=None):
    if not cond:
        if args:
            msg = msg % tuple(short(a) for a in args)
        raise Violation(msg, key)


def same(got, want, what, key=None):
    if got != want:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)), key)


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    if len(s) > n:
        s = s[:n // 2] + '...<%d chars>...' % len(s) + s[-n // 2:]
    return s


def _jsonable(x):
    if isinstance(x, bytes):
        return {'__b': x.decode('latin-1')}
    if isinstance(x, (list, tuple)):
        return [_jsonable(i) for i in x]
    if isinstance(x, dict):
        return {k: _jsonable(v) for k, v in x.items()}
    return x


def _unjson(x):
    if isinstance(x, dict):
        if set(x) == {'__b'}:
            return x['__b'].encode('latin-1')
        return {k: _unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_unjson(i) for i in x]
    return x


# ---------------------------------------------------------------- known findings
def load_known(pid):
    """lines: 'finding: property=<id> key=<key> <text>' (suppress exactly that
    key) and 'fixed: property=<id> <commit> <text>' (suppress nothing)."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                assert key.startswith('key='), line
                known[key[4:]] = text
    return known


# ---------------------------------------------------------------- one case
def _alarm(signum, frame):
    raise CaseTimeout()


class Recorder(object):
    def __init__(self, mod, stop):
        self.mod = mod
        self.stop = stop
        self.evaluations = 0
        self.nontrivial = set()
        self.outcomes = set()
        self.states = set()
        self.transitions = 0
        self.extra = {}
        self.samples = []
        self.violations = []
        self.known = load_known(mod.ID)
        self.seen_keys = set()
        self.timeout = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)

    def run(self, case):
        """Decide one case; returns its outcome object or None if it violated."""
        if self.stop():
            raise StopUnit()
        self.evaluations += 1
        try:
            res = guarded(self.mod, case, self.timeout)
        except Violation as v:
            if v.msg.startswith('TIMEOUT'):
                # a loaded machine is not a hang: confirm with a longer limit
                try:
                    guarded(self.mod, case, self.timeout * 2)
                    return None
                except Violation as v2:
                    v = v2
            self.violation(case, v)
            return None
        if not isinstance(res, Out):
            res = Out(res)
        ch = h64(case)
        if res.nontrivial:
            self.nontrivial.add(ch)
        self.outcomes.add(h64(res.outcome))
        for s in res.states:
            self.states.add(s if isinstance(s, int) else h64(s))
        self.transitions += res.transitions
        for k, v in res.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        if len(self.samples) < 2 and res.nontrivial:
            self.samples.append({'case': short(repr(case), 600), 'outcome': short(repr(res.outcome), 300)})
        return res

    def violation(self, case, v):
        key = v.key or 'case-%016x' % (h64(case) & (2**64 - 1))
        kind = 'known' if key in self.known else 'new'
        if key in self.seen_keys:
            return
        self.seen_keys.add(key)
        try:
            guarded(self.mod, case, self.timeout)
            again = False
        except Violation:
            again = True
        self.violations.append(dict(case=case, msg=v.msg, key=key, kind=kind, reproduced=again))
        if kind == 'new' and not os.environ.get('VERIF_ALL'):
            raise StopUnit()
        if len(self.violations) > 200:
            raise StopUnit()


class StopUnit(Exception):
    pass


def guarded(mod, case, timeout):
    """run mod.run_case(case); every exception escaping it is a violation."""
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return mod.run_case(case)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation('TIMEOUT: the call did not terminate within %ss' % timeout)
    except MemoryError:
        raise Violation('memory exhausted')
    except AssertionError as e:
        raise Violation('exception: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]))
    except HarnessError:
        raise
    except Exception as e:
        raise Violation('unexpected exception: ' + ''.join(
            traceback.format_exception(type(e), e, e.__traceback__)[-5:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class HarnessError(BaseException):
    """The machinery itself is wrong (divergence on replay, ...): never a verdict."""


# ---------------------------------------------------------------- pool
def _worker(mod, units, counter_fd, wfd, stop_path, deadline):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # do not outlive the check
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_STDERR'):
        os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    if not os.environ.get('VERIF_STDERR'):
        sys.stderr = open(os.devnull, 'w')
    signal.signal(signal.SIGALRM, _alarm)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    out = os.fdopen(wfd, 'wb')

    def stop():
        return os.path.exists(stop_path)

    def late():
        # out of time: what was not explored is counted, and in the evidence
        return time.time() > deadline

    # cheap stop polling
    state = {'n': 0, 'v': False}

    def stop_cached():
        state['n'] += 1
        if state['n'] % 64 == 1 or state['v']:
            state['v'] = state['v'] or stop() or late()
        return state['v'] or (state['n'] % 8 == 1 and late())

    while True:
        tok = os.read(counter_fd, 4)
        if len(tok) < 4:
            break
        i = struct.unpack('<I', tok)[0]
        if stop() or late():
            break
        rec = Recorder(mod, stop_cached)
        err = None
        t0 = time.time()
        done = False
        try:
            mod.explore(units[i], rec.run)
            done = True
        except StopUnit:
            pass
        except BaseException as e:
            err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        msg = pickle.dumps(dict(unit=i, ev=rec.evaluations, nt=rec.nontrivial, oc=rec.outcomes,
                                st=rec.states, tr=rec.transitions, ex=rec.extra,
                                sa=rec.samples, vi=rec.violations, err=err, done=done, t=time.time() - t0))
        out.write(struct.pack('<Q', len(msg)) + msg)
        out.flush()
    out.close()
    os._exit(0)


def run_check(mod, tier, seed, jobs=None):
    t0 = time.time()
    deadline = t0 + float(os.environ.get('VERIF_BUDGET', '660' if tier == 'quick' else '1e9'))
    units = list(mod.units(tier))
    assert len(units) < 16000, len(units)
    jobs = min(jobs or int(os.environ.get('VERIF_JOBS', '8')), max(1, len(units)))
    stop_path = os.path.join(VERIF, 'replays', '.stop-%s-%d' % (mod.ID, os.getpid()))
    os.makedirs(os.path.dirname(stop_path), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    r, w = os.pipe()
    # 64 KB pipe holds 16384 4-byte tokens; reads of 4 bytes are atomic
    os.write(w, b''.join(struct.pack('<I', i) for i in range(len(units))))
    os.close(w)
    kids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for j in range(jobs):
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr)
                for fd in list(kids):
                    os.close(fd)
                _worker(mod, units, r, pw, stop_path, deadline)
            finally:
                os._exit(3)
        os.close(pw)
        kids[pr] = pid
    os.close(r)
    bufs = {fd: b'' for fd in kids}
    results = []
    completed = 0
    errors = []
    nt, oc, st = set(), set(), set()
    tot = dict(ev=0, tr=0)
    extra = {}
    samples = []
    viol = []
    alive = dict(kids)
    while alive:
        rd, _, _ = select.select(list(alive), [], [])
        for fd in rd:
            data = os.read(fd, 1 << 20)
            if not data:
                _, status = os.waitpid(alive.pop(fd), 0)
                os.close(fd)
                if status != 0:
                    errors.append('worker ended with status %r' % status)
                continue
            bufs[fd] += data
            while len(bufs[fd]) >= 8:
                n = struct.unpack('<Q', bufs[fd][:8])[0]
                if len(bufs[fd]) < 8 + n:
                    break
                m = pickle.loads(bufs[fd][8:8 + n])
                bufs[fd] = bufs[fd][8 + n:]
                tot['ev'] += m['ev']
                tot['tr'] += m['tr']
                nt |= m['nt']
                oc |= m['oc']
                st |= m['st']
                for k, v in m['ex'].items():
                    extra[k] = extra.get(k, 0) + v
                if len(samples) < 12:
                    samples.extend(m['sa'][:1])
                viol.extend(m['vi'])
                results.append((m['t'], m['unit']))
                completed += m['done']
                if m['err']:
                    errors.append(m['err'])
                if (m['err'] or any(v['kind'] == 'new' for v in m['vi'])) and not os.environ.get('VERIF_ALL'):
                    open(stop_path, 'w').close()
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    wall = time.time() - t0

    # ---- verdict
    known = load_known(mod.ID)
    status = 0
    seen = set()
    nviol = 0
    for v in viol:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        if v['kind'] == 'known':
            continue
        nviol += 1
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (mod.ID, ''.join(
            c if c.isalnum() or c in '-_.' else '_' for c in v['key'])[:80]))
        with open(path, 'w') as fh:
            json.dump(dict(property=mod.ID, case=_jsonable(v['case']), message=v['msg'],
                           key=v['key'], reproduced=v['reproduced']), fh, indent=1)
        print('--- %s (reproduced on re-run: %s)\n    case: %s\n    %s' % (
            v['key'], v['reproduced'], short(repr(v['case']), 700), v['msg'].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        status = 1
    for key in sorted(known):
        if key in seen:
            print('KNOWN-FINDING: property=%s key=%s %s' % (mod.ID, key, known[key]))
    if errors and status == 0:
        status = 2
        for e in errors[:3]:
            print('CHECK-ERROR', e)

    bounds = mod.BOUNDS(tier) if callable(mod.BOUNDS) else mod.BOUNDS
    cov = dict(exhaustive=(status != 2 and nviol == 0 and completed == len(units)), rule=mod.RULE, bounds=bounds,
               evaluations=tot['ev'], distinct_nontrivial=len(nt), distinct_outcomes=len(oc),
               units=len(units), units_completed=completed, samples=samples[:8])
    if st:
        cov['states'] = len(st)
        cov['transitions'] = tot['tr']
    if mod.LEVEL == 'model_checking':
        cov['traces_validated_against_impl'] = extra.pop('traces', tot['ev'])
        cov.setdefault('states', len(st))
        cov.setdefault('transitions', tot['tr'])
    for k, v in extra.items():
        cov[k] = v
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=mod.ASSUMPTIONS + ['The enumeration is deterministic; VERIF_SEED is recorded and not used.'],
              wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=repr)
    print('%s %s: %d executions, %d distinct non-trivial, %d outcomes, %d states, %d units, %.1fs, status %d' % (
        mod.ID, tier, tot['ev'], len(nt), len(oc), len(st), len(units), wall, status))
    if completed < len(units) and status == 0:
        print('NOTE: out of time, %d of %d units were not completed' % (len(units) - completed, len(units)))
    if os.environ.get('VERIF_TIMES'):
        for t, u in sorted(results, reverse=True)[:12]:
            print('   %.1fs unit %s' % (t, short(repr(units[u]), 200)))
    return status


def load(pid):
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    import warcio
    got = os.path.dirname(os.path.dirname(os.path.abspath(warcio.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise HarnessError('warcio imported from %s, not %s' % (got, REPO))
    return importlib.import_module('checks.' + pid.lower())


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = load(pid)
    return run_check(mod, tier, seed)


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    signal.signal(signal.SIGALRM, _alarm)
    case = _unjson(d['case'])
    if hasattr(mod, 'fix_case'):
        case = mod.fix_case(case)
    try:
        res = guarded(mod, case, 120)
    except Violation as v:
        print(v.msg)
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('holds on this case:', short(repr(getattr(res, 'outcome', res))))
    return 0
