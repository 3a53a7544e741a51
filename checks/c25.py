"""C25: captures to a named file: modes x what was there x how and when the context ends,
and sequences of captures to one file."""
import gc
import itertools
import os

from mc import capture, cli, fakenet, ref
from mc.core import Out, require, same

ID = 'C25'
LEVEL = 'fault_enumeration'
RULE = ('every combination of append mode, compression, previous content of the file, number of steps performed before the context ends, way it ends and use of its connections afterwards; '
        'every sequence of two (thorough: three) captures over a menu; nested and repeated captures to one file; write errors; non-trivial: something was recorded or refused')
ASSUMPTIONS = ['Nothing else writes to the file meanwhile.', 'Exchanges go over scripted sockets.']

PRE = {'none': None, 'empty': b'', 'plain': ref.layout([ref.w_response(b'older body')])[0], 'gz': ref.layout([ref.w_response(b'older body')], 'gz')[0],
       'junk': b'no line end', 'big': ref.pat(70000, 1), 'cut': ref.layout([ref.w_response(b'older body')])[0][:-30]}
MODES = [{}, {'append': True}, {'append': False}]
GZ = [{}, {'gzip': False}, {'gzip': True}, {'gzip': False, 'warc_version': '1.1'}]
STEPS = ['connect1', 'send1', 'begin1', 'part1', 'rest1', 'connect2', 'send2', 'begin2', 'part2', 'rest2', 'send3', 'begin3', 'rest3']
ENDS = ['normal', 'Exception', 'KeyboardInterrupt', 'network']
AFTER = ['leave', 'finish', 'close', 'new']
NAMES = ['c.warc', 'dir with space/caf\xe9.warc.gz', './rel.warc']


class Exit(Exception):
    pass


def BOUNDS(tier):
    return dict(previous=sorted(PRE), modes=len(MODES), writers=len(GZ), steps=len(STEPS), ends=ENDS, after=AFTER, sequence_length=3 if tier == 'thorough' else 2)


def units(tier):
    out = [dict(k='one', pre=p, m=m, g=g) for p in PRE for m in range(len(MODES)) for g in range(len(GZ))]
    menu_ = [(m, g, s, e) for m in range(3) for g in ((0, 1, 2, 3) if tier == 'thorough' else (0, 1)) for s in (0, 5, 13) for e in ('normal', 'Exception')]
    out += [dict(k='seq', pre=p, first=f, menu=menu_, n=3 if tier == 'thorough' else 2) for p in PRE for f in menu_]
    out += [dict(k='misc')]
    return out


def explore(u, run):
    if u['k'] == 'one':
        for n in range(len(STEPS) + 1):
            for e in ENDS:
                for a in AFTER:
                    for name in NAMES if u['pre'] in ('none', 'plain') else NAMES[:1]:
                        run(('seq', u['pre'], name, [(u['m'], u['g'], n, e, a)]))
    elif u['k'] == 'seq':
        for rest in itertools.product(u['menu'], repeat=u['n'] - 1):
            run(('seq', u['pre'], NAMES[0], [tuple(x) + ('finish',) for x in (u['first'],) + rest]))
    else:
        for k in ('nested-same', 'nested-other', 'twice-open', 'noparent', 'isdir'):
            for p in PRE:
                for n in (0, 5, 13):
                    for e in ENDS[:3]:
                        run((k, p, NAMES[0], [(0, 1, n, e, 'leave')]))
        for p in PRE:
            for n in (0, 5, 13):
                for e in ENDS[:3]:
                    for m in range(3):
                        run(('outer-file', p, NAMES[0], [(m, 1, n, e, 'leave')]))
        for n in range(len(STEPS) + 1):
            for g in range(len(GZ)):
                run(('full', 'none', '/dev/full', [(0, g, n, 'normal', 'finish')]))


class Steps(object):
    """three exchanges over two connections, one step at a time"""

    def __init__(self, tag, fault=False):
        self.tag = tag
        self.conns = {}
        self.resp = {}
        self.got = {1: b'', 2: b'', 3: b''}
        self.body = {n: b'%s body of exchange %d' % (tag.encode(), n) for n in (1, 2, 3)}
        H = fakenet.H
        self.raw = {1: H('HTTP/1.1 200 OK', 'Content-Length: %d' % len(self.body[1])) + self.body[1],
                    2: H('HTTP/1.1 404 No', 'Transfer-Encoding: chunked') + ref.chunked(self.body[2], [6]),
                    3: H('HTTP/1.1 200 OK', 'Content-Length: %d' % len(self.body[3])) + self.body[3]}
        self.socks = {1: fakenet.Sock([self.raw[1]]), 2: fakenet.Sock([self.raw[2], self.raw[3]])}
        self.net = fakenet.Net(self.socks[1], self.socks[2])
        self.recorded = []          # exchanges whose response was read to the end

    def do(self, step):
        what, n = step[:-1], int(step[-1])
        c = min(n, 2)
        if what == 'connect':
            self.conns[n] = self.net.conn(fakenet.REC, 'host%d.example' % n)
        elif what == 'send':
            if n == 2:
                self.conns[c].request('POST', '/%s/2' % self.tag, body=b'a=b')
            else:
                self.conns[c].request('GET', '/%s/%d' % (self.tag, n))
        elif what == 'begin':
            self.resp[n] = self.conns[c].getresponse()
        elif what == 'part':
            self.got[n] += self.resp[n].read(4)
        elif what == 'rest':
            self.got[n] += self.resp[n].read()
            same(self.got[n], self.body[n], 'the body the client gets')
            self.recorded.append(n)

    def want(self, n):
        return capture.Want('http://host%d.example/%s/%d' % (min(n, 2), self.tag, n), self.socks[min(n, 2)].sent_for(1 if n == 3 else 0), self.raw[n], '203.0.113.7')


def content(path):
    if not os.path.lexists(path):
        return None
    if os.path.isdir(path):
        return 'directory'
    with open(path, 'rb') as f:
        return f.read()


def open_fds(path):
    real = os.path.realpath(path)
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink('/proc/self/fd/' + fd) == real
        except OSError:
            pass
    return n


def is_off():
    """no capturing now, or that of the outer context"""
    s = Steps('off')
    for x in STEPS[:5]:
        s.do(x)
    s.conns[1].close()
    return s.want(1)


def one(path, cap_, tag):
    """performs one capture and checks the file; returns (number recorded, outcome)"""
    m, g, nsteps, end, after = cap_
    kw = dict(MODES[m])
    kw.update(GZ[g])
    before = content(path)
    cap = fakenet.CAP.capture_http
    s = Steps(tag)
    done = 0
    raised = None
    keep = None
    try:
        with cap(path, **kw) as w:
            keep = w
            for x in STEPS[:nsteps]:
                s.do(x)
                done += 1
            if end == 'Exception':
                raise Exit('over')
            if end == 'KeyboardInterrupt':
                raise KeyboardInterrupt()
            if end == 'network':
                bad = fakenet.Net(fakenet.Sock([fakenet.H('HTTP/1.1 200 OK', 'Content-Length: 99') + b'abc'], fault=OSError(104, 'reset'))).conn(fakenet.REC)
                bad.request('GET', '/bad')
                bad.getresponse().read()
    except Exit as e:
        raised = 'Exception'
    except KeyboardInterrupt:
        raised = 'KeyboardInterrupt'
    except FileExistsError:
        require(keep is None, 'FileExistsError later than when opening')
        require(m == 2 and before is not None, 'an existing file is refused although appending, or a new one: previous content %s', before)
        raised = 'refused'
    except OSError as e:
        if end != 'network' or keep is None:
            raise
        same(e.errno, 104, 'the network error')
        raised = 'network'
    if m == 2 and before is not None:
        same(raised, 'refused', 'capturing to an existing file, append off')
        same(content(path), before, 'the file refused')
        is_off()
        same(content(path), before, 'the file refused')
        return 0, 'refused'
    same(done, nsteps, 'steps performed')
    same(raised, None if end == 'normal' else end, 'what leaves the context')
    same(open_fds(path), 0, 'descriptors open on the file after the context')
    data = content(path)
    require(data is not None, 'no file')
    pre = before or b''
    require(data.startswith(pre), 'the previous content %s is no longer at the beginning of %s', pre, data)
    wants = [s.want(n) for n in s.recorded]
    gz = GZ[g].get('gzip', True)
    version = 'WARC/' + GZ[g].get('warc_version', '1.0')
    if wants:
        capture.check_all(data[len(pre):], gz, wants, tag, version)
    else:
        same(data[len(pre):], b'', 'recorded without any exchange')
    # afterwards
    if after == 'finish':
        for x in STEPS[nsteps:]:
            s.do(x)
    elif after == 'close':
        for r in s.resp.values():
            r.close()
        for c in s.conns.values():
            c.close()
    elif after == 'new':
        is_off()
        if 2 in s.resp and s.resp[2].isclosed() and nsteps == 10:
            s.do('send3'), s.do('begin3'), s.do('rest3')
    n = len(wants)
    del keep, s
    same(content(path), data, 'the file, used no more')
    is_off()
    same(content(path), data, 'the file, used no more')
    return n, 'ok'


def run_case(c):
    kind, pre, name, caps = c
    cap = fakenet.CAP.capture_http
    from warcio.warcwriter import BufferWARCWriter
    with cli.scratch() as d:
        was = os.getcwd()
        os.chdir(d)
        try:
            path = name if name.startswith('.') or name.startswith('/') else os.path.join(d, name)
            if kind == 'full':
                return full(path, caps[0])
            os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
            if PRE[pre] is not None:
                with open(path, 'wb') as f:
                    f.write(PRE[pre])
            total = 0
            outcomes = []
            if kind == 'seq':
                for i, x in enumerate(caps):
                    n, o = one(path, tuple(x), 'c%d' % i)
                    total += n
                    outcomes.append((n, o))
            elif kind in ('nested-other', 'outer-file'):
                # leaving the inner context, however, resumes the outer one
                outer = BufferWARCWriter(gzip=False) if kind == 'nested-other' else os.path.join(d, 'outer.warc')
                wants = []
                real_off = is_off

                def noted():
                    wants.append(real_off())
                    return wants[-1]
                globals()['is_off'] = noted
                try:
                    with cap(outer, gzip=False):
                        n, o = one(path, tuple(caps[0]), 'in')
                        total += n
                        outcomes.append((n, o))
                finally:
                    globals()['is_off'] = real_off
                data = content(outer) if isinstance(outer, str) else outer.get_contents()
                capture.check_all(data, False, wants, 'outer')
                total += len(wants)
            elif kind in ('nested-same', 'twice-open'):
                m, g, n, end, after = caps[0]
                before = content(path) or b''
                s = Steps('outer')
                s2 = Steps('inner')
                recorded = []
                try:
                    with cap(path, gzip=False):
                        for x in STEPS[:5]:
                            s.do(x)
                        recorded.append(s.want(1))
                        with cap(path, gzip=False):
                            if kind == 'twice-open':
                                # exchange of the outer context within the inner one
                                s.conns[1] = None
                            for x in STEPS[:n]:
                                s2.do(x)
                            if n:
                                recorded.append(s2.want(1))
                            if n > 10:
                                recorded += [s2.want(2), s2.want(3)]
                            if end == 'Exception':
                                raise Exit()
                            if end == 'KeyboardInterrupt':
                                raise KeyboardInterrupt()
                        for x in STEPS[5:]:
                            s.do(x)
                        recorded += [s.want(2), s.want(3)]
                except (Exit, KeyboardInterrupt):
                    pass
                data = content(path)
                require(data.startswith(before), 'the previous content is gone')
                capture.check_all(data[len(before):], False, recorded, 'nested')
                same(open_fds(path), 0, 'descriptors open on the file after the context')
                is_off()
                same(content(path), data, 'the file, used no more')
                total = len(recorded)
            elif kind in ('noparent', 'isdir'):
                bad = os.path.join(d, 'missing', 'x.warc') if kind == 'noparent' else d
                w = BufferWARCWriter(gzip=False)
                wants = []
                with cap(w):
                    try:
                        with cap(bad):
                            raise AssertionError('capturing to a file that can not be opened')
                    except OSError:
                        pass
                    wants.append(is_off())
                capture.check_all(w.get_contents(), False, wants, 'outer')
                is_off()
                same(len(ref.parse_written(w.get_contents(), False)), 2, 'records of the outer context')
                total = 1
        finally:
            os.chdir(was)
    return Out((kind, pre, str(outcomes) if kind == 'seq' else total), nontrivial=bool(total) or 'refused' in str(outcomes), transitions=sum(x[2] for x in caps), states=[(kind, pre, str(caps))])


def full(path, cap_):
    """a device on which every write fails: the error shows, and capturing is off afterwards"""
    m, g, nsteps, end, after = cap_
    kw = dict(GZ[g])
    s = Steps('full')
    failed = 0
    try:
        with fakenet.CAP.capture_http(path, **kw):
            for x in STEPS[:nsteps]:
                s.do(x)
    except OSError as e:
        same(e.errno, 28, 'the error')
        failed = 1
    same(failed, 1 if nsteps >= 5 else 0, 'error writing a record shows')
    same(open_fds(path), 0, 'descriptors open on the file after the context')
    is_off()
    return Out(('full', nsteps, g), nontrivial=bool(failed), transitions=nsteps, states=[('full', nsteps, g)])
