"""C06: digests in the written file against SHA-1 of the stored bytes, and the check command."""
import base64
import hashlib
import io
import itertools
import os

from mc import build, cli, ref
from mc.core import Out, require, same

ID = 'C06'
LEVEL = 'exploration'
RULE = 'all combinations of record, payload size, payload stream, known/unknown length, HTTP headers given or parsed, header filter, supplied digests, gzip'
ASSUMPTIONS = ['HTTP headers are ASCII here (C14 has others).', 'A wrong digest supplied by the caller is kept and then fails the check command.']
SIZES = [0, 1, 2, 1000, 16383, 16384, 16385, 32768, 33000, 524287, 524288, 524289, 700000]
FILTERS = {'none': None, 'same': lambda h: h, 'drop': lambda h: None if h[0].lower() == 'x-dup' else h, 'rename': lambda h: ('X-' + h[0], h[1] + 'z'),
           'all': lambda h: None}
SUPPLY = ['none', 'payload', 'block', 'both', 'wrong_payload', 'wrong_block', 'hex', 'sha256', 'lower']


def BOUNDS(tier):
    return dict(menu=len(build.menu()), sizes=SIZES, streams=build.STREAMS, filters=len(FILTERS), supplied=SUPPLY)


def units(tier):
    out = []
    for n in build.menu():
        for f in FILTERS:
            out.append(dict(t='menu', name=n, filt=f))
    for n in ('response', 'request_post', 'resource', 'resp_loose', 'resp_nohdr'):
        for s in SIZES:
            out.append(dict(t='size', name=n, n=s, full=tier == 'thorough'))
    for n in build.scale():
        out.append(dict(t='scale', name=n))
    names = [n for n in build.menu() if n != 'auto']
    for a in names:
        out.append(dict(t='files', a=a))
    return out


def explore(u, run):
    t = u['t']
    if t == 'files':
        names = [n for n in build.menu() if n != 'auto']
        for b in names:
            run(('file', [u['a'], b]))
        return
    if t == 'scale':
        for how in build.hows(build.get(u['name'])):
            for kind, known in (('bytes', 1), ('unseek', 0), ('gz', 1), ('short7', 0)):
                for filt in FILTERS:
                    run(('one', u['name'], None, how, kind, known, filt, 'none', 1))
                run(('one', u['name'], None, how, kind, known, 'none', 'wrong_block', 0))
        return
    spec = build.menu()[u['name']]
    if t == 'menu':
        for how in build.hows(spec):
            for sup in SUPPLY:
                for kind in build.STREAMS:
                    for known in (1, 0):
                        for gzip in (0, 1):
                            run(('one', u['name'], None, how, kind, known, u['filt'], sup, gzip))
    else:
        for how in build.hows(spec):
            for kind in [k for k in build.STREAMS if k != 'short1' or u['n'] < 5000]:
                for known in (1, 0):
                    for filt in ('none', 'drop'):
                        for sup in ('none', 'payload', 'wrong_block') if u['full'] else ('none', 'payload'):
                            run(('one', u['name'], u['n'], how, kind, known, filt, sup, 0))


def filtered(spec, filt):
    """the header block after the filter"""
    if spec.http is None:
        return b''
    f = FILTERS[filt]
    if f is None:
        return spec.head
    p, s, hs = spec.http
    first = ' '.join(x for x in (p, s) if x)
    out = (first + '\r\n') if first else ''
    for h in hs:
        h = f(h)
        if h:
            out += h[0] + ': ' + h[1] + '\r\n'
    return (out + '\r\n').encode('ascii')


def supplied(sup, block, body):
    if sup == 'none':
        return []
    p, b = ref.sha1_32(body), ref.sha1_32(block)
    W = 'sha1:' + 'A' * 32
    return {'payload': [('WARC-Payload-Digest', p)], 'block': [('WARC-Block-Digest', b)],
            'both': [('WARC-Block-Digest', b), ('WARC-Payload-Digest', p)],
            'lower': [('warc-block-digest', b), ('warc-payload-digest', p)],
            'wrong_payload': [('WARC-Payload-Digest', W)], 'wrong_block': [('WARC-Block-Digest', W)],
            'hex': [('WARC-Payload-Digest', 'sha1:' + hashlib.sha1(body).hexdigest())],
            'sha256': [('WARC-Payload-Digest', 'sha256:' + base64.b32encode(hashlib.sha256(body).digest()).decode()),
                       ('WARC-Block-Digest', 'sha256:' + hashlib.sha256(block).hexdigest())]}[sup]


def make(w, name, n, how, kind, known, filt, sup, uid=1):
    spec = build.get(name)
    if n is not None:
        spec = spec.with_body(ref.text(n, n))
    head = filtered(spec, filt)
    if any(x[0].lower() == 'warc-payload-digest' for x in spec.hdict):
        sup = 'none'
    sd = supplied(sup, head + spec.body, spec.body)
    rec = build.build(w, spec, how, kind, bool(known), uid=uid, hdict=sd)
    return spec, rec, build.expect(spec, '1.0', uid, sd, bool(known), head=head), sd


def run_case(case):
    from warcio.warcwriter import WARCWriter
    if case[0] == 'file':
        out = io.BytesIO()
        w = WARCWriter(out, gzip=True)
        for i, n in enumerate(case[1]):
            s = build.menu()[n]
            w.write_record(build.build(w, s, build.hows(s)[0], uid=i))
        status(out.getvalue(), True, len(case[1]), [build.menu()[n] for n in case[1]])
        return Out(tuple(case[1]), transitions=2)
    _, name, n, how, kind, known, filt, sup, gzip = case
    out = io.BytesIO()
    w = WARCWriter(out, gzip=bool(gzip), header_filter=FILTERS[filt])
    spec, rec, exp, sd = make(w, name, n, how, kind, known, filt, sup)
    w.write_record(rec)
    data = out.getvalue()
    p, = ref.parse_written(data, bool(gzip))
    build.check_written(p, spec, exp, 'supplied %s: ' % sup)
    ok = not (sup.startswith('wrong') and known and spec.rtype != 'revisit') or not sd
    if sup == 'wrong_payload' and any(h[0] == 'WARC-Segment-Number' for h in spec.hdict):
        ok = True               # the digest of the whole payload cannot be judged by one segment
    if kind in ('bytes', 'unseek5') or n is not None:
        status(data, ok, 1, [spec])
    return Out((name, n, how, filt, sup), transitions=1)


def status(data, ok, n, specs):
    """check command and digest checking while reading"""
    from warcio.archiveiterator import ArchiveIterator
    passed = []
    for r in ArchiveIterator(io.BytesIO(data), check_digests=True):
        r.raw_stream.read()
        passed.append(r.digest_checker.passed)
    same(passed, [None if s.rtype == 'revisit' else ok for s in specs], 'digest check of each record')
    with cli.scratch() as d:
        path = os.path.join(d, 'f.warc')
        with open(path, 'wb') as f:
            f.write(data)
        code, out, err = cli.run(['check', path])
        same(code, 0 if ok else 1, 'exit value of check (output %s)' % (out + err).decode())
        if ok:
            same(out, b'', 'output of check')
