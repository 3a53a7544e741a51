"""C05: every write history of up to 3 records on an output device that logs writes and
flushes, and every byte position at which the output may be cut off."""
import io
import itertools
import os

from mc import build, cli, ref
from mc.core import Out, require, same

ID = 'C05'
LEVEL = 'exploration'
RULE = ('all histories of up to 3 menu records (pairs written as request/response pair too) x gzip; after each, every cut within the last record '
        '(cuts in earlier records are those of the shorter histories, the file being shown to be the concatenation); non-trivial: at least one whole record is within the cut')
ASSUMPTIONS = ['What was flushed to the output object and not yet returned by its own buffers counts as durable; a cut keeps a prefix of the bytes written.',
               'What reading gives for the record that was cut itself is judged by C24 only.']
NAMES = ['response', 'resp_empty', 'resp_blank_body', 'request_post', 'revisit', 'revisit_payload', 'revisit_nohdr', 'resource_empty', 'resource_one', 'conversion', 'warcinfo',
         'resource_hdr', 'metadata']
CORE = ['response', 'revisit', 'resource_empty', 'conversion', 'resource_one']
BIG = {'response': 20000, 'resource': 33000, 'conversion': 16384}


def BOUNDS(tier):
    return dict(menu=len(NAMES), history_length=3, cuts='every byte of the last record', big_payloads=BIG)


def units(tier):
    out = []
    for gzip in (0, 1):
        out.append(dict(t='one', gzip=gzip))
        for a in NAMES:
            for b in NAMES:
                out.append(dict(t='hist', h=[a, b], gzip=gzip))
                if tier == 'thorough' or (a in CORE and b in CORE):
                    for c in (NAMES if tier == 'thorough' else CORE):
                        out.append(dict(t='hist', h=[a, b, c], gzip=gzip))
        for a in BIG:
            out.append(dict(t='big', h=[a], gzip=gzip))
            out.append(dict(t='big', h=['metadata', a], gzip=gzip))
            out.append(dict(t='big', h=[a, 'response'], gzip=gzip))
    return out


def explore(u, run):
    if u['t'] == 'one':
        for a in NAMES:
            hist(run, [a], u['gzip'], 0, 1)
        return
    hist(run, u['h'], u['gzip'], u['t'] == 'big', 0)


def spec(name, big):
    s = build.menu()[name]
    return s.with_body(ref.pat(BIG[name], 2)) if big and name in BIG else s


def hist(run, names, gzip, big, all_cuts):
    run(('write', names, gzip, int(big)))
    data, spans = written(names, gzip, big)
    start = spans[-1][0]
    if len(data) - start > 5000:
        cuts = set(range(start, start + 900)) | set(range(len(data) - 300, len(data) + 1)) | set(range(start, len(data), 211))
        for m in (8192, 16384, 32768):
            cuts |= set(range(m - 3, m + 4))
        cuts = sorted(c for c in cuts if c <= len(data))
    else:
        cuts = range(0 if len(names) == 1 else start, len(data) + 1)
    for c in cuts:
        run(('cut', names, gzip, int(big), c))


_cache = {}


def written(names, gzip, big):
    k = (tuple(names), gzip, bool(big))
    if k not in _cache:
        _cache.clear()
        _cache[k] = write(names, gzip, big, False)[:2]
    return _cache[k]


def write(names, gzip, big, watch, out=None):
    from mc.streams import Device
    from warcio.warcwriter import WARCWriter
    out = Device() if out is None else out
    w = WARCWriter(out, gzip=bool(gzip))
    spans = []
    alone = []
    for i, n in enumerate(names):
        s = spec(n, big)
        start = len(out.data)
        w.write_record(build.build(w, s, build.hows(s)[i % len(build.hows(s))], 'bytes' if i % 2 else 'unseek', i != 1, uid=i))
        spans.append((start, len(out.data)))
        if watch:
            require(out.events and out.events[-1][0] == 'f', 'the last event of the write call is %s, not a flush', out.events[-1:])
            same(out.flushed, len(out.data), 'bytes flushed when the write call returned')
            require(not any(e[0] == 'c' for e in out.events), 'the output was closed')
            alone.append(bytes(out.data[start:]))
    return bytes(out.data), spans, alone


def run_case(case):
    if case[0] == 'write':
        return run_write(*case[1:])
    _, names, gzip, big, cut = case
    from warcio.archiveiterator import ArchiveIterator
    data, spans = written(names, gzip, big)
    whole = [i for i, (a, b) in enumerate(spans) if b <= cut]
    it = None
    n = 0
    try:
        it = ArchiveIterator(io.BytesIO(data[:cut]), check_digests=True)
        for record in it:
            if n >= len(whole):
                break
            s = spec(names[n], big)
            build.check_read(record, s, build.expect(s, '1.0', n, known=n != 1), 'record %d of a file cut at %d of %d: ' % (n, cut, len(data)))
            require(record.digest_checker.passed is not False, 'digest of record %d of a file cut at %d: %s', n, cut, record.digest_checker.problems)
            if spans[n][1] < cut or gzip:
                # located even if what follows is torn
                off, ln = it.get_record_offset(), it.get_record_length()
                same((off, ln), (spans[n][0], spans[n][1] - spans[n][0] - (0 if gzip else 4)), 'offset and length of record %d of a file cut at %d of %d' % (n, cut, len(data)))
            n += 1
    except Exception as e:
        from mc.core import Violation
        if isinstance(e, Violation) or n < len(whole):
            raise
    same(n, len(whole), 'records read from a file cut at %d of %d' % (cut, len(data)))
    return Out((tuple(names), gzip, n, cut == len(data)), nontrivial=n > 0, transitions=1)


def run_write(names, gzip, big):
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    data, spans, alone = write(names, gzip, big, True)
    same(b''.join(alone), data, 'the file and the parts')
    recs = ref.parse_written(data, bool(gzip))
    same([(r.start, r.end) for r in recs], spans, 'extent of each record (a whole gzip member)')
    for i, (r, n) in enumerate(zip(recs, names)):
        s = spec(n, big)
        build.check_written(r, s, build.expect(s, '1.0', i, known=i != 1), 'record %d: ' % i)
        from mc.streams import Device
        d = Device()
        w = WARCWriter(d, gzip=bool(gzip))
        w.write_record(build.build(w, s, build.hows(s)[i % len(build.hows(s))], 'bytes' if i % 2 else 'unseek', i != 1, uid=i))
        same(bytes(d.data), alone[i], 'record %d written alone' % i)
    # in memory
    bw = BufferWARCWriter(gzip=bool(gzip))
    for i, n in enumerate(names):
        s = spec(n, big)
        bw.write_record(build.build(bw, s, build.hows(s)[i % len(build.hows(s))], 'bytes', i != 1, uid=i))
        same(bw.get_contents(), data[:spans[i][1]], 'contents of the buffer writer after %d records' % (i + 1))
    same(bw.get_stream().read(), data, 'stream of the buffer writer')
    # a real buffered file: on disk when the call returns
    with cli.scratch() as d:
        path = os.path.join(d, 'f.warc')
        with open(path, 'wb') as f:
            w = WARCWriter(f, gzip=bool(gzip))
            for i, n in enumerate(names):
                s = spec(n, big)
                w.write_record(build.build(w, s, build.hows(s)[i % len(build.hows(s))], 'bytes', i != 1, uid=i))
                with open(path, 'rb') as g:
                    same(g.read(), data[:spans[i][1]], 'file on disk after write %d returned' % i)
    if len(names) == 2 and 'warcinfo' not in names:
        pair(names, gzip, big)
    return Out((tuple(names), gzip, 'w'), transitions=3 * len(names))


def pair(names, gzip, big):
    from mc.streams import Device
    from warcio.warcwriter import WARCWriter
    d = Device()
    w = WARCWriter(d, gzip=bool(gzip))
    rs = [build.build(w, spec(n, big), build.hows(spec(n, big))[0], 'bytes', True, uid=i) for i, n in enumerate(names)]
    w.write_request_response_pair(rs[1], rs[0])
    same(d.flushed, len(d.data), 'bytes flushed when the pair was written')
    recs = ref.parse_written(bytes(d.data), bool(gzip))
    same([r.get('WARC-Type') for r in recs], [spec(n, big).rtype for n in names], 'records of the pair')
    same(recs[1].get('WARC-Concurrent-To'), recs[0].get('WARC-Record-ID'), 'WARC-Concurrent-To')
