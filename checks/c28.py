"""C28: every file of up to 3 records (WARC, ARC or mixed) x every division into gzip
members x junk before or after, read by every kind of iterator."""
import bz2
import functools
import io
import itertools
import lzma
import zlib

from checks import c16
from mc import menu, ref
from mc.core import Out, Violation, require, same
from mc.streams import Short

ID = 'C28'
LEVEL = 'exploration'
RULE = ('all sequences of up to 3 menu records of both formats x storage (plain, every division into gzip members, levels) x iterator class and conversion x block size and input kind, '
        'the same followed by data that is no record, and every junk file of the menu; non-trivial: a record was delivered or an error raised')
ASSUMPTIONS = ['A first line of five or more words is an ARC record line, so no junk in the menu has one.',
               'Where a gzip member other than the last holds several records, they may be delivered or refused, but nothing wrong may be delivered.']
W = ['response', 'warcinfo', 'warcish', 'revisit_empty', 'low', 'v017', 'v11']
A = ['arc_resp', 'arc_header', 'arc_dns', 'arc_nl']
READERS = ['any', 'conv', 'WARC', 'ARC', 'warcnp', 'convnp']


@functools.lru_cache(None)
def menus():
    m = {}
    m.update(menu.warc_menu())
    m.update(menu.arc_menu())
    m['low'] = m['lower_names']
    m['v017'] = ref.warc('resource', 'http://example.com/v', b'0.17\n', ctype='text/plain', version='WARC/0.17')
    m['v11'] = ref.warc('resource', 'http://example.com/v', b'1.1\n', ctype='text/plain', version='WARC/1.1')
    return m


def junk():
    x = menus()
    w = ref.layout([x['response'], x['warcinfo']])[0]
    out = [b'Hello world\n', b'Hello', b'<html><body>x</body></html>\r\n', b'%PDF-1.4\n%\xe2\xe3\xcf\xd3\n', b'PK\x03\x04\x14\0\0\0\x08\0abc', b'{"a": 1}\n', b'\0' * 100, b'\0', b'\n', b'\r\n', b'\r\n\r\n\r\n',
           ref.pat(300, 5), ref.pat(20000, 6), b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc', w.replace(b'WARC/1.0', b'WARC/2.0'), w.replace(b'WARC/1.0', b'WARC/0.9'), w.replace(b'WARC/1.0', b'WARC 1.0'),
           w[1:], w[10:], b' ' + w, b'x' + w, b'\xef\xbb\xbf' + w, w.decode().encode('utf-16'), zlib.compress(w), bz2.compress(w), lzma.compress(w), ref.br(w), ref.gz(ref.gz(w)), ref.gz(w)[1:], ref.gz(w)[10:],
           b'filedesc://x 0.0.0.0 20140216050221\n1 0 X\nURL\n\n', b'http://example.com/ 1.2.3.4 20140216050221 text/html\nabc\n', b'-' * 20000, b'a b c d\n', b'Content-Type: text/plain\r\n\r\n']
    for j in out:
        assert len(j.split(b'\n')[0].rstrip().rsplit(b' ', 4)) < 5
    return out


JUNK = junk()
TAILS = [b'Hello\n', b'\0\0', ref.pat(50, 7), b'PK\x03\x04', b'x', b'WARC/2.0\r\n\r\n', b'trailer line\r\n\r\n']


def BOUNDS(tier):
    return dict(warc_menu=W, arc_menu=A, records=3, readers=READERS, junk_files=len(JUNK), tails=len(TAILS), block_sizes=[1, 7, 16384])


def units(tier):
    names = W + A
    out = [dict(t='junk', j=j) for j in range(len(JUNK))]
    out.append(dict(t='empty'))
    for a in names:
        out.append(dict(t='one', r=[a]))
        for b in names:
            out.append(dict(t='files', r=[a, b]))
            out.append(dict(t='files3', r=[a, b], full=tier == 'thorough'))
    return out


def divisions(n):
    """all ways to divide n records into consecutive members"""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        d = [1]
        for c in cuts:
            if c:
                d.append(1)
            else:
                d[-1] += 1
        yield d


INPUTS = [('bytes', 16384), ('bytes', 7), ('bytes', 1), ('short', 16384), ('short', 50)]


def explore(u, run):
    t = u['t']
    if t == 'junk':
        for reader in READERS:
            for inp in INPUTS:
                for pack in ('plain', 'gz', 'gzsplit'):
                    run(('junk', u['j'], pack, reader, inp))
        return
    if t == 'empty':
        for reader in READERS:
            for inp in INPUTS:
                for pack in ('plain', 'gz', 'gz2'):
                    run(('empty', pack, reader, inp))
        return
    lists = [u['r']] if t != 'files3' else [u['r'] + [c] for c in W + A]
    for names in lists:
        small = t != 'files3' or u['full']
        for reader in READERS:
            for inp in INPUTS if small else INPUTS[:1] + INPUTS[3:4]:
                run(('file', names, 'plain', reader, inp, -1))
                for d in divisions(len(names)):
                    for level in (9, 0) if small else (9,):
                        run(('file', names, (d, level), reader, inp, -1))
                        if small:
                            for k in range(len(TAILS)):
                                run(('file', names, (d, level), reader, inp, k))
                if small:
                    for k in range(len(TAILS)):
                        run(('file', names, 'plain', reader, inp, k))


@functools.lru_cache(5000)
def archive(names, storage):
    recs = [menus()[n] for n in names]
    if storage == 'plain':
        return recs, b''.join(r.full() for r in recs)
    d, level = storage
    out = b''
    i = 0
    for n in d:
        out += ref.gz(b''.join(r.full() for r in recs[i:i + n]), level)
        i += n
    return recs, out


def reader_of(reader, fh, block):
    from warcio.archiveiterator import ARCIterator, ArchiveIterator, WARCIterator
    if reader == 'any':
        return ArchiveIterator(fh, block_size=block)
    if reader == 'conv':
        return ArchiveIterator(fh, arc2warc=True, block_size=block)
    if reader == 'convnp':
        return ArchiveIterator(fh, arc2warc=True, no_record_parse=True, block_size=block)
    if reader == 'WARC':
        return WARCIterator(fh, block_size=block)
    if reader == 'warcnp':
        return WARCIterator(fh, no_record_parse=True, block_size=block)
    return ARCIterator(fh, block_size=block)


def judge(record, rec, reader):
    if rec.fmt == 'arc' and reader.startswith('conv'):
        raw = c16.judge(record, rec, 'warcnp' if reader == 'convnp' else 'warc')
        same(record.raw_stream.read(), raw, 'content')
    else:
        e = menu.check_headers(record, rec, ('no_record_parse',) if reader.endswith('np') else ())
        same(record.raw_stream.read(), e['raw'], 'content')


def read(data, recs, reader, inp):
    """how many records (all of them right) were delivered, and how it ended"""
    import sys
    from warcio.exceptions import ArchiveLoadFailed
    fh = io.BytesIO(data) if inp[0] == 'bytes' else Short(data, (1, 3, 2))
    err = sys.stderr
    sys.stderr = io.StringIO()
    n = 0
    it = reader_of(reader, fh, inp[1])
    try:
        try:
            for record in it:
                require(n < len(recs), 'record delivered that is not there: %s', record.rec_headers)
                try:
                    judge(record, recs[n], reader)
                except Violation as v:
                    raise Violation('record %d: %s' % (n, v.msg))
                n += 1
        except ArchiveLoadFailed as e:
            require(str(e).strip(), 'empty error message')
            end = 'gzip' if 'non-chunked gzip' in str(e) else 'refused'
        else:
            end = 'end'
    finally:
        sys.stderr = err
    try:
        next(it)
        raise Violation('a record after the end')
    except StopIteration:
        pass
    it.close()
    return n, end


def run_case(c):
    t = c[0]
    inp = tuple(c[-1] if t != 'file' else c[4])
    if t == 'empty':
        data = {'plain': b'', 'gz': ref.gz(b''), 'gz2': ref.gz(b'') * 2}[c[1]]
        same(read(data, [], c[2], inp), (0, 'end'), 'reading an empty file')
        return Out(c, nontrivial=False)
    if t == 'junk':
        data = JUNK[c[1]]
        if c[2] == 'gz':
            data = ref.gz(data)
        elif c[2] == 'gzsplit':
            data = ref.gz(data[:3]) + ref.gz(data[3:])
        same(read(data, [], c[3], inp), (0, 'refused'), 'reading %r' % data[:60])
        return Out(c)
    _, names, storage, reader, _, tail = c
    storage = storage if storage == 'plain' else (tuple(storage[0]), storage[1])
    recs, data = archive(tuple(names), storage)
    if tail >= 0:
        data += TAILS[tail]
    n, end = read(data, recs, reader, inp)
    # what is to come
    fmts = [r.fmt for r in recs]
    first = {'WARC': 'warc', 'warcnp': 'warc', 'ARC': 'arc'}.get(reader, fmts[0])
    limit = len(recs)
    how = 'end' if tail < 0 else 'refused'
    if not reader.startswith('conv'):
        for i, f in enumerate(fmts):
            if f != first:
                limit, how = i, 'refused'
                break
    if storage == 'plain' or all(k == 1 for k in storage[0]):
        same((n, end), (limit, how), 'records delivered and the end')
        return Out(c, transitions=n + 1)
    # some member holds several records: the last member is known to
    pos = 0
    for k in storage[0]:
        if k > 1:
            break
        pos += 1
    last_only = storage[0][-1] > 1 and all(k == 1 for k in storage[0][:-1])
    if last_only and tail < 0:
        if limit <= pos + 1 and how == 'refused':
            # also of the wrong format
            same(n, limit, 'records delivered')
            require(end in ('refused', 'gzip'), 'ended by %s', end)
        else:
            same((n, end), (pos + 1, 'gzip'), 'records delivered of a member of several, and the end')
    else:
        require(min(pos + 1, limit) <= n <= limit, '%s records delivered, not %s to %s', n, min(pos + 1, limit), limit)
        require(end != 'end' or (n == len(recs) and how == 'end'), 'ended without error after %s of %s records', n, len(recs))
    return Out(c, transitions=n + 1)
