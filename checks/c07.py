"""C07: stored digests against content: every corruption, truncation, encoding, algorithm,
read pattern, mode and mix of records, judged by an independent digest oracle."""
import base64
import hashlib
import io
import itertools
import os
import sys

from mc import cli, ref
from mc.core import Out, Violation, require, same

ID = 'C07'
LEVEL = 'exploration'
RULE = ('every single-byte corruption of block and digest text, every truncation, every algorithm and encoding, all read patterns, modes and '
        'sequences of up to 3 records of the menu; non-trivial: some digest is stored')
ASSUMPTIONS = ['With no_record_parse the payload after HTTP headers is not known, so its digest is not judged.', 'The payload digest of a segmented record is not judged by a segment.',
               'Digests spelt in a way other than the canonical one that still decode to the right bytes are not judged.',
               'Records carry a Content-Length.']
KINDS = ['response', 'chunked', 'request', 'resource', 'empty', 'emptybody', 'revisit', 'warcinfo', 'dns', 'badenc', 'segment', 'headonly', 'lines',
         'chunkedmore', 'gzipmore']
STORE = ['none', 'block', 'payload', 'both']
READS = ['none', 'all', 'one', 'seven', 'lines', 'line_read', 'content', 'content3', 'part', 'exact', 'zero']
MODES = [True, 'log', 'raise', False]


def BOUNDS(tier):
    return dict(kinds=len(KINDS), corruptions_per_byte=6 if tier == 'thorough' else 3, reads=len(READS), algorithms=len(algos()), records_per_file=3)


def algos():
    return sorted(hashlib.algorithms_available)


def parts(kind):
    """(record type, uri, content type, http head, body, extra)"""
    H = b'HTTP/1.1 200 OK\r\nContent-Type: text/html\r\n'
    B = b'line one\r\nline two\n\nrest'
    U = 'http://example.com/'
    R = 'application/http; msgtype=response'
    return {
        'response': ('response', U, R, H + b'\r\n', B, ()),
        'chunked': ('response', U, R, H + b'Transfer-Encoding: chunked\r\nContent-Encoding: gzip\r\n\r\n', ref.chunked(ref.gz(B), [9, 11]) + b'', ()),
        'chunkedmore': ('response', U, R, H + b'Transfer-Encoding: chunked\r\n\r\n', ref.chunked(B, [9, 11]) + b'more', ()),
        'gzipmore': ('response', U, R, H + b'Content-Encoding: gzip\r\n\r\n', ref.gz(B) + b'more', ()),
        'request': ('request', U, 'application/http; msgtype=request', b'POST /x HTTP/1.1\r\nHost: a\r\n\r\n', b'a=b', ()),
        'resource': ('resource', 'ftp://e/', 'text/plain', b'', B, ()),
        'empty': ('resource', 'ftp://e/', 'text/plain', b'', b'', ()),
        'emptybody': ('response', U, R, H + b'\r\n', b'', ()),
        'revisit': ('revisit', U, R, H + b'\r\n', b'', ()),
        'warcinfo': ('warcinfo', None, 'application/warc-fields', b'', b'a: b\r\n', ()),
        'dns': ('response', 'dns:e', 'text/dns', b'', b'2020\ne. IN A 1.1.1.1\n', ()),
        'badenc': ('response', U, R, H + b'Content-Encoding: br\r\n\r\n', B, ()),
        'segment': ('continuation', U, R, b'', B, (('WARC-Segment-Number', '2'),)),
        'headonly': ('response', U, R, b'HTTP/1.1 204 No\r\n\r\n', b'', ()),
        'lines': ('response', U, R, H + b'\r\n', b'\n\r\n\r\n', ()),
    }[kind]


def spell(algo, data, how='b32'):
    h = hashlib.new(algo, data)
    d = h.digest(20) if algo.startswith('shake') else h.digest()
    v = {'b32': base64.b32encode(d), 'b32n': base64.b32encode(d).rstrip(b'='), 'b64': base64.b64encode(d), 'b64n': base64.b64encode(d).rstrip(b'='),
         'b64u': base64.urlsafe_b64encode(d), 'b64un': base64.urlsafe_b64encode(d).rstrip(b'='),
         'hex': base64.b16encode(d).lower(), 'HEX': base64.b16encode(d)}[how].decode()
    return algo + ':' + v


def judge(digest, data):
    """True, False or None (not judged)"""
    algo, c, value = digest.partition(':')
    if not c:
        return False
    try:
        h = hashlib.new(algo)
    except ValueError:
        return False
    h.update(data)
    if algo.startswith('shake'):
        return False
    d = h.digest()
    for how in ('b32', 'b32n', 'b64', 'b64n', 'b64u', 'b64un', 'hex', 'HEX'):
        if spell(algo, data, how).partition(':')[2] == value:
            return True if algo in hashlib.algorithms_available else None
    if value.lower() == d.hex():
        return True
    # decodable to the right bytes although not canonical: not judged
    v = value.rstrip('=').replace('-', '+').replace('_', '/')
    try:
        if base64.b64decode(v + '=' * (-len(v) % 4)) == d:
            return None
    except ValueError:
        pass
    try:
        if base64.b32decode(v.upper() + '=' * (-len(v) % 8)) == d:
            return None
    except ValueError:
        pass
    return False


def build(kind, block_digest, payload_digest, block=None, length=None, uid=1):
    rtype, uri, ct, head, body, extra = parts(kind)
    ex = list(extra)
    if block_digest is not None:
        ex.append(('WARC-Block-Digest', block_digest))
    if payload_digest is not None:
        ex.append(('WARC-Payload-Digest', payload_digest))
    r = ref.warc(rtype, uri, head + body, ctype=ct, extra=ex, uid=uid)
    data = r.stored()[:-len(head + body)] if head + body else r.stored()
    return data, head + body


def expectation(kind, bd, pd, block=None, payload=None, cut=False):
    """expected value of passed; 'skip' when not judged"""
    rtype, uri, ct, head, body, extra = parts(kind)
    if rtype == 'revisit':
        return None
    if extra:
        pd = None
    if bd is None and pd is None:
        return None
    if cut:
        return False
    res = []
    if bd is not None:
        res.append(judge(bd, head + body if block is None else block))
    if pd is not None:
        res.append(judge(pd, body if payload is None else payload))
    if False in res:
        return False
    if None in res:
        return 'skip'
    return True


def stored(kind, store, algo='sha1', how='b32'):
    _, _, _, head, body, _ = parts(kind)
    return (spell(algo, head + body, how) if store in ('block', 'both') else None, spell(algo, body, how) if store in ('payload', 'both') else None)


def units(tier):
    T = tier == 'thorough'
    out = []
    for k in KINDS:
        for s in STORE:
            out.append(dict(t='corrupt', k=k, s=s, full=T))
            out.append(dict(t='cut', k=k, s=s))
            out.append(dict(t='reads', k=k, s=s))
            if s != 'none':
                out.append(dict(t='digest', k=k, s=s, full=T))
    for a in algos():
        out.append(dict(t='algo', a=a))
    items = seqitems()
    for a in range(len(items)):
        for b in range(len(items)):
            out.append(dict(t='seq', a=a, b=b, full=T))
    out.append(dict(t='files'))
    out.append(dict(t='noparse'))
    out.append(dict(t='big'))
    return out


def seqitems():
    return [('response', 'both', 'good'), ('resource', 'block', 'bad'), ('request', 'payload', 'bad'), ('revisit', 'both', 'bad'), ('empty', 'both', 'good'),
            ('resource', 'none', 'good'), ('chunked', 'payload', 'good'), ('empty', 'block', 'bad'), ('emptybody', 'payload', 'bad'),
            ('chunkedmore', 'both', 'bad'), ('gzipmore', 'block', 'good')]


def explore(u, run):
    t = u['t']
    if t == 'corrupt':
        _, _, _, head, body, _ = parts(u['k'])
        block = head + body
        run(('content', u['k'], u['s'], -1, 0, 'all', True))
        for i in range(len(block)):
            for x in ([1, 0x20, 0x80, 0xff, 3, 0x40] if u['full'] else [1, 0x20, 0x80]):
                run(('content', u['k'], u['s'], i, x, 'all', True))
                if x == 1:
                    run(('content', u['k'], u['s'], i, x, 'content3', 'raise'))
                    run(('content', u['k'], u['s'], i, x, 'none', 'log'))
                    run(('content', u['k'], u['s'], i, x, 'lines', True))
    elif t == 'cut':
        _, _, _, head, body, _ = parts(u['k'])
        for c in range(len(head), len(head + body)):
            for rd in READS:
                for mode in MODES:
                    run(('cut', u['k'], u['s'], c, rd, mode))
        for c in range(1, len(head)):
            for mode in (True, 'raise'):
                run(('cut', u['k'], u['s'], c, 'all', mode))
    elif t == 'reads':
        for rd in READS:
            for mode in MODES:
                for bad in (0, 1):
                    for after in (0, 1):
                        for fmt in ('plain', 'gz'):
                            run(('read', u['k'], u['s'], rd, mode, bad, after, fmt))
    elif t == 'digest':
        bd, pd = stored(u['k'], u['s'])
        for which in ('b', 'p'):
            for how in ('b32', 'b64', 'hex', 'b64u'):
                d = stored(u['k'], u['s'], 'sha1', how)[which == 'p']
                if d is None:
                    continue
                for i in range(len(d)):
                    for c in ['A', 'a', '0', '!', '=', ':', ' x', '\xe9', '', chr(ord(d[i]) ^ 1)] if u['full'] or u['k'] in ('response', 'empty', 'emptybody') else ['A', '!', '', chr(ord(d[i]) ^ 1)]:
                        if d[:i] + c + d[i + 1:] != d:
                            run(('digest', u['k'], u['s'], which, how, i, c))
        for d in ['', ':', 'sha1', 'sha1:', 'foo:bar', 'sha1:=', 'sha1:' + 'A' * 40, 'sha1:' + 'z' * 32, 'sha1:' + '=' * 32, 'sha256:' + 'A' * 32, 'md5:x', ':abc', 'sha1::', 'x' * 300,
                  'sha1:' + 'A' * 5000, 'SHA-1:AAAA', 'sha1:AAAA\xe9', 'crc32:abcd', 'None', 'shake_128:', 'shake_256:' + 'A' * 40]:
            for which in ('b', 'p'):
                run(('digest', u['k'], u['s'], which, 'set', 0, d))
    elif t == 'algo':
        for k in ('response', 'resource', 'empty', 'emptybody'):
            for how in ('b32', 'b32n', 'b64', 'b64n', 'b64u', 'b64un', 'hex', 'HEX'):
                for store in ('block', 'payload', 'both'):
                    for bad in (0, 1):
                        run(('algo', u['a'], k, how, store, bad))
    elif t == 'seq':
        n = len(seqitems())
        for c in range(n):
            for fmt in ('plain', 'gz'):
                run(('seq', [u['a'], u['b'], c], fmt, 0))
            run(('seq', [u['a'], u['b'], c], 'gz', 1))
        run(('seq', [u['a'], u['b']], 'plain', 1))
        if u['a'] == u['b']:
            run(('seq', [u['a']], 'plain', 1))
    elif t == 'noparse':
        for k in KINDS:
            for s in STORE:
                for bad in (0, 1, 2):
                    for rd in READS:
                        run(('noparse', k, s, bad, rd))
    elif t == 'files':
        names = ['good', 'bad', 'text', 'onegz', 'none', 'gzcut', 'gzbad']
        for r in range(1, 4):
            for combo in itertools.product(names, repeat=r):
                for v in (0, 1):
                    run(('files', list(combo), v))
    else:
        for n in (16384, 16385, 40000, 1 << 20, (1 << 20) + 1):
            for bad in (-1, 0, n // 2, 16383, n - 1):
                for rd in ('none', 'all', 'seven' if n < 20000 else 'k', 'content'):
                    run(('big', n, bad, rd))


def consume(record, rd):
    s = record.raw_stream
    if rd == 'all':
        s.read()
    elif rd == 'one':
        while s.read(1):
            pass
    elif rd == 'seven':
        while s.read(7):
            pass
    elif rd == 'k':
        while s.read(10000):
            pass
    elif rd == 'lines':
        while s.readline():
            pass
    elif rd == 'line_read':
        s.readline()
        s.read(3)
        s.readline(4)
        s.read()
    elif rd == 'content':
        record.content_stream().read()
    elif rd == 'content3':
        c = record.content_stream()
        while c.read(3):
            pass
    elif rd == 'part':
        s.read(5)
    elif rd == 'exact':
        s.read(record.payload_length if record.payload_length >= 0 else (record.length or 0))
    elif rd == 'zero':
        s.read(0)
        s.readline(0)
        s.read()


def outcome(data, rd, mode, n=None):
    """list of passed per record as seen when each has been read to its end, whether
    the archive-load error was raised, text logged"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    res = []
    old = sys.stderr
    sys.stderr = io.StringIO()
    raised = False
    problems = []
    try:
        it = ArchiveIterator(io.BytesIO(data), check_digests=mode)
        for record in it:
            consume(record, rd)
            it.read_to_end()
            res.append(record.digest_checker.passed)
            problems.append(list(record.digest_checker.problems))
    except ArchiveLoadFailed as e:
        raised = True
    finally:
        log = sys.stderr.getvalue()
        sys.stderr = old
    return res, raised, log, problems


def wrong(kind, bd, pd):
    """which of the digests of an undamaged record do not match"""
    rtype, uri, ct, head, body, extra = parts(kind)
    if rtype == 'revisit':
        return []
    return [n for n, d, b in (('block', bd, head + body), ('payload', None if extra else pd, body)) if d is not None and judge(d, b) is False]


def verify(data, want, rd, mode, what, incomplete=False, names=()):
    """want: expected passed of each record; names: the digests of it that are wrong"""
    if 'skip' in want:
        return
    res, raised, log, problems = outcome(data, rd, mode)
    if mode is False:
        same((res, raised), ([None] * len(want), False), what + ': checking off')
    elif mode == 'raise':
        good = list(itertools.takewhile(lambda x: x is not False, want))
        same((res, raised), (good, len(good) < len(want)), what + ': raise mode (passed, raised)')
    else:
        same((res, raised), (want, False), what + ': (passed, raised)')
        for p, w in zip(problems, want):
            same(bool(p), w is False, what + ': problems %r' % (p,))
        for p, ns in zip(problems, names):
            # each wrong digest is reported, the right one is not
            same([n for n in ('block', 'payload') if any(n in x.lower() for x in p)], ns, what + ': digests reported in %r' % (p,))
        if mode == 'log':
            for p in sum(problems, []):
                require(p in log, '%s: problem %s was not logged', what, p)
        elif not incomplete:
            require('digest' not in log, '%s: logged though not asked: %s', what, log)


def pack(data, fmt):
    return ref.gz(data) if fmt == 'gz' else data


def run_case(case):
    t = case[0]
    if t == 'content':
        _, k, s, i, x, rd, mode = case
        _, _, _, head, body, extra = parts(k)
        bd, pd = stored(k, s)
        data, block = build(k, bd, pd)
        if i >= 0:
            c = block[i] ^ x
            if i < len(head) and (c in b'\r\n' or block[i] in b'\r\n') and not bd:
                return Out(None, nontrivial=False)
            block = block[:i] + bytes([c]) + block[i + 1:]
        want = expectation(k, bd, pd, block, block[len(head):])
        verify(data + block + b'\r\n\r\n', [want], rd, mode, 'corrupted at %d' % i)
        return Out((k, s, want), nontrivial=s != 'none')
    if t == 'cut':
        _, k, s, c, rd, mode = case
        bd, pd = stored(k, s)
        data, block = build(k, bd, pd)
        want = expectation(k, bd, pd, cut=True)
        verify(data + block[:c], [want], rd, mode, 'cut at %d of %d of the block' % (c, len(block)), True)
        return Out((k, s, want), nontrivial=s != 'none')
    if t == 'read':
        _, k, s, rd, mode, bad, after, fmt = case
        bd, pd = stored(k, s)
        if bad in (1, 2):
            bd = bd and spell('sha1', b'x')
        if bad in (1, 3):
            pd = pd and spell('sha1', b'y')
        data, block = build(k, bd, pd)
        want = [expectation(k, bd, pd)]
        names = [wrong(k, bd, pd), []]
        data = pack(data + block + b'\r\n\r\n', fmt)
        if after:
            d2, b2 = build('resource', *stored('resource', 'both'))
            data += pack(d2 + b2 + b'\r\n\r\n', fmt)
            want.append(True)
        verify(data, want, rd, mode, 'reads', names=names)
        return Out((k, s, rd, str(want)), nontrivial=s != 'none')
    if t == 'digest':
        _, k, s, which, how, i, c = case
        bd, pd = stored(k, s, 'sha1', how if how != 'set' else 'b32')
        d = bd if which == 'b' else pd
        if how == 'set':
            d = c
        else:
            d = d[:i] + c + d[i + 1:]
        d = d.strip(' ')
        bd, pd = (d, pd) if which == 'b' else (bd, d)
        data, block = build(k, bd, pd)
        want = expectation(k, bd or None, pd or None)
        if want is not None or not (bd or pd):
            verify(data + block + b'\r\n\r\n', [want], 'all', True, 'digest %r' % d)
        verify(data + block + b'\r\n\r\n', [want], 'none', 'raise', 'digest %r' % d)
        return Out((k, s, want))
    if t == 'algo':
        _, a, k, how, store, bad = case
        bd, pd = stored(k, store, a, how)
        if bad:
            if bd:
                bd = spell(a, b'other', how)
            else:
                pd = spell(a, b'other', how)
        data, block = build(k, bd, pd)
        want = expectation(k, bd, pd)
        if not bad and not a.startswith('shake'):
            require(want is True, 'oracle: %s', want)
        verify(data + block + b'\r\n\r\n', [want], 'all', True, 'digest %s %s' % (bd, pd))
        return Out((a, how, want))
    if t == 'seq':
        return seq(*case[1:])
    if t == 'noparse':
        return noparse(*case[1:])
    if t == 'files':
        return files(*case[1:])
    _, n, bad, rd = case
    body = bytearray(ref.pat(n, 9))
    extra = [('WARC-Block-Digest', ref.sha1_32(bytes(body))), ('WARC-Payload-Digest', ref.sha1_32(bytes(body)))]
    if bad >= 0:
        body[bad] ^= 1
    r = ref.warc('resource', 'ftp://e/', bytes(body), ctype='text/plain', extra=extra)
    verify(r.full(), [bad < 0], rd, True, 'payload of %d bytes' % n)
    return Out((n, bad < 0))


def item(i, uid):
    k, s, state = seqitems()[i]
    bd, pd = stored(k, s)
    if state == 'bad':
        bd = bd and spell('sha1', b'x')
        pd = pd and spell('sha1', b'y')
    data, block = build(k, bd, pd, uid=uid)
    return data + block + b'\r\n\r\n', expectation(k, bd, pd), (k, bd or pd), wrong(k, bd, pd)


def seq(items, fmt, verbose):
    recs = [item(i, n) for n, i in enumerate(items)]
    data = b''.join(pack(r[0], fmt) for r in recs)
    want = [r[1] for r in recs]
    for mode in (True, 'log', 'raise'):
        for rd in ('none', 'all', 'content3', 'part'):
            verify(data, want, rd, mode, 'sequence', names=[r[3] for r in recs])
    with cli.scratch() as d:
        path = os.path.join(d, 'f.warc')
        with open(path, 'wb') as f:
            f.write(data)
        code, out, err = cli.run(['check'] + ['-v'] * verbose + [path])
        same(code, 1 if False in want else 0, 'exit value of check, records %s, output %s' % (want, out))
        text = out.decode()
        for n, (w, r) in enumerate(zip(want, recs)):
            rid = '<urn:uuid:00000000-0000-0000-0000-%012d>' % n
            same(text.count(rid), 1 if verbose or w is False else 0, 'mentions of record %d in %s' % (n, text))
            if rid in text:
                lines = text.splitlines()
                at = [i for i, x in enumerate(lines) if rid in x][0]
                off = sum(len(pack(x[0], fmt)) for x in recs[:n])
                require(str(off) in lines[at].split() and parts(r[2][0])[0] in lines[at].split(), 'record %d, type %s at %d, is shown as %s', n, parts(r[2][0])[0], off, lines[at])
                about = ' '.join(itertools.takewhile(lambda x: '<urn:uuid' not in x, lines[at + 1:]))
                for name in ('block', 'payload'):
                    same(name + ' digest' in about, name in r[3] and w is False, 'mention of the %s digest of record %d in %s' % (name, n, text))
                same('pass' in about, w is True, 'mention of passing of record %d in %s' % (n, text))
        same(text.count(path), 1 if verbose or False in want else 0, 'mentions of the file in ' + text)
        if verbose:
            same(text.count('digest pass'), want.count(True), 'passes in ' + text)
    return Out((str(want), fmt), transitions=len(items))


def files(combo, verbose):
    good, bad = item(0, 1), item(1, 2)
    content = {'good': good[0] * 2, 'bad': good[0] + bad[0], 'text': b'no archive\nat all\n', 'onegz': ref.gz(good[0] + good[0]),
               'none': item(5, 3)[0], 'gzcut': ref.gz(good[0])[:-40], 'gzbad': ref.gz(good[0])[:60] + b'\xff\xff\xff' + ref.gz(good[0])[63:]}
    with cli.scratch() as d:
        paths = []
        for i, c in enumerate(combo):
            paths.append(os.path.join(d, 'file%d.warc' % i))
            with open(paths[-1], 'wb') as f:
                f.write(content[c])
        code, out, err = cli.run(['check'] + ['-v'] * verbose + paths)
        same(code, 1 if set(combo) & BADFILES else 0, 'exit value of check for %s' % combo)
        text = out.decode()
        for p, c in zip(paths, combo):
            if c in BADFILES:
                require(p in text, 'file %s (%s) is not mentioned in %s', p, c, text)
            elif not verbose:
                require(p not in text, 'file %s (%s) is mentioned in %s', p, c, text)
        for p, c in zip(paths, combo):
            with open(p, 'rb') as f:
                same(f.read(), content[c], 'input file')
    return Out((tuple(combo), verbose), transitions=len(combo))


BADFILES = {'bad', 'text', 'onegz', 'gzcut', 'gzbad'}


def noparse(k, s, bad, rd):
    """HTTP headers not parsed: block digests, and payload digests of other records, are still judged"""
    from warcio.archiveiterator import ArchiveIterator
    bd, pd = stored(k, s)
    if bad == 1:
        bd = bd and spell('sha1', b'x')
    elif bad == 2:
        pd = pd and spell('sha1', b'y')
    data, block = build(k, bd, pd)
    is_http = parts(k)[3] != b''
    want = expectation(k, bd, None if is_http else pd)
    r = None
    it = ArchiveIterator(io.BytesIO(data + block + b'\r\n\r\n'), check_digests=True, no_record_parse=True)
    for r in it:
        consume(r, rd)
        it.read_to_end()
    if is_http and want is None and pd is not None and bd is None:
        require(r.digest_checker.passed is None, 'payload digest judged without knowing the payload: %s', r.digest_checker.passed)
    else:
        same(r.digest_checker.passed, want, 'without parsing HTTP headers')
    return Out((k, s, want), nontrivial=s != 'none')
