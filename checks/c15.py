"""C15: archives stored plain, by record, whole and in gzip members cut at every position,
recompressed with the real command; the output parsed strictly and recompressed again."""
import io
import itertools
import os
import re

from mc import cli, menu, ref
from mc.core import Out, Violation, require, same

ID = 'C15'
LEVEL = 'exploration'
RULE = ('archives of 1-3 records x every way to cut the bytes into 1 or 2 gzip members, and into 3 members at the positions around every line end and at a stride; '
        'all storage formats; non-trivial: the file was read and rewritten')
ASSUMPTIONS = ['gzip members are valid and the uncompressed bytes are a well-formed archive, except for the unreadable inputs.',
               'HTTP headers that are not in normal form (spacing, line ends) are normalised, and non-ASCII ones encoded (C14).',
               'A revisit record keeps its HTTP headers only.',
               'Recompressing a file to itself fails, as the input file may not be changed.',
               'A block digest stored with a record is kept (see DESIGN.md).']
ARCHIVES = [['response'], ['resource', 'request_get'], ['warcinfo', 'response', 'metadata'], ['empty_resource', 'revisit_headers', 'one_byte'],
            ['resp_chunked_gzip', 'revisit_empty'], ['warcish'], ['nl_only', 'response'], ['resp_warcish', 'conversion'], ['dns', 'continuation', 'resp_empty_body'],
            ['arc_header', 'arc_resp'], ['arc_header_meta', 'arc_dns', 'arc_resp_space'], ['arc_nl', 'arc_empty'], ['resp_gzip', 'resp_br'], ['lower_names', 'utf8_header'],
            ['resp_nostatus', 'https_resp', 'request_post']]
BLANK = {'more_blank': b'\r\n' * 4, 'lf_blank': b'\n\n', 'one_blank': b'\r\n'}


def allrecs():
    m = dict(menu.warc_menu())
    m.update(menu.big_menu())
    m.update(menu.arc_menu())
    m.update(menu.scale_menu())
    m.update(menu.scale_arc_menu())
    return m


def BOUNDS(tier):
    return dict(archives=len(ARCHIVES), cuts='every byte (2 members); line ends +-2 and every %d bytes (3 members)' % (7 if tier == 'thorough' else 40), formats=['plain', 'gz', 'gz0', 'gznamed', 'onegz'], large='40 records of 2.6 MB, 2000 records')


def units(tier):
    T = tier == 'thorough'
    out = []
    for i in range(len(ARCHIVES)):
        n = len(ref.layout([allrecs()[x] for x in ARCHIVES[i]])[0])
        for lo in range(0, n + 1, 150):
            out.append(dict(t='two', a=i, lo=lo, hi=min(lo + 150, n + 1)))
        ps = pos3(i, 7 if T else 40)
        for k in range(0, len(ps), 6):
            out.append(dict(t='three', a=i, lo=k, hi=min(k + 6, len(ps)), stride=7 if T else 40))
        out.append(dict(t='formats', a=i))
    names = list(allrecs())
    for n in names:
        out.append(dict(t='each', name=n))
    out.append(dict(t='bad'))
    out.append(dict(t='itself'))
    for fmt in ('plain', 'gz', 'onegz', 'gz0'):
        out.append(dict(t='large', fmt=fmt))
    return out


def pos3(i, stride):
    data = ref.layout([allrecs()[x] for x in ARCHIVES[i]])[0]
    out = set(range(0, len(data), stride)) | {0, len(data)}
    for m in re.finditer(b'\n', data):
        out |= {m.end() - 2, m.end() - 1, m.end()} if stride > 10 else {m.end() - 2, m.end() - 1, m.end(), m.end() + 1}
    return sorted(p for p in out if 0 <= p <= len(data))


def explore(u, run):
    t = u['t']
    if t == 'two':
        for c in range(u['lo'], u['hi']):
            run(('cut', u['a'], [c]))
    elif t == 'three':
        ps = pos3(u['a'], u['stride'])
        for a in ps[u['lo']:u['hi']]:
            for b in ps:
                if b >= a:
                    run(('cut', u['a'], [a, b]))
    elif t == 'formats':
        for fmt in ('plain', 'gz', 'gz0', 'gznamed', 'onegz'):
            run(('fmt', ARCHIVES[u['a']], fmt, None))
            for b in BLANK:
                if not ARCHIVES[u['a']][0].startswith('arc'):
                    run(('fmt', ARCHIVES[u['a']], fmt, b))
        run(('cut', u['a'], 'bytes'))
        run(('cut', u['a'], 'lines'))
    elif t == 'each':
        for fmt in ('plain', 'gz', 'gz0', 'gznamed', 'onegz'):
            run(('fmt', [u['name']], fmt, None))
            for o in ('response', 'resource') if not u['name'].startswith('arc') else ('arc_resp',):
                run(('fmt', [u['name'], o], fmt, None))
                run(('fmt', [o, u['name']], fmt, None))
    elif t == 'large':
        # more than 2.5 MB in few and in many records
        run(('fmt', ['big_zeros', 'big_40000', 'response', 'big_warcish', 'big_resp'] * 8, u['fmt'], None))
        run(('fmt', ['response', 'metadata', 'resp_chunked_gzip', 'one_byte'] * 500, u['fmt'], None))
    elif t == 'itself':
        for a in (0, 2, 4, 9, 11):
            for fmt in ('plain', 'gz', 'gz0', 'onegz'):
                for way in ITSELF:
                    for v in (0, 1):
                        run(('itself', ARCHIVES[a], fmt, way, v))
        for i in range(len(bad_inputs()) - 1):
            for way in ITSELF:
                run(('itself', i, '', way, 0))
    else:
        for i in range(len(bad_inputs())):
            for v in (0, 1):
                run(('bad', i, v))


def bad_inputs():
    good = allrecs()['response'].full()
    return [b'no archive\n', b'\x1f\x8b\x08' + bytes(7) + b'\xff' * 50, ref.gz(b'plain text\nno archive\n'), b'WARC/9.9\r\nA: b\r\n\r\n', b'GIF89a' + ref.pat(500, 1),
            ref.gz(good) + ref.gz(b'junk\n'), good + b'junk line\n' * 3, b'HTTP/1.1 200 OK\r\n\r\nbody', ref.gz(good + b'trailing words\r\n\r\n'), None]


ITSELF = ['same', 'relative', 'dots', 'symlink', 'hardlink', 'dirlink', 'of link']


def itself(case):
    """the output is the input file: it must stay as it is"""
    _, a, fmt, way, v = case
    data = ref.layout([allrecs_cached()[x] for x in a], fmt)[0] if fmt else bad_inputs()[a]
    with cli.scratch() as d:
        src = dst = os.path.join(d, 'in.warc.gz')
        with open(src, 'wb') as f:
            f.write(data)
        if way == 'relative':
            dst = os.path.relpath(src)
        elif way == 'dots':
            os.mkdir(os.path.join(d, 'sub'))
            dst = os.path.join(d, 'sub', '..', 'in.warc.gz')
        elif way in ('symlink', 'of link'):
            dst = os.path.join(d, 'link')
            os.symlink(src if v else 'in.warc.gz', dst)
            if way == 'of link':
                src, dst = dst, src
        elif way == 'hardlink':
            dst = os.path.join(d, 'link')
            os.link(src, dst)
        elif way == 'dirlink':
            os.symlink(d, os.path.join(d, 'dir'))
            dst = os.path.join(d, 'dir', 'in.warc.gz')
        code, out, err = cli.run(['recompress'] + ['-v'] * v + [src, dst])
        with open(src, 'rb') as f:
            same(f.read(), data, 'input file after recompressing it to itself (%s)' % way)
    same(code, 1, 'exit value, output %s' % out.decode())
    return Out(('itself', way))


def want_of(r, g):
    """(version, sorted lower-case headers, block) of the WARC record for r; g is what was written"""
    head = r.httpblock
    if r.http is not None:
        norm = ref.http_block(' '.join(x for x in r.http[:2] if x), r.http[2], 'utf-8')
        head = norm
        try:
            norm.decode('ascii')
        except UnicodeDecodeError:
            head = ref.split_http(g.block)[0]
            require(all(c < 128 for c in head), 'non-ASCII HTTP header block %s', head)
    if r.fmt == 'warc':
        block = head + (r.body if r.rec_type != 'revisit' or r.http is None else b'')
        h = [(n.lower(), v) for n, v in r.headers if n.lower() != 'content-length']
        version = r.version
        rtype = r.rec_type
    else:
        version = 'WARC/1.0'
        d = r.get('archive-date')
        date = '%s-%s-%sT%s:%s:%sZ' % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14])
        if r.rec_type == 'arc_header':
            rtype = 'warcinfo'
            h = [('warc-filename', r.get('uri')[len('filedesc://'):]), ('content-type', r.get('content-type'))]
            block = r.body
        else:
            rtype = 'response'
            h = [('warc-target-uri', r.get('uri').replace(' ', '%20')), ('content-type', 'application/http;msgtype=response')]
            block = head + r.body
        h += [('warc-type', rtype), ('warc-ip-address', r.get('ip-address')), ('warc-date', date), ('warc-record-id', g.get('WARC-Record-ID'))]
        require(re.match(r'<urn:uuid:[0-9a-f-]{36}>\Z', g.get('WARC-Record-ID') or ''), 'record id %s', g.get('WARC-Record-ID'))
    if not any(n == 'warc-block-digest' for n, v in h):
        h.append(('warc-block-digest', ref.sha1_32(block)))
    if rtype not in ('warcinfo', 'revisit') and not any(n == 'warc-payload-digest' for n, v in h):
        h.append(('warc-payload-digest', ref.sha1_32(r.body)))
    h.append(('content-length', str(len(block))))
    return version, sorted(h), block


def check_output(data, recs, what):
    try:
        got = ref.parse_written(data, True)
    except ref.Bad as e:
        raise Violation('%s: output is not one valid record per gzip member: %s' % (what, e))
    same([g.get('WARC-Type') for g in got], [r.rec_type if r.rec_type != 'arc_header' else 'warcinfo' for r in recs], what + ': records')
    for g, r in zip(got, recs):
        v, h, b = want_of(r, g)
        same(g.version, v, what + ': version of %s' % r.name)
        same(sorted((n.lower(), x) for n, x in g.headers), h, what + ': headers of %s' % r.name)
        same(g.block, b, what + ': block of %s' % r.name)


def recompress(data, d, verbose=False):
    src, dst = os.path.join(d, 'in.warc.gz'), os.path.join(d, 'out.warc.gz')
    if data is not None:
        with open(src, 'wb') as f:
            f.write(data)
    if os.path.exists(dst):
        os.remove(dst)
    code, out, err = cli.run(['recompress'] + ['-v'] * bool(verbose) + [src, dst])
    if data is not None:
        with open(src, 'rb') as f:
            same(f.read(), data, 'input file after recompressing')
    res = None
    if os.path.exists(dst):
        with open(dst, 'rb') as f:
            res = f.read()
    return code, out.decode(), res


def run_case(case):
    if case[0] == 'bad':
        _, i, v = case
        data = bad_inputs()[i]
        with cli.scratch() as d:
            code, out, res = recompress(data, d, v)
        same(code, 1, 'exit value for unreadable input, output %s' % out)
        require('Recompress Failed' in out, 'no failure message in %s', out)
        return Out(('bad', i))
    if case[0] == 'itself':
        return itself(case)
    if case[0] == 'cut':
        _, a, cuts = case
        recs = [allrecs_cached()[x] for x in ARCHIVES[a]]
        data = ref.layout(recs)[0]
        if cuts == 'bytes':
            cuts = list(range(1, len(data)))
        elif cuts == 'lines':
            cuts = [m.end() for m in re.finditer(b'\n', data)]
        cs = [0] + list(cuts) + [len(data)]
        src = b''.join(ref.gz(data[x:y]) for x, y in zip(cs, cs[1:]))
        what = 'members cut at %s' % (cuts[:5],)
    else:
        _, names, fmt, blank = case
        recs = [allrecs_cached()[x] for x in names]
        src = ref.layout(recs, fmt, BLANK[blank] if blank else None)[0]
        what = 'format %s' % fmt
    with cli.scratch() as d:
        code, out, res = recompress(src, d)
        same(code, 0, what + ': exit value, output %s' % out)
        check_output(res, recs, what)
        require(('%d records read and recompressed' % len(recs)) in out, '%s: output %s does not report %d records', what, out, len(recs))
        code, out, res2 = recompress(res, d)
        same((code, res2), (0, res), what + ': recompressed again')
        require(('%d records read and recompressed' % len(recs)) in out, '%s: output %s does not report %d records', what, out, len(recs))
    return Out((case[0], str(case[1]), str(case[2])[:6], len(res)), transitions=2)


_recs = {}


def allrecs_cached():
    if not _recs:
        _recs.update(allrecs())
    return _recs
