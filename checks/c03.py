"""C03: offset and length of every record of every archive in the space, for every
separator, time of asking, option and entry point; seeking to it or slicing it out
yields the same record; the index command agrees."""
import functools
import io
import itertools
import json
import os

from mc import cli, menu, ref
from mc.core import Out, Violation, require, same
from mc.streams import Short

ID = 'C03'
LEVEL = 'exploration'
RULE = ('every archive x storage x separator x sequence of asks/reads per record x options; every record is then re-read by seeking and by slicing; '
        'non-trivial: at least one record located')
ASSUMPTIONS = ['Records are separated by at least one blank line (CRLF or LF).']
WARC = list(menu.warc_menu())
ARC = list(menu.arc_menu())
BIG = list(menu.big_menu())
SEPS = [None, '\r\n', '\n', '\r\n\r\n', '\n\n', '\r\n\r\n\r\n', '\n\n\n', '\r\n\n', '\r\n' * 5]
ASKS = ['OG', 'GO', 'OOGG', 'rOG', 'RGO', 'DOG', 'lGOG', 'OrG', 'GdO', 'dOGdO', 'GRO', 'mGmO', 'TOG', 'DTGO']
SMALL = ['response', 'resp_chunked_gzip', 'request_get', 'revisit_empty', 'empty_resource', 'warcish', 'nl_only', 'one_byte']


def BOUNDS(tier):
    return dict(separators=SEPS, asks=ASKS, archives='all pairs of the menu, triples of the small menu, the big menu',
                reopening='seek to and slice of every record')


def units(tier):
    out = []
    for names, lst in ((WARC, WARC), (ARC, ARC)):
        for n in names:
            out.append(dict(t='pairs', n=n, lst=lst if tier == 'thorough' else lst[::2] + lst[1::4]))
            out.append(dict(t='asks', n=n, o='response' if lst is WARC else 'arc_resp'))
    for a in SMALL:
        for b in SMALL:
            out.append(dict(t='triples', ab=[a, b], full=tier == 'thorough'))
    for n in BIG:
        out.append(dict(t='big', n=n))
    for n in list(menu.scale_menu()) + list(menu.scale_arc_menu()):
        out.append(dict(t='scale', n=n))
    for n in WARC + ARC:
        out.append(dict(t='cli', n=n))
    return out


def explore(u, run):
    t = u['t']
    if t == 'pairs':
        for o in u['lst']:
            for mode in ('plain', 'gz'):
                for sep in SEPS:
                    run((  [u['n'], o], mode, sep, ['OG', 'DGO'], [], 'reopen'))
    elif t == 'asks':
        for a1 in ASKS:
            for a2 in ASKS:
                for mode in ('plain', 'gz', 'gz0', 'gznamed'):
                    run(([u['n'], u['o']], mode, None, [a1, a2], [], ''))
                    run(([u['o'], u['n']], mode, '\n', [a1, a2], [], ''))
        for opts in (['no_record_parse'], ['arc2warc'], ['verify_http'], ['block=1'], ['block=7'], ['block=100'], ['notell'],
                     ['oserror'], ['check_digests'], ['ensure_http_headers'], ['raw'], ['start=0'], ['start=1']):
            for mode in ('plain', 'gz'):
                for sep in SEPS:
                    for a in ('OG', 'DOG', 'GO'):
                        run(([u['n'], u['o'], u['n']], mode, sep, [a] * 3, opts, ''))
    elif t == 'triples':
        for o in SMALL:
            for mode in ('plain', 'gz'):
                for sep in SEPS[:6:1 if u['full'] else 2]:
                    for asks in (['OG', 'DGO', 'rOG'], ['', 'G', 'O'], ['D', '', 'GO'], ['O', 'G', '']):
                        run((u['ab'] + [o], mode, sep, asks, [], ''))
    elif t == 'big':
        for o in BIG + ['response', 'empty_resource']:
            for mode in ('plain', 'gz', 'gz0'):
                for sep in SEPS[:5]:
                    run(([u['n'], o], mode, sep, ['OG', 'DGO'], [], 'reopen'))
                    run(([o, u['n']], mode, sep, ['rOG', 'dGO'], ['notell'], ''))
    elif t == 'scale':
        for o in (['arc_resp'] if u['n'].startswith('arc') else ['response', 'empty_resource']):
            for mode in ('plain', 'gz', 'gz0'):
                for sep in SEPS[:3]:
                    run(([u['n'], o], mode, sep, ['OG', 'DGO'], [], 'reopen'))
                    run(([o, u['n']], mode, sep, ['rOG', 'dGO'], ['notell'], ''))
                    run(([o, u['n'], o], mode, sep, ['', 'G', 'OG'], [], 'index'))
    elif t == 'cli':
        n = u['n']
        o = ['response', 'empty_resource'] if n in WARC else ['arc_header', 'arc_resp']
        for names in ([n], [n, o[0]], [o[1], n, o[0]]):
            for mode in ('plain', 'gz'):
                for sep in SEPS[:4]:
                    run((names, mode, sep, [], [], 'index'))


@functools.lru_cache(300)
def archive(names, mode, sep):
    ms = {}
    ms.update(menu.warc_menu())
    ms.update(menu.big_menu())
    ms.update(menu.arc_menu())
    ms.update(menu.scale_menu())
    ms.update(menu.scale_arc_menu())
    recs = [ms[n] for n in names]
    data, spans = ref.layout(recs, mode, sep.encode() if sep is not None else None)
    return recs, data, spans


def read_first(data, pos, rec, what):
    from warcio.archiveiterator import ArchiveIterator
    fh = io.BytesIO(data)
    fh.seek(pos)
    it = ArchiveIterator(fh)
    r = next(it)
    e = menu.check_headers(r, rec, (), what)
    same(r.content_stream().read(), e['content'], what + 'content')
    return it


def run_case(case):
    from warcio.archiveiterator import ArchiveIterator
    names, mode, sep, asks, opts, extra = case
    recs, data, spans = archive(tuple(names), mode, sep)
    if extra == 'index':
        with cli.scratch() as d:
            path = os.path.join(d, 'a.warc')
            with open(path, 'wb') as fh:
                fh.write(data)
            for args, stdin in ((['index', '-f', 'offset,length', path], b''), (['index', '-f', 'offset,length'], data),
                                (['index', '-f', 'length,http:status,offset', path], b'')):
                code, out, err = cli.run(args, stdin)
                same(code, 0, 'exit status of index')
                got = [json.loads(ln) for ln in out.decode().splitlines()]
                same([(int(g['offset']), int(g['length'])) for g in got], spans, 'index')
        return Out(spans)
    kw = {}
    kind = 'bytesio'
    start = 0
    for o in opts:
        if o.startswith('block='):
            kw['block_size'] = int(o[6:])
        elif o in ('notell', 'oserror'):
            kind = o
        elif o == 'raw':
            kind = 'raw'
        elif o.startswith('start='):
            start = int(o[6:]) + 1
        else:
            kw[o] = True
    if kind == 'bytesio':
        fh = io.BytesIO(data)
    elif kind == 'raw':
        fh = io.BufferedReader(io.BytesIO(data), 10)
    else:
        fh = Short(data, mode=kind)
    if start:
        # start reading at the start-th record: offsets stay those of the file
        if len(recs) <= start:
            return Out(None, nontrivial=False)
        fh.seek(spans[start][0])
    it = ArchiveIterator(fh, **kw)
    i = start
    for record in it:
        require(i < len(recs), 'a record too many: %s', record.rec_headers)
        what = 'record %d (%s): ' % (i, names[i])
        cs = None
        for a in asks[i]:
            if a == 'O':
                same(it.get_record_offset(), spans[i][0], what + 'offset')
            elif a == 'G':
                same(it.get_record_length(), spans[i][1], what + 'length')
            elif a == 'R':
                record.raw_stream.read()
            elif a == 'r':
                record.raw_stream.read(2)
            elif a == 'l':
                record.raw_stream.readline()
            elif a == 'T':
                it.read_to_end(record)
            else:
                cs = cs or record.content_stream()
                if a == 'D':
                    cs.read()
                elif a == 'd':
                    cs.read(3)
                else:
                    cs.readline()
        i += 1
    same(i, len(recs), 'number of records')
    same(it.err_count, 0, 'err_count')
    if extra == 'reopen':
        for k, (off, ln) in enumerate(spans):
            read_first(data, off, recs[k], 'record %d at its offset: ' % k)
            it = read_first(data[off:off + ln], 0, recs[k], 'record %d from its bytes: ' % k)
            same(it.get_record_offset(), 0, 'offset in the slice')
            same(it.get_record_length(), ln, 'length of the slice')
            try:
                r = next(it)
                raise Violation('the bytes of record %d hold another record %s' % (k, r.rec_headers))
            except StopIteration:
                pass
    return Out((tuple(names), mode, sep), nontrivial=i > 0)
