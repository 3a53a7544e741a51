"""C01: every archive of up to 3 records over the menu x storage formats x every
sequence of consumption actions per record, compared with what is stored."""
import functools
import io
import itertools

from mc import menu, ref
from mc.core import Out, Violation, require, same
from mc.streams import Short

ID = 'C01'
LEVEL = 'exploration'
RULE = ('every archive (records from the menu, length <= 3) x storage format x consumption-action sequence per record x reading API; '
        'non-trivial: at least one record was delivered')
ASSUMPTIONS = ['Records are separated as the formats prescribe (other separators: C03).',
               'After a partial decoded read the raw stream of the same record is not compared (the decoder reads ahead).']

SEQS = [(), ('R',), ('r3', 'R'), ('r1', 'l'), ('l', 'l', 'R'), ('D',), ('d2', 'D'), ('d1',), ('m',), ('m', 'D'), ('m', 'd3', 'm'),
        ('O',), ('G',), ('r3', 'O'), ('d2', 'G'), ('R', 'O'), ('D', 'G', 'O'), ('O', 'O', 'R'), ('c', 'D'), ('r0', 'R', 'R')]
LAST = [(), ('R',), ('D', 'G')]
SMALL = ['resp_chunked_gzip', 'request_get', 'revisit_empty', 'empty_resource', 'warcish', 'nl_only', 'resp_empty_body', 'dns']
SMALLSEQ = [(), ('R',), ('D',), ('d1',), ('l',), ('G',), ('m', 'O')]
ALPH = ['r2', 'R', 'l', 'D', 'd3', 'm', 'O', 'G', 'c']


@functools.lru_cache(None)
def menus():
    m = {}
    m.update(menu.warc_menu())
    m.update(menu.big_menu())
    m.update(menu.arc_menu())
    m.update(menu.scale_menu())
    m.update(menu.scale_arc_menu())
    return m


WARC = list(menu.warc_menu())
BIG = list(menu.big_menu())
ARC = list(menu.arc_menu())


def BOUNDS(tier):
    return dict(records_per_archive=3, menu_warc=len(WARC), menu_big=len(BIG), menu_arc=len(ARC), action_sequences=len(SEQS),
                single_record_action_depth=4 if tier == 'thorough' else 3, scale_menu=len(menu.scale_menu()) + len(menu.scale_arc_menu()), records='4000', straddle_sweep='first record 15684..16434 bytes' )


def units(tier):
    out = []
    T = tier == 'thorough'
    for name in WARC + ARC:
        for mode in ('plain', 'gz'):
            out.append(dict(t='single', n=name, mode=mode, depth=4 if T else 3))
    for name in WARC:
        out.append(dict(t='pairs', n=name, others=WARC, modes=['plain', 'gz'], full=T))
    for name in ARC:
        out.append(dict(t='pairs', n=name, others=ARC, modes=['plain', 'gz'], full=T))
    for name in BIG:
        out.append(dict(t='pairs', n=name, others=BIG + ['response', 'request_get'], modes=['plain', 'gz', 'gz0'], full=False))
    for a in SMALL:
        for b in SMALL:
            out.append(dict(t='triples', ab=[a, b], others=SMALL, modes=['plain', 'gz'], full=T))
    for a in ARC:
        out.append(dict(t='triples', ab=['arc_header', a], others=ARC, modes=['plain', 'gz'], full=T))
    for lo in range(15684, 16434, 25):
        out.append(dict(t='straddle', lo=lo, hi=lo + 25))
    for name in WARC + ARC:
        out.append(dict(t='api', n=name))
    for lst in ('warc', 'arc', 'mixbig'):
        out.append(dict(t='all', lst=lst))
    out.append(dict(t='zero'))
    out += [dict(t='scale', n=n) for n in list(menu.scale_menu()) + list(menu.scale_arc_menu())]
    out += [dict(t='many', mode=m, arc=a) for m in ('plain', 'gz') for a in (0, 1)]
    return out


def explore(u, run):
    t = u['t']
    if t == 'single':
        for d in range(0, u['depth'] + 1):
            for seq in itertools.product(ALPH, repeat=d):
                run(([u['n']], u['mode'], [seq], 'iter'))
    elif t == 'pairs':
        for mode in u['modes']:
            for o in u['others']:
                for s1 in SEQS:
                    for s2 in (SEQS if u['full'] else LAST):
                        run(([u['n'], o], mode, [s1, s2], 'iter'))
    elif t == 'triples':
        for mode in u['modes']:
            for o in u['others']:
                for s1 in SMALLSEQ:
                    for s2 in SMALLSEQ:
                        for s3 in (SMALLSEQ if u['full'] else [('D', 'G')]):
                            run((u['ab'] + [o], mode, [s1, s2, s3], 'iter'))
    elif t == 'straddle':
        for n in range(u['lo'], u['hi']):
            for mode in ('plain', 'gz0', 'gz'):
                run((['#%d' % n, 'response', 'resp_chunked_gzip'], mode, [(), ('D',), ('D', 'G')], 'iter'))
                run((['#%d' % n, 'request_get'], mode, [('R',), ('O',)], 'iter'))
    elif t == 'api':
        n = u['n']
        apis = ['next', 'warc' if n in WARC else 'arc', 'noparse', 'read_to_end', 'ensure', 'open', 'list']
        others = ['response', 'revisit_empty'] if n in WARC else ['arc_resp', 'arc_header']
        for api in apis:
            for mode in ('plain', 'gz', 'gznamed', 'gz0'):
                for o in others:
                    for names in ([n, o], [o, n], [o, n, o], [n, n]):
                        for s in ((), ('D',), ('R', 'G'), ('r3',)):
                            run((names, mode, [s] * len(names), api))
    elif t == 'all':
        names = {'warc': WARC, 'arc': ARC, 'mixbig': BIG + WARC[:9]}[u['lst']]
        for k in range(len(names)):
            rot = names[k:] + names[:k]
            for mode in ('plain', 'gz', 'gz0', 'gznamed'):
                for j in range(0, len(SEQS), 3):
                    run((rot, mode, [SEQS[(j + q * 7) % len(SEQS)] if q % 2 else SEQS[j] for q in range(len(rot))], 'iter'))
    elif t == 'scale':
        o = 'arc_resp' if u['n'].startswith('arc') else 'response'
        for mode in ('plain', 'gz', 'gz0'):
            for s in ((), ('R',), ('D',), ('l', 'R'), ('r3', 'G'), ('l', 'l', 'l', 'D')):
                run(([u['n'], o], mode, [s, ('D', 'G')], 'iter'))
                run(([o, u['n'], o], mode, [(), s, ('D', 'G')], 'iter'))
    elif t == 'many':
        names = ARC[:6] if u['arc'] else ['response', 'one_byte', 'empty_resource', 'resp_chunked_gzip', 'request_get']
        for n in (4000, 400):
            for s in ((), ('D', 'G'), ('r1',)):
                run(([names[i % len(names)] for i in range(n)], u['mode'], [s] * n, 'iter'))
    elif t == 'zero':
        for api in ('iter', 'next'):
            run(([], 'plain', [], api))


@functools.lru_cache(400)
def archive(names, mode):
    recs = []
    for n in names:
        if n[0] == '#':
            recs.append(ref.warc('resource', 'http://example.com/s', ref.pat(int(n[1:]), 1), ctype='text/plain'))
        else:
            recs.append(menus()[n])
    data, spans = ref.layout(recs, mode)
    return recs, data, spans


def find_nl(data, pos):
    i = data.find(b'\n', pos)
    return len(data) if i < 0 else i + 1


def act(it, record, seq, e, span):
    raw_p = 0
    dec_p = 0
    cs = None
    plain = None
    log = []
    drained = False
    for op in seq:
        if op == 'c':
            record.content_stream()
            continue
        if op in ('O', 'G'):
            if op == 'O':
                same(it.get_record_offset(), span[0], 'offset')
            else:
                same(it.get_record_length(), span[1], 'length')
            drained = True
            raw_p = len(e['raw'])
            continue
        decoded = op[0] in 'Ddm'
        if decoded:
            if cs is None:
                cs = record.content_stream()
                plain = cs is record.raw_stream
            if not plain and (raw_p or drained):
                # raw bytes were taken before decoding: not comparable
                return log
            data = e['content']
            p = raw_p if plain else dec_p
            s = cs
        else:
            if cs is not None and not plain:
                return log
            data = e['raw']
            p = raw_p
            s = record.raw_stream
        if op in ('R', 'D'):
            want = data[p:]
            got = s.read()
        elif op in ('l', 'm'):
            want = data[p:find_nl(data, p)]
            got = s.readline()
        else:
            k = int(op[1:])
            want = data[p:p + k]
            got = s.read(k)
        if got != want:
            raise Violation('%s after %r: got %r, expected %r' % (op, log, got[:200], want[:200]))
        if decoded and not plain:
            dec_p = p + len(got)
        else:
            raw_p = p + len(got)
        log.append((op, len(got)))
    return log


def run_case(case):
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    names, mode, seqs, api = case
    recs, data, spans = archive(tuple(names), mode)
    cls = {'warc': WARCIterator, 'arc': ARCIterator}.get(api, ArchiveIterator)
    opts = ('no_record_parse',) if api == 'noparse' else ()
    kw = {'no_record_parse': True} if api == 'noparse' else {}
    if api == 'ensure':
        kw['ensure_http_headers'] = True
    fh = io.BytesIO(data)
    it = cls(fh, **kw)
    log = []
    i = 0
    if api == 'list':
        got = list(it)
        same(len(got), len(recs), 'number of records')
        for r, x in zip(got, recs):
            menu.check_headers(r, x, opts)
        return Out(tuple(names))
    src = iter(it)
    while True:
        try:
            record = next(it if api == 'next' else src)
        except StopIteration:
            break
        require(i < len(recs), 'a record too many: %s', record.rec_headers)
        what = 'record %d (%s): ' % (i, names[i])
        try:
            if api == 'ensure' and menu.expected(recs[i])['http'] is None:
                e = menu.expected(recs[i])
                require(record.http_headers is not None, 'ensure_http_headers gave none')
                same(record.http_headers.statusline, '200 OK', 'generated status')
                same([tuple(h) for h in record.rec_headers.headers], e['headers'], 'record headers')
                e['content'] = e['raw']
            else:
                e = menu.check_headers(record, recs[i], opts)
            if api == 'read_to_end' and not seqs[i]:
                it.read_to_end(record)
            log.append(act(it, record, seqs[i], e, spans[i]))
        except Violation as v:
            raise Violation(what + v.msg)
        i += 1
    same(i, len(recs), 'number of records')
    try:
        next(it)
        raise Violation('another record after the end')
    except StopIteration:
        pass
    same(it.err_count, 0, 'err_count of a well-formed archive')
    it.close()
    return Out((tuple(names), repr(log)), nontrivial=i > 0)
