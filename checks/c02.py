"""C02: the same archive read under every block size, every uniform read cap, every
single (thorough: double) short-read deviation and every kind of input must give
the reference records, offsets and lengths."""
import functools
import io
import itertools

from mc import menu, ref
from mc.core import Out, Violation, require, same
from mc.streams import Short

ID = 'C02'
LEVEL = 'exploration'
RULE = ('every archive x storage x (block size | uniform read cap | position of 1..2 short reads) x kind of input x consumption; '
        'non-trivial: at least one record delivered')
ASSUMPTIONS = ['Reads of the input return at least one byte unless the input ends.']
WARC = list(menu.warc_menu())
ARC = list(menu.arc_menu())
ARCHIVES = ([[n] for n in WARC + ARC] +
            [['response', 'request_get'], ['resp_chunked_gzip', 'revisit_empty', 'resp_chunked'], ['empty_resource', 'one_byte', 'nl_only'],
             ['warcish', 'resp_warcish'], ['arc_header', 'arc_resp', 'arc_dns'], ['arc_header_meta', 'arc_empty', 'arc_nl', 'arc_chunked'],
             ['resp_br', 'resp_deflate', 'resp_gzip'], ['revisit_headers', 'request_post', 'metadata']])
TINY = [['one_byte'], ['empty_resource'], ['request_get'], ['arc_empty'], ['arc_dns'], ['dns'], ['arc_header'], ['one_byte', 'empty_resource'], ['nl_only']]


def BOUNDS(tier):
    return dict(archives=len(ARCHIVES), block_sizes='every size 1..len+2, 16384', caps='every cap 1..len+1',
                deviations='1 short read at every position' + (', and 2' if tier == 'thorough' else ', and 2 for tiny archives'),
                inputs='tell / no tell / tell raises / non-zero start')


def units(tier):
    out = []
    for a in ARCHIVES:
        for mode in ('plain', 'gz'):
            out.append(dict(t='block', a=a, mode=mode, step=1))
            out.append(dict(t='dev1', a=a, mode=mode))
            out.append(dict(t='cuts', a=a, mode=mode))
            if tier == 'thorough':
                out.append(dict(t='dev2', a=a, mode=mode, block=64))
    for a in TINY:
        for mode in ('plain', 'gz'):
            out.append(dict(t='dev2', a=a, mode=mode, block=1 << 14))
    for n in menu.big_menu():
        for mode in ('plain', 'gz'):
            out.append(dict(t='big', a=[n, 'response'], mode=mode))
    for n in list(menu.scale_menu()) + list(menu.scale_arc_menu()):
        for mode in ('plain', 'gz'):
            out.append(dict(t='scale', a=[n, 'arc_resp' if n.startswith('arc') else 'response'], mode=mode))
    return out


CONS = ['DG', 'GO', 'R', 'l']


def explore(u, run):
    a, mode = u['a'], u['mode']
    n = len(archive(tuple(a), mode)[1])
    t = u['t']
    if t == 'block':
        for b in list(range(1, n + 3)) + [16384]:
            for con in (CONS if b < 40 or b % 7 == 0 else CONS[:2]):
                run((a, mode, b, [1 << 30], 'tell', con, 0))
            run((a, mode, b, [1 << 30], 'notell', 'DG', 0))
            run((a, mode, 16384, [b], 'tell', 'DG', 0))
            if b < 60:
                run((a, mode, b, [1 << 30], 'oserror', 'DG', 0))
                run((a, mode, b, [1 << 30], 'othererror', 'DG', 0))
                run((a, mode, b, [1 << 30], 'tell', 'DG', 17))
                run((a, mode, 16384, [b], 'notell', 'GO', 0))
                run((a, mode, 16384, [b, 1, b + 1, 2], 'notell', 'R', 0))
    elif t == 'cuts':
        for i in range(1, n):
            for kind, con in (('tell', 'DG'), ('notell', 'R'), ('notell', 'l')):
                run((a, mode, 16384, [i, 1 << 30], kind, con, 0))
            run((a, mode, 16384, [i, 1, 1 << 30], 'tell', 'DG', 0))
    elif t == 'dev1':
        # reads of 64: the k-th read delivers only s bytes
        k = 0
        for k in range(0, n // 64 + 2):
            for s in (1, 2, 3, 13, 31, 62, 63):
                run((a, mode, 64, [64] * k + [s, 64], 'notell', 'DG', 0))
                run((a, mode, 64, [64] * k + [s, 64], 'tell', 'l', 0))
    elif t == 'dev2':
        b = u['block']
        if b == 64:
            for i, j in itertools.combinations(range(n // 64 + 2), 2):
                for s, q in itertools.product((1, 2, 33, 63), repeat=2):
                    sc = [64] * (j + 1) + [64]
                    sc[i], sc[j] = s, q
                    run((a, mode, 64, sc, 'tell', 'DG', 0))
        else:
            for i in range(1, n):
                for j in range(1, n - i, 1 if n < 330 else 3):
                    run((a, mode, b, [i, j, 1 << 30], 'tell', 'DG', 0))
    elif t == 'scale':
        for b in (1000, 8191, 16385, 65536, 1 << 20):
            for con in CONS:
                run((a, mode, b, [1 << 30], 'tell', con, 0))
                run((a, mode, 16384, [b], 'notell', con, 0))
    elif t == 'big':
        for b in ((100,) if a[0] != 'big_zeros' else ()) + (1000, 4096, 8192, 16383, 16384, 16385, 20000, 32768, 65536, 1 << 20):
            for con in CONS:
                run((a, mode, b, [1 << 30], 'tell', con, 0))
                run((a, mode, 16384, [b], 'notell', con, 0))
                run((a, mode, 16384, [16384, b, 16384, 1, 16384], 'notell', con, 3))


@functools.lru_cache(100)
def archive(names, mode):
    ms = {}
    ms.update(menu.warc_menu())
    ms.update(menu.big_menu())
    ms.update(menu.arc_menu())
    ms.update(menu.scale_menu())
    ms.update(menu.scale_arc_menu())
    recs = [ms[n] for n in names]
    data, spans = ref.layout(recs, mode)
    return recs, data, spans


def run_case(case):
    from warcio.archiveiterator import ArchiveIterator
    names, mode, block, script, kind, con, prefix = case
    recs, data, spans = archive(tuple(names), mode)
    fh = Short(b'#' * prefix + data, [prefix] + list(script) if prefix else script, kind)
    base = 0
    if prefix:
        fh.read(prefix)
        base = prefix if kind == 'tell' else 0
    it = ArchiveIterator(fh, block_size=block)
    i = 0
    for record in it:
        require(i < len(recs), 'a record too many: %s', record.rec_headers)
        what = 'record %d (%s): ' % (i, names[i])
        e = menu.check_headers(record, recs[i], (), what)
        if con in ('DG', 'GO'):
            if con == 'DG':
                same(menu.drain(record.content_stream()), e['content'], what + 'content')
            same(it.get_record_length(), spans[i][1], what + 'length')
            same(it.get_record_offset(), base + spans[i][0], what + 'offset')
        elif con == 'R':
            same(menu.drain(record.raw_stream, 7 if len(e['raw']) < 1000 else 5000), e['raw'], what + 'raw stream')
        else:
            lines = []
            while True:
                ln = record.content_stream().readline() if record.content_stream() is record.raw_stream else None
                if ln is None:
                    cs = record.content_stream()
                    while True:
                        ln = cs.readline()
                        if not ln:
                            break
                        lines.append(ln)
                    break
                if not ln:
                    break
                lines.append(ln)
            same(lines, io.BytesIO(e['content']).readlines(), what + 'lines')
        i += 1
    same(i, len(recs), 'number of records')
    same(it.err_count, 0, 'err_count')
    return Out((tuple(names), mode), nontrivial=i > 0)
