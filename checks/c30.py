"""C30: every status line up to a length, every small range over every header list, all
pairs of small header blocks, all forms of giving headers."""
import itertools
from collections import OrderedDict

from mc.core import Out, require, same

ID = 'C30'
LEVEL = 'exploration'
RULE = ('all status lines over the alphabet up to the length bound x replacement; all ranges of the menu x header lists; all pairs of blocks of the menu compared; all forms of '
        'header arguments; non-trivial: every case')
ASSUMPTIONS = ['Whether a code with a sign, an underscore or non-ASCII digits counts as a number is not judged, only that it is then kept or replaced as reported.']
ALPHA = '20 -aH/.'
ODD = '+_\u0663\t'
NEW = ['200 OK', '', '404 Not Found', 'x']
RANGES = [(0, 1, 1), (0, 0, 0), (0, 10, 10), (0, 10, 100), (5, 1, 6), (99, 1, 100), (5, 0, 10), (1 << 31, 1 << 31, 1 << 33), (1, 2, 3), (10 ** 20, 1, 10 ** 20 + 1)]
HLISTS = [[], [('A', 'b')], [('Content-Range', 'x')], [('content-length', '5'), ('A', 'b')], [('A', 'b'), ('CONTENT-RANGE', 'x'), ('accept-ranges', 'none'), ('Content-Length', '7'), ('Z', 'z')],
          [('Content-Length', '1'), ('X', 'y'), ('Content-Length', '2')], [('Accept-Ranges', 'a'), ('accept-ranges', 'b')], [('Content-Lengthy', '1'), ('X-Content-Length', '2'), ('Range', 'r')]]
PROTOS = ['', 'HTTP/1.0', 'HTTP/1.1', 'GET']
STATUSES = ['', '200 OK', '200 ok', '200', '/ HTTP/1.1']
BLOCKS = [[], [('A', 'b')], [('a', 'b')], [('A', 'B')], [('A', 'b'), ('C', 'd')], [('C', 'd'), ('A', 'b')], [('A', 'b'), ('A', 'b')], [('A', '')], [('', 'A')]]


def BOUNDS(tier):
    return dict(alphabet=ALPHA, odd=ODD, status_length=6 if tier == 'thorough' else 5, ranges=len(RANGES), header_lists=len(HLISTS), blocks=len(PROTOS) * len(STATUSES) * len(BLOCKS))


def units(tier):
    n = 6 if tier == 'thorough' else 5
    out = [dict(t='status', pre=a + b, n=n) for a in ALPHA for b in ALPHA]
    out += [dict(t='short'), dict(t='range'), dict(t='forms')]
    for p in range(len(PROTOS)):
        for s in range(len(STATUSES)):
            out.append(dict(t='pairs', p=p, s=s))
    return out


def explore(u, run):
    t = u['t']
    if t == 'status':
        for k in range(u['n'] - 1):
            for rest in itertools.product(ALPHA, repeat=k):
                run(('status', u['pre'] + ''.join(rest)))
    elif t == 'short':
        for s in [''] + list(ALPHA + ODD):
            run(('status', s))
        for k in (2, 3):
            for s in itertools.product(ODD + '20 ', repeat=k):
                run(('status', ''.join(s)))
        for n in list(range(0, 1000)) + [10 ** 9, 10 ** 30]:
            for suffix in ('', ' ', ' OK', ' 0', '  two words ', '\u4e2d', 'x'):
                run(('status', '%d%s' % (n, suffix)))
                run(('status', '%03d%s' % (n, suffix)))
                run(('status', '-%d%s' % (n, suffix)))
    elif t == 'range':
        for r in range(len(RANGES)):
            for h in range(len(HLISTS)):
                for s in range(len(STATUSES)):
                    run(('range', r, h, s))
        for a in range(6):
            for b in range(6):
                for c in range(8):
                    run(('range', (a, b, c), 4, 1))
    elif t == 'forms':
        for h in range(len(HLISTS)):
            for form in FORMS:
                for s in range(len(STATUSES)):
                    run(('form', h, form, s))
        for v in ('GET', 'POST', 'x', ''):
            for rest in ('/ HTTP/1.1', '/a b HTTP/1.0', '', ' ', '/'):
                run(('request', v, rest))
    else:
        for b in range(len(BLOCKS)):
            for p2 in range(len(PROTOS)):
                for s2 in range(len(STATUSES)):
                    for b2 in range(len(BLOCKS)):
                        run(('pair', u['p'], u['s'], b, p2, s2, b2))


FORMS = {'list': list, 'tuple': tuple, 'lists': lambda h: [list(x) for x in h], 'dict': OrderedDict, 'items': lambda h: OrderedDict(h).items(), 'iter': iter,
         'bytes': lambda h: [(n.encode(), v.encode()) for n, v in h], 'mixed': lambda h: [(n.encode() if i % 2 else n, v if i % 2 else v.encode()) for i, (n, v) in enumerate(h)],
         'bdict': lambda h: OrderedDict((n.encode(), v.encode()) for n, v in h), 'latin': lambda h: [(n, (v + '\xe9\xff').encode('latin-1')) for n, v in h]}


def run_case(c):
    from warcio.statusandheaders import StatusAndHeaders
    t = c[0]
    if t == 'status':
        s = c[1]
        first = s.split(' ')[0]
        res = None
        for new in NEW:
            hs = [('A', 'b'), ('a', 'c')]
            h = StatusAndHeaders(s, hs, protocol='HTTP/1.1')
            same(h.get_statuscode(), first, 'status code')
            same((h.statusline, h.protocol, h.headers), (s, 'HTTP/1.1', hs), 'block after asking for the status code')
            res = h.validate_statusline(new)
            require(res is True or res is False, 'validate_statusline gave %s', res)
            same(h.statusline, s if res else new, 'status line, validate_statusline having given %s' % res)
            same((h.protocol, h.headers), ('HTTP/1.1', hs), 'protocol and headers')
            if first.isascii() and first.isdigit():
                same(res, int(first) > 0, 'validate_statusline of %r' % s)
            elif not any(x in first for x in ODD):
                same(res, False, 'validate_statusline of %r' % s)
        return Out((s, res), transitions=2 * len(NEW))
    if t == 'range':
        start, part, total = RANGES[c[1]] if isinstance(c[1], int) else c[1]
        hs = list(HLISTS[c[2]])
        h = StatusAndHeaders(STATUSES[c[3]], list(hs), protocol='HTTP/1.1')
        got = h.add_range(start, part, total)
        require(got is h, 'add_range gave %s', got)
        same((h.protocol, h.statusline), ('HTTP/1.1', '206 Partial Content'), 'status of a partial response')
        for name, value in (('Content-Range', 'bytes %d-%d/%d' % (start, start + part - 1, total)), ('Content-Length', str(part)), ('Accept-Ranges', 'bytes')):
            for i, (n, v) in enumerate(hs):
                if n.lower() == name.lower():
                    hs[i] = (n, value)
                    break
            else:
                hs.append((name, value))
        same(sorted(h.headers), sorted(hs), 'headers of a partial response')
        same(h.headers[:len(HLISTS[c[2]])], hs[:len(HLISTS[c[2]])], 'headers there before')
        return Out(c)
    if t == 'form':
        src = HLISTS[c[1]]
        want = list(OrderedDict(src).items()) if 'dict' in c[2] or c[2] == 'items' else list(src)
        if c[2] == 'latin':
            want = [(n, v + '\xe9\xff') for n, v in want]
        arg = FORMS[c[2]](src)
        h = StatusAndHeaders(STATUSES[c[3]], arg, protocol='P')
        same([tuple(x) for x in h.headers], want, 'headers given as %s' % c[2])
        require(all(type(y) is str for x in h.headers for y in x), 'not text: %s', h.headers)
        if isinstance(arg, (list, dict)):
            same(arg, FORMS[c[2]](src), 'the argument')
            h.add_header('New', 'x')
            h.replace_header('A', 'changed')
            same(arg, FORMS[c[2]](src), 'the argument after changing the block')
        return Out(c)
    if t == 'request':
        h = StatusAndHeaders(c[1] + ' ' + c[2], [('A', 'b')], is_http_request=True)
        same((h.protocol, h.statusline, h.headers), (c[1], c[2], [('A', 'b')]), 'request line')
        return Out(c)
    _, p, s, b, p2, s2, b2 = c
    x = StatusAndHeaders(STATUSES[s], list(BLOCKS[b]), protocol=PROTOS[p])
    y = StatusAndHeaders(STATUSES[s2], list(BLOCKS[b2]), protocol=PROTOS[p2], total_len=17)
    want = (PROTOS[p], STATUSES[s], BLOCKS[b]) == (PROTOS[p2], STATUSES[s2], BLOCKS[b2])
    same((x == y, x != y, y == x, y != x), (want, not want, want, not want), 'comparing %r and %r' % (x, y))
    same(bool(x), bool(STATUSES[s] or BLOCKS[b]), 'truth')
    for other in (None, 5, str(x), x.headers, object()):
        same((x == other, x != other), (False, True), 'comparing with %r' % (other,))
    y.compute_headers_buffer()
    same(x == y, want, 'comparing after serialising')
    same(str(y), y.to_str(), 'text')
    return Out(c)
