"""C08: LimitReader against a reference state machine (position, remaining):
every operation sequence up to a depth, over every small underlying stream."""
import io
import itertools

from mc import ref
from mc.core import Out, require, same
from mc.streams import Unseekable

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth, for every underlying content x limit x kind of '
        'underlying stream; non-trivial: at least one operation delivered bytes or was limited')
ASSUMPTIONS = ['The underlying stream obeys the file protocol; negative sizes mean "all that is left", as for files.']

DATAS = [b'', b'a', b'\n', b'ab\ncd\n\nef', b'abcdefgh', b'\n\nx\r\ny', b'a\nb\nc\nd\n', b'12345\n7890']
HUGE = [ref.pat(1500000, 3), b'\n' * 100000 + b'x' * 700000 + b'\n']
OPS = [('r', None), ('r', -1), ('r', -5), ('r', 0), ('r', 1), ('r', 2), ('r', 5), ('r', 99),
       ('l', None), ('l', -1), ('l', 0), ('l', 1), ('l', 3), ('l', 99)]
HOPS = [('r', None), ('r', -1), ('r', 1), ('r', 16384), ('r', 1 << 20), ('r', 1 << 40), ('l', None), ('l', 131073), ('l', 1 << 40)]
WRAPS = [('w', 0), ('w', 1), ('w', 4), ('w', 50), ('w', '2'), ('w', None), ('w', 'x'), ('w', -1), ('w', '-3'), ('w', ''),
         ('w', '1.5'), ('w', [])]


def BOUNDS(tier):
    return dict(depth_all_kinds=3, depth_bytesio=4 if tier == 'thorough' else 3, depth_with_wraps=3,
                limits='0,1,2,3,5,len-1,len,len+3', datas=len(DATAS), ops=len(OPS), wraps=len(WRAPS))


def units(tier):
    out = []
    for di in range(len(DATAS)):
        n = len(DATAS[di])
        for limit in sorted({0, 1, 2, 3, 5, max(0, n - 1), n, n + 3}):
            for kind in ('bytesio', 'one', 'two', 'buffered', 'ctor'):
                depth = 3
                if tier == 'thorough' and kind in ('bytesio', 'buffered'):
                    depth = 4
                if tier != 'thorough' and kind in ('two', 'ctor'):
                    depth = 2
                out.append(dict(d=di, limit=limit, kind=kind, depth=depth, wraps=False))
            out.append(dict(d=di, limit=limit, kind='bytesio', depth=3 if tier == 'thorough' else 2, wraps=True))
    for di in range(len(DATAS)):
        out.append(dict(d=di, limit=None, kind='leave', depth=0, wraps=True))
    for di in range(len(HUGE)):
        for limit in (0, 16384, 131072, 999999, 1500000, 1 << 31, (1 << 63) - 1):
            out.append(dict(d=len(DATAS) + di, limit=limit, kind='huge', depth=2, wraps=False))
    for di in (0, 3, 6):
        for limit in (1 << 31, (1 << 32) + 2, (1 << 63) - 1):
            out.append(dict(d=di, limit=limit, kind='bytesio', depth=2, wraps=True))
    return out


def explore(u, run):
    if u['kind'] == 'huge':
        for depth in range(1, u['depth'] + 1):
            for seq in itertools.product(HOPS, repeat=depth):
                for kind in ('bytesio', 'buf', 'sevenk'):
                    run((u['d'], u['limit'], kind, list(seq)))
                    for w in (70000, 1 << 40):
                        run((u['d'], u['limit'], kind, [('w', w)] + list(seq)))
        return
    if u['kind'] == 'leave':
        for w in [None, 'x', -1, '-3', '', '1.5', [], {}, b'q', float('nan')]:
            run((u['d'], None, 'leave', [('w', w)]))
        return
    for depth in range(0, u['depth'] + 1):
        if u['wraps']:
            # one wrap anywhere among the operations (and one more at the end)
            for seq in itertools.product(OPS, repeat=depth):
                for at in range(depth + 1):
                    for w in WRAPS:
                        run((u['d'], u['limit'], u['kind'], list(seq[:at]) + [w] + list(seq[at:])))
        else:
            for seq in itertools.product(OPS, repeat=depth):
                run((u['d'], u['limit'], u['kind'], list(seq)))


class Count(object):
    """counts what is taken from the underlying stream"""

    def __init__(self, fh):
        self.fh = fh
        self.taken = 0

    def read(self, *a):
        b = self.fh.read(*a)
        self.taken += len(b)
        return b

    def readline(self, *a):
        b = self.fh.readline(*a)
        self.taken += len(b)
        return b


def valid_limit(w):
    try:
        n = int(w)
    except (ValueError, TypeError):
        return None
    return n if n >= 0 else None


def run_case(case):
    from warcio.limitreader import LimitReader
    from warcio.bufferedreaders import BufferedReader
    di, limit, kind, seq = case
    data = (DATAS + HUGE)[di]
    if kind == 'leave':
        s = io.BytesIO(data)
        w = seq[0][1]
        require(LimitReader.wrap_stream(s, w) is s, 'wrap_stream with limit %r altered the stream', w)
        lr = LimitReader(io.BytesIO(data), 3)
        require(LimitReader.wrap_stream(lr, w) is lr, 'wrap_stream with limit %r altered a limited stream', w)
        same(lr.read(), data[:3], 'content after wrap_stream(limited, %r)' % (w,))
        return Out(('leave', repr(w)), nontrivial=True, states=[(di, 'leave', repr(w))], transitions=1)
    exact = kind in ('bytesio', 'ctor', 'buffered')
    if kind in ('bytesio', 'ctor'):
        src = io.BytesIO(data)
    elif kind == 'one':
        src = Unseekable(data, 1)
    elif kind == 'two':
        src = Unseekable(data, 2)
    elif kind == 'sevenk':
        src = Unseekable(data, 7001)
    elif kind == 'buf':
        src = BufferedReader(io.BytesIO(data))
    else:
        src = BufferedReader(io.BytesIO(data), block_size=2)
    under = Count(src)
    if kind == 'ctor':
        lr = LimitReader(under, limit)
    else:
        lr = LimitReader.wrap_stream(under, limit)
    require(isinstance(lr, LimitReader), 'a non-negative limit did not limit the stream')
    pos = 0
    remaining = limit          # bytes the limit still allows
    delivered = b''
    states = []
    for op, n in seq:
        states.append((di, kind, limit, pos, remaining))
        if op == 'w':
            new = LimitReader.wrap_stream(lr, n)
            v = valid_limit(n)
            if v is not None:
                remaining = min(remaining, v)
            lr = new
        else:
            avail = data[pos:pos + remaining]
            size = len(avail) if (n is None or n < 0) else min(n, len(avail))
            if op == 'r':
                want = avail[:size]
                got = lr.read() if n is None else lr.read(n)
            else:
                i = avail.find(b'\n')
                want = avail[:(i + 1 if i >= 0 else len(avail))][:size]
                got = lr.readline() if n is None else lr.readline(n)
            what = '%s(%s) at position %d, %d left' % ('read' if op == 'r' else 'readline', n, pos, len(avail))
            if exact or op == 'l':
                same(got, want, what)
            else:
                require(want.startswith(got) and (bool(got) or not want), what + ': got %r, expected a non-empty prefix of %r', got, want)
            pos += len(got)
            remaining -= len(got)
            delivered += got
        same(lr.tell(), pos, 'tell() after %s(%s)' % (op, n))
        if kind != 'buffered':
            require(under.taken == pos, 'took %s bytes from the underlying stream but delivered %s', under.taken, pos)
        require(under.taken <= limit, 'took bytes beyond the limit: %s > %s', under.taken, limit)
    # drain: everything within the limit and not a byte more is still there
    rest = b''
    while True:
        b = lr.read(3 if len(data) < 1000 else 50001)
        if not b:
            break
        rest += b
    same(rest, data[pos:pos + remaining], 'rest after %r' % (seq,))
    same(lr.tell(), pos + len(rest), 'tell() after draining')
    left = under.read()
    if kind in ('one', 'two', 'sevenk'):
        left = b''.join([left] + list(iter(under.read, b'')))
    same(left, data[pos + len(rest):], 'bytes left in the underlying stream')
    states.append((di, kind, limit, pos + len(rest), remaining - len(rest)))
    return Out((delivered, rest) if len(data) < 1000 else (len(delivered), len(rest)), nontrivial=bool(delivered or rest or remaining == 0), states=states, transitions=len(seq) + 1)
