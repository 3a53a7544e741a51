"""C09: BufferedReader / DecompressingBufferedReader against an in-memory file
of the decompressed bytes, over all operation sequences up to a depth, block
sizes and ways the raw stream delivers its bytes."""
import functools
import io
import itertools

from mc import ref
from mc.core import Out, require, same
from mc.streams import Short

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('every operation sequence up to the depth on every (content, coding, block size, read splitting) '
        'configuration, compared step by step with io.BytesIO; non-trivial: some bytes were delivered')
ASSUMPTIONS = ['zlib and brotli (the libraries) decode correctly.',
               'Reading on to the next gzip member is only asked for at the end of the current one.']

CONTENTS = [b'', b'a', b'x', b'\n', b'ab\ncd\n\nef', b'a long line of text\r\nand another one\nlast',
            b'\x1f', b'\x1fz', b'\n\n\n', b'zz' * 40 + b'\n' + b'y' * 30,
            ref.text(40000, 3), b'A' * 70000 + b'\n' + b'B' * 3, ref.pat(1300000, 4), b'\0' * 5000000, b'\n' * 150000 + b'C' * 900000]
BIG = (10, 11)
HUGE = (12, 13, 14)
OPS = [('r', None), ('r', -1), ('r', 0), ('r', 1), ('r', 2), ('r', 5), ('r', 100),
       ('l', None), ('l', -1), ('l', 0), ('l', 1), ('l', 3), ('l', 100)]
OPS2 = [('r', None), ('r', 1), ('r', 4), ('l', None), ('l', 2), ('l', 6), ('r', -1)]
BIGOPS = [('r', None), ('r', 1), ('r', 16383), ('r', 16384), ('r', 16385), ('r', 30000),
          ('l', None), ('l', 10), ('l', 16384), ('l', 16390)]
KINDS = ['plain', 'gzip', 'deflate', 'rawdeflate', 'br', 'fakegzip', 'multi', 'multiall']
MULTI = [(4, 5), (4, 0, 5), (0, 4), (4, 0), (0,), (0, 0, 1), (5, 3, 4), (1, 1, 1, 1), (8, 9)]
HMULTI = [(12, 4, 13), (13, 13, 0, 12), (14, 1), tuple([4, 0, 1] * 700)]



def BOUNDS(tier):
    return dict(depth_full_alphabet=4 if tier == 'thorough' else 3, depth_small_alphabet=5 if tier == 'thorough' else 4,
                block_sizes='1,2,3,5,16384', splits='every 2-part split of the raw bytes, every 3-part split up to %d raw bytes' % (
                    70 if tier == 'thorough' else 40), contents=len(CONTENTS), codings=KINDS)


@functools.lru_cache(None)
def raw(kind, ci):
    """(raw bytes, [member contents])"""
    if kind in ('multi', 'multiall'):
        parts = [CONTENTS[i] for i in (MULTI + HMULTI)[ci]]
        return b''.join(ref.gz(p) if i % 2 == 0 else ref.gz(p, 0) for i, p in enumerate(parts)), parts
    c = CONTENTS[ci]
    if kind in ('plain', 'fakegzip'):
        return c, [c]
    return ref.compress(kind, c), [c]


def configs():
    for kind in KINDS:
        for ci in range(len(MULTI) if kind.startswith('multi') else len(CONTENTS)):
            if ci in HUGE and not kind.startswith('multi'):
                continue
            if kind == 'fakegzip' and ci == 6:  # a lone 0x1f may be a cut gzip header
                continue
            yield kind, ci


def is_big(kind, ci):
    return not kind.startswith('multi') and ci in BIG


def units(tier):
    out = []
    for kind, ci in configs():
        if is_big(kind, ci):
            for block in (1 << 14, 5000, 40000):
                out.append(dict(k=kind, c=ci, mode='big', block=block, script=[1 << 30], depth=3 if tier == 'thorough' else 2))
            out.append(dict(k=kind, c=ci, mode='big', block=1 << 14, script=[16384, 1, 16383, 1 << 30], depth=2))
            out.append(dict(k=kind, c=ci, mode='big', block=1 << 14, script=[1, 1 << 30], depth=2))
            continue
        for block in (1, 2, 3, 5, 16384):
            out.append(dict(k=kind, c=ci, mode='full', block=block, script=[1 << 30], depth=4 if tier == 'thorough' else 3))
            out.append(dict(k=kind, c=ci, mode='small', block=block, script=[1 << 30], depth=5 if tier == 'thorough' else 4))
        for script in ([1, 1 << 30], [2, 1 << 30], [1, 1, 1 << 30], [3, 1, 5, 2]):
            out.append(dict(k=kind, c=ci, mode='small', block=16384, script=script, depth=3 if tier == 'thorough' else 2))
        out.append(dict(k=kind, c=ci, mode='splits', three=70 if tier == 'thorough' else 40))
    for kind in KINDS:
        for ci in HUGE if not kind.startswith('multi') else range(len(MULTI), len(MULTI) + len(HMULTI)):
            out.append(dict(k=kind, c=ci, mode='huge'))
    # multi-member files whose members end exactly at block boundaries
    for kind in ('multi', 'multiall'):
        for ci in range(len(MULTI)):
            out.append(dict(k=kind, c=ci, mode='aligned'))
    return out


def explore(u, run):
    k, c = u['k'], u['c']
    if u['mode'] in ('full', 'small', 'big'):
        ops = {'full': OPS, 'small': OPS2, 'big': BIGOPS}[u['mode']]
        if k == 'multi':
            ops = ops + [('N', None)]
        for d in range(1, u['depth'] + 1):
            for seq in itertools.product(ops, repeat=d):
                run((k, c, u['block'], u['script'], list(seq)))
        return
    if u['mode'] == 'huge':
        for block in (16384, 16383, 1 << 20):
            for script in ([1 << 30], [16384, 5, 70000]):
                for seq in ([], [('r', None)], [('l', None), ('r', 100)], [('r', 1 << 20), ('l', 20)], [('l', 1 << 19), ('r', -1)]):
                    run((k, c, block, script, seq))
        return
    data, parts = raw(k, c)
    n = len(data)
    if u['mode'] == 'aligned':
        # every block size from 1 to the length: some align with member ends
        for block in range(1, n + 2):
            for seq in ([], [('r', None)], [('l', None)], [('r', 3), ('l', None)], [('l', None), ('l', None), ('r', 2)]):
                run((k, c, block, [1 << 30], seq))
        return
    seqs = [[], [('r', None)], [('l', None)], [('r', 1)], [('r', 3), ('l', None)], [('l', 2), ('r', None)], [('r', -1)]]
    for i in range(0, n + 1):
        for seq in seqs:
            run((k, c, 16384, [i, 1 << 30] if i else [1 << 30], seq))
    if n <= u['three']:
        for i in range(1, n):
            for j in range(1, n - i):
                run((k, c, 16384, [i, j, 1 << 30], [('r', 2)]))
                run((k, c, 16384, [i, j, 1 << 30], [('l', None)]))


def make(kind, data, block, script):
    from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader
    s = Short(data, script)
    if kind == 'plain':
        return BufferedReader(s, block_size=block)
    if kind in ('gzip', 'fakegzip', 'multi'):
        return DecompressingBufferedReader(s, block_size=block)
    if kind == 'multiall':
        return DecompressingBufferedReader(s, block_size=block, read_all_members=True)
    return BufferedReader(s, block_size=block, decomp_type={'deflate': 'deflate', 'rawdeflate': 'deflate', 'br': 'br'}[kind])


def call(r, op, n):
    if op == 'r':
        return r.read() if n is None else r.read(n)
    return r.readline() if n is None else r.readline(n)


def run_case(case):
    kind, ci, block, script, seq = case
    data, parts = raw(kind, ci)
    r = make(kind, data, block, script)
    members = [b''.join(parts)] if kind == 'multiall' else parts
    mi = 0
    f = io.BytesIO(members[0])
    states = []
    got_all = 0
    for op, n in seq:
        states.append((kind, ci, mi, f.tell(), block))
        if op == 'N':
            rest = r.read()
            same(rest, f.read(), 'rest of member %d before %r' % (mi, seq))
            more = r.read_next_member()
            require(bool(more) == (mi + 1 < len(members)), 'read_next_member at the end of member %s of %s returned %s', mi, len(members), more)
            if more:
                mi += 1
                f = io.BytesIO(members[mi])
            continue
        want = f.read(n) if op == 'r' else f.readline(n)
        got = call(r, op, n)
        same(got, want, '%s(%s) at %d of %d' % ('read' if op == 'r' else 'readline', n, f.tell() - len(want), len(members[mi])))
        got_all += len(got)
        same(r.tell(), sum(len(m) for m in members[:mi]) + f.tell(), 'position')
    # drain by lines, then every further member
    while True:
        want = f.read() if mi % 2 == 0 else f.readline()
        got = r.read() if mi % 2 == 0 else r.readline()
        same(got, want, 'draining member %d' % mi)
        got_all += len(got)
        if not want:
            if kind != 'multi' or mi + 1 >= len(members):
                break
            same(bool(r.read_next_member()), True, 'read_next_member after member %d' % mi)
            mi += 1
            f = io.BytesIO(members[mi])
    states.append((kind, ci, mi, f.tell(), block))
    for op, n in (('r', None), ('r', 1), ('l', None), ('r', -1), ('l', 5)):
        same(call(r, op, n), b'', '%s(%s) at the end' % (op, n))
    if kind == 'multi':
        require(not r.read_next_member(), 'read_next_member after the last member is true')
    return Out(got_all, nontrivial=got_all > 0, states=states, transitions=len(seq) + 1)
