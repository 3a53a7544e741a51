"""C12: header collections as an ordered case-insensitive map: every reachable header
list up to a length, every operation from every one of them through every API, plus
operation sequences on one object."""
import itertools

from mc.core import Out, Violation, require, same

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('every header list over 5 name spellings and 3 values up to the length bound (the reachable states of the map), and from each every '
        'operation through every API; plus all operation sequences up to the depth on one object; non-trivial: the list is not empty')
ASSUMPTIONS = ['Removing a header that occurs several times removes exactly one of its occurrences.']
NAMES = ['X-A', 'x-a', 'X-B', 'x-b', 'Content-Length']
VALUES = ['1', '22', '']
LOOKUPS = ['X-A', 'x-a', 'X-a', 'X-B', 'X-b', 'content-length', 'CONTENT-LENGTH', 'X-C', '']
SEQ_OPS = ([('set', n, '9') for n in ('X-A', 'x-a', 'X-B')] + [('[]=', n, '8') for n in ('x-A', 'X-b')] +
           [('add', 'X-A', '7'), ('add', 'x-b', '6'), ('rm', 'X-a', None), ('del', 'x-A', None), ('rm', 'X-C', None),
            ('range', None, None), ('get', 'x-a', None), ('buf', None, None), ('ascii', None, None)])
INITS = [[], [('X-A', '1')], [('x-a', '1'), ('X-B', '2'), ('X-A', '3')], [('Content-Length', '5'), ('content-length', '6'), ('X-b', '')],
         [('X-B', '1'), ('x-a', '\xe9'), ('X-A', '3'), ('X-B', '2')]]
RANGE = [('Content-Range', 'bytes 3-6/50'), ('Content-Length', '4'), ('Accept-Ranges', 'bytes')]


def BOUNDS(tier):
    return dict(list_length=5 if tier == 'thorough' else 4, names=NAMES, values=VALUES, sequence_depth=4 if tier == 'thorough' else 3)


def units(tier):
    n = 5 if tier == 'thorough' else 4
    ents = list(itertools.product(NAMES, VALUES))
    out = [dict(t='lists', first=None, n=0)]
    for e in ents:
        for m in range(1, n + 1):
            out.append(dict(t='lists', first=list(e), n=m))
    for i in range(len(INITS)):
        for op in SEQ_OPS:
            out.append(dict(t='seq', init=i, first=list(op), depth=4 if tier == 'thorough' else 3))
    return out


def explore(u, run):
    if u['t'] == 'lists':
        if u['n'] == 0:
            run(('state', []))
            return
        for rest in itertools.product(itertools.product(NAMES, VALUES), repeat=u['n'] - 1):
            run(('state', [tuple(u['first'])] + [tuple(e) for e in rest]))
    else:
        for d in range(u['depth']):
            for rest in itertools.product(SEQ_OPS, repeat=d):
                run(('seq', u['init'], [tuple(u['first'])] + list(rest)))


def m_get(lst, name, default=None):
    for n, v in lst:
        if n.lower() == name.lower():
            return v
    return default


def m_set(lst, name, value):
    lst = list(lst)
    for i, (n, v) in enumerate(lst):
        if n.lower() == name.lower():
            lst[i] = (n, value)
            return lst, v
    return lst + [(name, value)], None


def m_remove(lst, name):
    """the acceptable results"""
    idx = [i for i, (n, v) in enumerate(lst) if n.lower() == name.lower()]
    return [lst[:i] + lst[i + 1:] for i in idx] or [list(lst)], bool(idx)


def mk(lst):
    from warcio.statusandheaders import StatusAndHeaders
    return StatusAndHeaders('200 OK', list(lst), protocol='HTTP/1.1')


def hl(h):
    return [tuple(x) for x in h.headers]


def check_lookups(h, lst):
    k = 0
    for name in LOOKUPS:
        want = m_get(lst, name)
        same(h.get_header(name), want, 'get_header(%r)' % name)
        same(h.get(name), want, 'get(%r)' % name)
        same(h[name], want, '[%r]' % name)
        same(h.get_header(name, 'dflt'), m_get(lst, name, 'dflt'), 'get_header(%r, default)' % name)
        same(h.get(name, 'dflt'), m_get(lst, name, 'dflt'), 'get(%r, default)' % name)
        same(name in h, want is not None, '%r in' % name)
        k += 6
    same(hl(h), lst, 'list after lookups')
    same(h.statusline, '200 OK', 'statusline')
    return k


def case_state(lst):
    from warcio.statusandheaders import StatusAndHeaders
    trans = 0
    trans += check_lookups(mk(lst), lst)
    for name in ('X-A', 'x-a', 'X-a', 'X-b', 'CONTENT-length', 'New'):
        for value in ('1', 'zz', ''):
            want, old = m_set(lst, name, value)
            h = mk(lst)
            same(h.replace_header(name, value), old, 'value returned by replace_header(%r, %r)' % (name, value))
            same(hl(h), want, 'after replace_header(%r, %r)' % (name, value))
            same(h.get_header(name), value, 'lookup after replace_header(%r)' % name)
            check = h[name.swapcase()]
            same(check, value, 'lookup in another case after replace_header(%r)' % name)
            h = mk(lst)
            h[name] = value
            same(hl(h), want, 'after [%r] = %r' % (name, value))
            same(h[name], value, 'lookup after [%r] =' % name)
            h = mk(lst)
            h.add_header(name, value)
            same(hl(h), lst + [(name, value)], 'after add_header(%r, %r)' % (name, value))
            trans += 3
        ok, removed = m_remove(lst, name)
        h = mk(lst)
        got = h.remove_header(name)
        same(bool(got), removed, 'result of remove_header(%r)' % name)
        require(hl(h) in ok, 'after remove_header(%r): %s', name, hl(h))
        left = hl(h)
        h2 = mk(lst)
        del h2[name]
        same(hl(h2), left, 'after del [%r]' % name)
        # removing until gone leaves exactly the others
        k = 0
        while h.remove_header(name.swapcase()):
            k += 1
            require(k <= len(lst), 'remove_header never ends')
        same(hl(h), [(n, v) for n, v in lst if n.lower() != name.lower()], 'after removing every %r' % name)
        require(name not in h, '%r still in after removal', name)
        trans += 3
    # the same list given as tuples of bytes, and as a mapping
    hb = StatusAndHeaders('200 OK', [(n.encode('latin-1'), v.encode('latin-1')) for n, v in lst], protocol='HTTP/1.1')
    same(hl(hb), lst, 'headers given as bytes')
    require(hb == mk(lst) and not (hb != mk(lst)), 'equal lists are not equal')
    d = dict(lst)
    same(hl(StatusAndHeaders('200 OK', d, protocol='HTTP/1.1')), list(d.items()), 'headers given as a dict')
    for i in range(len(lst)):
        other = lst[:i] + [(lst[i][0], lst[i][1] + '!')] + lst[i + 1:]
        require(mk(other) != mk(lst), 'different values compare equal')
    return trans + 3


def case_seq(init, seq):
    h = mk(INITS[init])
    lst = list(INITS[init])
    states = []
    for op, name, value in seq:
        states.append(('seq', tuple(lst)))
        if op == 'set':
            want, old = m_set(lst, name, value)
            same(h.replace_header(name, value), old, 'value returned by replace_header')
            lst = want
        elif op == '[]=':
            lst, _ = m_set(lst, name, value)
            h[name] = value
        elif op == 'add':
            lst = lst + [(name, value)]
            h.add_header(name, value)
        elif op in ('rm', 'del'):
            ok, removed = m_remove(lst, name)
            if op == 'rm':
                same(bool(h.remove_header(name)), removed, 'remove_header')
            else:
                del h[name]
            require(hl(h) in ok, 'after removing %r: %s', name, hl(h))
            lst = hl(h)
        elif op == 'range':
            h.add_range(3, 4, 50)
            for n, v in RANGE:
                lst, _ = m_set(lst, n, v)
            same(h.statusline, '206 Partial Content', 'status after add_range')
            h.statusline = '200 OK'
        elif op == 'get':
            same(h.get_header(name), m_get(lst, name), 'get_header')
        elif op == 'buf':
            h.to_str()
            h.to_bytes()
            str(h)
            repr(h)
        elif op == 'ascii':
            if all(ord(c) < 128 for n, v in lst for c in v):
                h.compute_headers_buffer()
        same(hl(h), lst, 'after %s(%r, %r)' % (op, name, value))
    check_lookups(h, lst)
    states.append(('seq', tuple(lst)))
    return states


def run_case(case):
    if case[0] == 'state':
        lst = [tuple(x) for x in case[1]]
        t = case_state(lst)
        return Out(tuple(lst), nontrivial=bool(lst), states=[('list', tuple(lst))], transitions=t)
    st = case_seq(case[1], case[2])
    return Out(tuple(st[-1]), states=st, transitions=len(case[2]))
