"""C17: every ordered choice of fields x archives x storage, and every way to name inputs
and outputs, through the real command; each line parsed and compared with what is stored."""
import functools
import itertools
import json
import os
import re

from mc import cli, menu, ref
from mc.core import Out, Violation, require, same

ID = 'C17'
LEVEL = 'exploration'
RULE = ('every ordered choice of up to 3 (4) fields x archive x storage; every single field x every record of the menu; '
        'every sequence of up to 3 inputs (files, standard input) x output (file, standard output); non-trivial: at least one line')
ASSUMPTIONS = ['Archives are well-formed.', 'A field requested twice appears once.', 'The record id made up for a converted ARC record is judged by its form only.']
FIELDS = ['offset', 'length', 'filename', 'warc-type', 'warc-target-uri', 'WARC-Date', 'http:status', 'http:content-type', 'content-length', 'x-missing']
EACH = FIELDS + ['Content-Type', 'warc-record-id', 'WARC-Record-ID', 'warc-ip-address', 'WARC-Filename', 'http:Set-Cookie', 'HTTP:Host', 'http:host', 'http:x-missing', 'http:', '',
                 'x-dup', 'X-E', 'http:x-empty', 'http:X-U', 'http:x-l', 'x-custom', 'Offset', 'http:STATUS', 'warc-segment-number', 'warc-refers-to-date', 'warc-profile']
ARCHIVES = [['warcinfo', 'response', 'request_get'], ['revisit_headers', 'revisit_empty', 'resp_nostatus'], ['resource', 'utf8_header', 'resp_latin1'],
            ['arc_header', 'arc_resp', 'arc_dns'], ['arc_header_meta', 'arc_resp_space', 'arc_utf8'], ['dns', 'https_resp', 'metadata'], ['lower_names', 'conversion', 'continuation'],
            ['big_16385', 'big_resp', 'resp_chunked_gzip']]
INPUTS = ['a', 'b', 'sub/c', '-', 'empty', 'default']


def BOUNDS(tier):
    return dict(fields=FIELDS, ordered_choice=4 if tier == 'thorough' else 3, archives=len(ARCHIVES), single_fields=len(EACH), inputs_per_run=3)


def units(tier):
    T = tier == 'thorough'
    out = []
    for a in range(len(ARCHIVES)):
        for f in range(len(FIELDS)):
            out.append(dict(t='fields', a=a, f=f, n=4 if T else 3))
    for n in recs():
        out.append(dict(t='each', n=n))
    for i in INPUTS:
        out.append(dict(t='io', first=i))
    return out


def explore(u, run):
    if u['t'] == 'fields':
        for k in range(u['n']):
            for rest in itertools.permutations([f for f in range(len(FIELDS)) if f != u['f']], k):
                if k == 3 and u['a'] % 3:
                    continue
                for fmt in ('plain', 'gz'):
                    run(('fields', u['a'], fmt, [FIELDS[i] for i in (u['f'],) + rest]))
        run(('fields', u['a'], 'plain', [FIELDS[u['f']], 'offset', FIELDS[u['f']]]))
    elif u['t'] == 'each':
        other = 'arc_resp' if u['n'].startswith('arc') else 'response'
        for f in EACH:
            for fmt in ('plain', 'gz', 'gz0', 'gznamed'):
                run(('each', [u['n'], other], fmt, [f]))
                run(('each', [other, u['n']], fmt, [f, 'length']))
        run(('each', [u['n'], other], 'gz', EACH))
    else:
        if u['first'] == 'default':
            for o in ('stdout', 'file', 'old', '-'):
                for f in (None, ['offset', 'filename', 'length']):
                    for a in range(3):
                        run(('io', [], a, o, f))
            return
        for n in range(3):
            for rest in itertools.product(INPUTS[:-1], repeat=n):
                ins = [u['first']] + list(rest)
                if ins.count('-') > 1:
                    continue
                for o in ('stdout', 'file', 'old', '-'):
                    for f in (None, ['offset', 'filename', 'length']):
                        run(('io', ins, 0, o, f))


@functools.lru_cache(None)
def recs():
    m = dict(menu.warc_menu())
    m.update(menu.big_menu())
    m.update(menu.arc_menu())
    m.update(menu.scale_menu())
    m.update(menu.scale_arc_menu())
    return m


UUID = object()


def first(hs, name):
    for n, v in hs:
        if n.lower() == name.lower():
            return v


def value(r, f, span, fname):
    if f == 'offset':
        return str(span[0])
    if f == 'length':
        return str(span[1])
    if f == 'filename':
        return fname
    if f.startswith('http:'):
        if not r.http:
            return None
        if f == 'http:status':
            return r.http[1].split(' ')[0] if r.rec_type in ('response', 'revisit') else None
        return first(r.http[2], f[5:])
    if r.fmt == 'arc':
        d = r.get('archive-date')
        h = [('WARC-Record-ID', UUID), ('WARC-IP-Address', r.get('ip-address')), ('Content-Length', r.get('length')),
             ('WARC-Date', '%s-%s-%sT%s:%s:%sZ' % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14]))]
        if r.rec_type == 'arc_header':
            h += [('WARC-Type', 'warcinfo'), ('WARC-Filename', r.get('uri')[len('filedesc://'):]), ('Content-Type', r.get('content-type'))]
        else:
            h += [('WARC-Type', 'response'), ('WARC-Target-URI', r.get('uri').replace(' ', '%20')), ('Content-Type', 'application/http;msgtype=response')]
    else:
        h = r.headers
    return first(h, f)


def lines_of(rs, spans, fields, fname):
    out = []
    for r, s in zip(rs, spans):
        line = []
        for f in fields:
            v = value(r, f, s, fname)
            if v is not None and f not in [n for n, _ in line]:
                line.append((f, v))
        out.append((r, line))
    return out


def judge(out, want):
    text = out.decode('utf-8')
    require(text == '' or text.endswith('\n'), 'last line not ended: %s', text[-80:])
    lines = text.split('\n')[:-1]
    same(len(lines), len(want), 'number of lines')
    for i, (ln, (r, w)) in enumerate(zip(lines, want)):
        try:
            got = json.loads(ln, object_pairs_hook=list)
        except ValueError:
            raise Violation('line %d is not JSON: %r' % (i, ln[:200]))
        g = [(n, UUID if re.match(r'<urn:uuid:[0-9a-f-]{36}>\Z', v) and dict(w).get(n) is UUID else v) for n, v in got]
        if r.fmt == 'arc' and r.rec_type == 'arc_header':
            # the length of a converted file header may count the version lines or not
            g = [(n, r.get('length') if n.lower() == 'content-length' and v == str(len(r.block)) else v) for n, v in g]
        same(g, [tuple(x) for x in w], 'line %d (record %s)' % (i, r.name))


DEFAULT = ['offset', 'warc-type', 'warc-target-uri']


def run_case(case):
    if case[0] in ('fields', 'each'):
        _, a, fmt, fields = case
        rs = [recs()[n] for n in (ARCHIVES[a] if case[0] == 'fields' else a)]
        data, spans = ref.layout(rs, fmt)
        with cli.scratch() as d:
            p = os.path.join(d, 'x y.warc.gz')
            with open(p, 'wb') as f:
                f.write(data)
            code, out, err = cli.run(['index', '-f', ','.join(fields), p])
        same(code, 0, 'exit value')
        judge(out, lines_of(rs, spans, fields, 'x y.warc.gz'))
        return Out(str(case[:3]) + ','.join(fields))
    _, ins, k, output, fields = case
    names = {'a': ARCHIVES[0], 'b': ARCHIVES[3], 'sub/c': ARCHIVES[1], '-': ARCHIVES[(2 + k) % 6], 'empty': []}
    fmts = {'a': 'plain', 'b': 'gz', 'sub/c': 'gz', '-': 'gz' if k % 2 == 0 else 'plain', 'empty': 'plain'}
    want = []
    with cli.scratch() as d:
        os.mkdir(os.path.join(d, 'sub'))
        stdin = b''
        args = []
        for i in ins or ['-']:
            rs = [recs()[n] for n in names[i]]
            data, spans = ref.layout(rs, fmts[i])
            want += lines_of(rs, spans, fields or DEFAULT, os.path.basename(i))
            if i == '-':
                stdin = data
                if ins:
                    args.append('-')
            else:
                with open(os.path.join(d, i), 'wb') as f:
                    f.write(data)
                args.append(os.path.join(d, i))
        dst = os.path.join(d, 'out.txt')
        if output == 'old':
            with open(dst, 'w') as f:
                f.write('old contents\n' * 500)
        opts = []
        if fields:
            opts += ['--fields', ','.join(fields)]
        if output in ('file', 'old'):
            opts += ['-o', dst]
        elif output == '-':
            opts += ['-o', '-']
        code, out, err = cli.run(['index'] + opts + args, stdin)
        same(code, 0, 'exit value')
        if output in ('file', 'old'):
            same(out, b'', 'standard output')
            with open(dst, 'rb') as f:
                out = f.read()
        judge(out, want)
    return Out((tuple(ins), k, output, str(fields)), nontrivial=bool(want))
