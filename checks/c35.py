"""C35: the commands with file names, record texts and encodings of standard output of every sort."""
import io
import json
import os
import re
import sys

from mc import cli, ref
from mc.core import Out, require, same

ID = 'C35'
LEVEL = 'exploration'
RULE = 'every command x name of the input x name of the output x encoding of standard output x archive; non-trivial: the name, the archive or both hold characters other than ASCII letters'
ASSUMPTIONS = ['Names the file system layer (fsspec) takes for addresses or home directories (with ://, :: or ~ in front) are left out.',
               'How characters are shown which the encoding of the output lacks is not prescribed, only that the rest is shown.']
PLAIN = 'plain.warc'
NAMES = [PLAIN, 'caf\xe9.warc.gz', '\u4e2d\u6587.warc', 'a b.warc', 'a\nb.warc', 'bad\udcff.warc', '\udce9\udc80', '\U0001f600.gz', "q'uo\"te", '100%s', '{0}', '{', 'back\\slash', '#h?x=y', 'a*b[c]', '-', '-v', '--help', '.hidden', 'x:y',
         'e\u0301', 'http:x', 'tab\there', '\x1b[31m', '\x7f', 'a,b', '$HOME', 'n' * 200, ' lead', 'trail ', '\u2028', '%41', 'CON', '@file', '=x', '[', '(', '!', '*', '?', '[a-m]*']
DECOYS = ['axbc', 'l', 'lead', 'trail', 'x', 'y', 'q', 'HOME', 'file']      # other files beside the input, some fit a name taken for a pattern
ENCODINGS = ['utf-8', 'ascii', 'latin-1', 'cp1252', 'cp437', 'shift_jis', 'utf-16', 'utf-8-sig']
TEXTS = ['', 'caf\xe9', '\u4e2d\u6587', '\U0001f600', '\x85', '\u2028', '%s{0}\\x', '\x1b[0m']
ARCHIVES = ['good', 'textid', 'badgz', 'cut', 'baddigest', 'onegz', 'junk', 'texterror']
CMDS = ['index', 'index-o', 'index-name', 'check', 'check-v', 'recompress', 'recompress-v', 'extract', 'extract-headers', 'missing-recompress', 'missing-check', 'missing-index']


def BOUNDS(tier):
    return dict(names=len(NAMES), encodings=ENCODINGS, texts=len(TEXTS), archives=ARCHIVES, commands=CMDS)


def units(tier):
    return [dict(c=c, a=a) for c in CMDS for a in ARCHIVES]


def explore(u, run):
    for enc in ENCODINGS:
        for n in range(len(NAMES)):
            run((u['c'], u['a'], n, 0, 1, enc))
            if u['c'] in ('index-o', 'recompress', 'recompress-v'):
                run((u['c'], u['a'], 0, n, 1, enc))
                run((u['c'], u['a'], n, n, 2, enc))
        for t in range(len(TEXTS)):
            run((u['c'], u['a'], 0, 0, t, enc))
            run((u['c'], u['a'], 5, 0, t, enc))


def archive(kind, t):
    text = TEXTS[t]
    first = ref.w_response(b'one', 1, uri='http://e/' + text)
    first.headers[1] = ('WARC-Record-ID', '<urn:%s>' % text)
    first.headers.append(('WARC-Payload-Digest', ref.sha1_32(b'one')))
    if kind == 'baddigest':
        first.headers[-1] = ('WARC-Payload-Digest', 'sha1:' + (text or 'A'))
    second = ref.warc('resource', 'http://e/2', b'two', uid=2)
    data, spans = ref.layout([first, second], 'gz' if kind in ('badgz', 'cut') else 'onegz' if kind == 'onegz' else 'plain')
    if kind == 'badgz':
        data = data[:spans[1][0] + 30] + b'\xff' * 30
    elif kind == 'cut':
        data = data[:-20]
    elif kind == 'junk':
        data = ('%s is no archive\r\n' % text).encode() * 9
    elif kind == 'texterror':
        data += ('%s is no record\r\n' % text).encode() * 9
    return data


class Std(io.TextIOWrapper):
    def __init__(self, enc):
        self.raw_bytes = io.BytesIO()
        super().__init__(self.raw_bytes, encoding=enc, newline='')


def execute(c, d, src, dst, enc):
    """(exit status or exception, output text, error text)"""
    from warcio.cli import main
    a = {'index': ['index', src], 'index-o': ['index', '-o', dst, src], 'index-name': ['index', '-f', 'filename,offset,warc-record-id,warc-target-uri', src], 'check': ['check', src],
         'check-v': ['check', '-v', src], 'recompress': ['recompress', src, dst], 'recompress-v': ['recompress', '-v', src, dst], 'extract': ['extract', src, '0'],
         'extract-headers': ['extract', '--headers', src, '0']}.get(c) or ([c[8:], src + '.no'] + ([dst] if c.endswith('recompress') else []))
    out, err = Std(enc), Std('utf-8')
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    sys.stdout, sys.stderr, sys.stdin = out, err, cli._In(b'')
    try:
        code = main(a) or 0
        out.flush()
    except SystemExit as e:
        code = e.code or 0
        out.flush()
    except Exception as e:
        code = type(e).__name__
        out.flush()
    finally:
        sys.stdout, sys.stderr, sys.stdin = so, se, si
    return code, out.raw_bytes.getvalue()


_base = {}


def result(c, arch, n, m, t, enc):
    data = archive(arch, t)
    with cli.scratch() as d:
        os.mkdir(d + '/i')
        os.mkdir(d + '/o')
        src, dst = d + '/i/' + NAMES[n], d + '/o/' + NAMES[m]
        for x in DECOYS:
            with open(d + '/i/' + x, 'wb') as fh:
                fh.write(b'decoy')
        with open(src, 'wb') as fh:
            fh.write(data)
        code, out = execute(c, d, src, dst, enc)
        with open(src, 'rb') as fh:
            same(fh.read(), data, 'the input afterwards')
        same(sorted(os.listdir(d + '/i')), sorted(DECOYS + [NAMES[n]]), 'names beside the input')
        files = os.listdir(d + '/o')
        require(set(files) <= {NAMES[m]}, 'files written: %s', files)
        made = None
        if files:
            with open(dst, 'rb') as fh:
                made = fh.read()
    return code, out, made, src, dst


def expected(text, enc):
    """matches text in which characters the encoding lacks are shown in any way"""
    rx = ''
    for ch in text:
        try:
            ch.encode(enc)
            rx += re.escape(ch)
        except UnicodeError:
            rx += '.{1,12}?'
    return rx


def run_case(case):
    c, arch, n, m, t, enc = case
    code, out, made, src, dst = result(c, arch, n, m, t, enc)
    k = (c, arch, t)
    if k not in _base:
        if len(_base) > 300:
            _base.clear()
        _base[k] = result(c, arch, 0, 0, t, 'utf-8')
    bcode, bout, bmade, bsrc, bdst = _base[k]
    if t and TEXTS[t].isprintable() and TEXTS[t].isidentifier() | (t == 3):
        # what messages quote of the archive is quoted as it is
        if arch in ('junk', 'texterror') and c in ('check', 'check-v', 'recompress-v') or arch == 'baddigest' and c == 'check' or c == 'check-v' and arch != 'onegz':
            require(TEXTS[t] in bout.decode('utf-8'), '%r is not shown in %r', TEXTS[t], bout)
    same(code, bcode, 'exit')
    same(made, bmade, 'the file written')
    if c.startswith('extract'):
        same(out, bout, 'output')
        text = ''
    else:
        text = bout.decode('utf-8')
        if c == 'index-name':
            got = [json.loads(x) for x in out.decode(enc).splitlines()]
            want = [json.loads(x) for x in text.splitlines()]
            for w in want:
                same(w['filename'], PLAIN, 'name')
                w['filename'] = NAMES[n]
            same(got, want, 'index')
        else:
            text = text.replace(bsrc, src).replace(bdst, dst)
            shown = out.decode(enc)
            require(re.fullmatch(expected(text, enc), shown, re.S), 'output %r, expected %r', shown, text)
    return Out((c, arch, str(code), enc, len(text)), nontrivial=bool(n or m or t))

