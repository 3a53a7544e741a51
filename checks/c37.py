"""C37: the commands with inputs and outputs named by addresses fsspec opens, compared with
the same command on local files."""
import base64
import io
import json
import os
import sys
import zipfile

from mc import cli, ref
from mc.core import Out, Violation, require, same

ID = 'C37'
LEVEL = 'exploration'
RULE = ('every command x archive x form of address of the input x form of address of the output; every pair of addresses of one file, or of two, for recompress; every place a remote file may fail; '
        'non-trivial: an address is not a plain path')
ASSUMPTIONS = ['Of the file systems of fsspec, those that work without network are used: memory, local, zip, data, caches, and one defined here whose reads come in blocks and which logs what is opened and closed.']
INPUTS = ['path', 'file', 'file3', 'local', 'memory', 'memory3', 'zip', 'data', 'simplecache', 'filecache', 'blocks']
OUTPUTS = ['path', 'file', 'local', 'memory', 'memory3', 'simplecache', 'blocks']
ARCHIVES = ['plain', 'gz', 'onegz', 'big', 'arc', 'cut', 'junk', 'empty']
CMDS = ['index', 'index-o', 'index-fields', 'index-name', 'check', 'check-v', 'recompress', 'recompress-v', 'extract', 'extract2', 'extract-payload', 'extract-headers', 'index-two', 'check-two']
ALIASES = ['path', 'file', 'file3', 'local', 'dots', 'link', 'hard', 'relative', 'filelink']
MEMALIASES = ['memory', 'memory3']
FAULTS = ['open', 'read0', 'read1', 'read2', 'once0', 'once1', 'once2', 'write', 'close']


def BOUNDS(tier):
    return dict(inputs=INPUTS, outputs=OUTPUTS, archives=ARCHIVES, commands=CMDS, aliases=len(ALIASES), faults=FAULTS)


def units(tier):
    return [dict(t='cmd', c=c, a=a) for c in CMDS for a in ARCHIVES] + [dict(t='alias')] + [dict(t='fault', c=c) for c in ('index', 'index-o', 'check', 'recompress', 'extract')]


def explore(u, run):
    if u['t'] == 'cmd':
        for i in INPUTS:
            # their addresses end in something else than the name
            if u['c'] == 'index-name' and i in ('zip', 'data'):
                continue
            for o in OUTPUTS if u['c'] in ('index-o', 'recompress', 'recompress-v') else ['path']:
                run(('cmd', u['c'], u['a'], i, o))
    elif u['t'] == 'alias':
        for names in (ALIASES, MEMALIASES):
            for a in names:
                for b in names:
                    for arch in ('gz', 'plain', 'onegz'):
                        for v in (0, 1):
                            run(('alias', a, b, arch, v))
        for a in INPUTS:
            for b in OUTPUTS:
                run(('other', a, b))
    else:
        for f in FAULTS:
            for a in ('gz', 'plain', 'big'):
                run(('fault', u['c'], a, f))


def archive(kind):
    from mc import menu
    m = menu.warc_menu()
    recs = [m[k] for k in ('warcinfo', 'response', 'resp_chunked_gzip', 'request_get', 'revisit_headers', 'resource')]
    if kind == 'arc':
        am = menu.arc_menu()
        return ref.layout([am[k] for k in list(am)[:4]], 'gz')[0]
    if kind == 'big':
        return ref.layout([m['response'], ref.w_response(ref.pat(200000, 4), uid=50), m['resource']], 'gz')[0]
    data = ref.layout(recs, {'gz': 'gz', 'onegz': 'onegz'}.get(kind, 'plain'))[0]
    return {'cut': data[:-30], 'junk': b'this is no archive\r\n' * 5, 'empty': b''}.get(kind, data)


_fs = {}


def blocks():
    """a remote file system with small blocks and a log; files are stored when closed"""
    if 'cls' in _fs:
        return _fs['cls']
    import fsspec
    from fsspec.spec import AbstractBufferedFile, AbstractFileSystem

    class Fault(OSError):
        pass

    class File(AbstractBufferedFile):
        def _fetch_range(self, start, end):
            log.append(('read', self.path))
            n = len([x for x in log if x[0] == 'read']) - 1
            if fault == 'once%d' % n or (fault or '').startswith('read') and n >= int(fault[4:]):
                raise Fault('injected')
            return store[self.path][start:end]

        def _initiate_upload(self):
            self.parts = []

        def _upload_chunk(self, final=False):
            if fault == 'write':
                raise Fault('injected')
            self.buffer.seek(0)
            self.parts.append(self.buffer.read())
            if final:
                if fault == 'close':
                    raise Fault('injected')
                store[self.path] = b''.join(self.parts)
            return True

        def close(self):
            if not self.closed:
                log.append(('close', self.path))
            super().close()

    class FS(AbstractFileSystem):
        protocol = 'blocks'
        cachable = True

        def info(self, path, **kw):
            path = self._strip_protocol(path)
            if path not in store:
                raise FileNotFoundError(path)
            return {'name': path, 'size': len(store[path]), 'type': 'file'}

        def _open(self, path, mode='rb', block_size=1000, **kw):
            path = self._strip_protocol(path)
            if fault == 'open':
                raise Fault('injected')
            log.append(('open', path, mode))
            if mode == 'rb' and path not in store:
                raise FileNotFoundError(path)
            return File(self, path, mode, block_size=1000, cache_type='readahead')

        def ls(self, path, detail=True, **kw):
            return []

    store, log = {}, []
    fault = None

    def control(f=None):
        nonlocal fault
        fault = f
        del log[:]
        store.clear()
    fsspec.register_implementation('blocks', FS, clobber=True)
    _fs['cls'] = (store, log, control, Fault)
    return _fs['cls']


class Place(object):
    """input and output files by address"""

    def __init__(self, d):
        import fsspec
        self.d = d
        self.mem = fsspec.filesystem('memory')
        self.store, self.log, self.control, self.Fault = blocks()
        self.control()
        for p in list(self.mem.store):
            del self.mem.store[p]
        os.mkdir(d + '/in')
        os.mkdir(d + '/out')

    def put(self, form, data, name='a.warc'):
        p = self.d + '/in/' + name
        if form in ('memory', 'memory3'):
            with self.mem.open('/' + name, 'wb') as fh:
                fh.write(data)
            return 'memory://' + ('/' if form == 'memory3' else '') + name
        if form == 'blocks':
            self.store['in/' + name] = data
            return 'blocks://in/' + name
        if form == 'data':
            return 'data:application/octet-stream;base64,' + base64.b64encode(data).decode()
        if form == 'zip':
            with zipfile.ZipFile(p + '.zip', 'w', zipfile.ZIP_DEFLATED) as z:
                z.writestr('dir/' + name, data)
            return 'zip://dir/%s::%s' % (name, p + '.zip')
        with open(p, 'wb') as fh:
            fh.write(data)
        return self.alias(form, p)

    def alias(self, form, p):
        if form == 'path':
            return p
        if form == 'file':
            return 'file://' + p
        if form == 'file3':
            return 'file:///.' + p
        if form == 'local':
            return 'local://' + p
        if form in ('simplecache', 'filecache'):
            return '%s::file://%s' % (form, p)
        if form == 'dots':
            return os.path.dirname(p) + '/../in/./' + os.path.basename(p)
        if form in ('link', 'filelink'):
            if not os.path.exists(p + '.l'):
                os.symlink(p, p + '.l')
            return ('file://' if form == 'filelink' else '') + p + '.l'
        if form == 'hard':
            if not os.path.exists(p + '.h'):
                os.link(p, p + '.h')
            return p + '.h'
        if form == 'relative':
            return os.path.relpath(p)
        raise ValueError(form)

    def out(self, form, name='made'):
        p = self.d + '/out/' + name
        if form in ('memory', 'memory3'):
            return 'memory://' + ('/' if form == 'memory3' else '') + name
        if form == 'blocks':
            return 'blocks://out/' + name
        return self.alias(form, p)

    def made(self, form, name='made'):
        if form in ('memory', 'memory3'):
            return self.mem.cat('/' + name) if self.mem.exists('/' + name) else None
        if form == 'blocks':
            return self.store.get('out/' + name)
        p = self.d + '/out/' + name
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as fh:
            return fh.read()


def args(c, src, dst, second):
    return {'index': ['index', src], 'index-o': ['index', '-o', dst, src], 'index-fields': ['index', '-f', 'offset,length,http:status,http:content-type,warc-type,warc-date', src], 'check': ['check', src],
            'index-name': ['index', '-f', 'filename,offset', src], 'check-v': ['check', '-v', src], 'recompress': ['recompress', src, dst], 'recompress-v': ['recompress', '-v', src, dst], 'extract': ['extract', src, '0'],
            'extract2': ['extract', src, second], 'extract-payload': ['extract', '--payload', src, second], 'extract-headers': ['extract', '--headers', src, '0'],
            'index-two': ['index', src, src], 'check-two': ['check', '-v', src, src]}[c]


def execute(a):
    try:
        code, out, err = cli.run(a)
    except Exception as e:
        return type(e).__name__, b'', str(e)
    return code, out, ''


def second(kind):
    return {'plain': '244', 'gz': None, 'arc': '0', 'cut': '244', 'junk': '3', 'empty': '0'}.get(kind)


def offset(kind, data):
    from warcio.archiveiterator import ArchiveIterator
    if kind in ('junk', 'empty', 'onegz'):
        return '0'
    it = ArchiveIterator(io.BytesIO(data))
    next(it)
    it.read_to_end()
    return str(it.offset)


def ids(b):
    import re
    return re.sub(b'<urn:uuid:[-0-9a-f]*>', b'', b) if b else b


def normal(made, kind, c):
    """written WARC records, decompressed; new ids of ARC records left out"""
    if made is None or not c.startswith('recompress') or kind != 'arc':
        return made
    return [(ids(r.block), [(n, v) for n, v in r.headers if n != 'WARC-Record-ID']) for r in ref.parse_written(made, True)]


_base = {}


def result(c, kind, i, o):
    data = archive(kind)
    with cli.scratch() as d:
        p = Place(d)
        src, dst = p.put(i, data), p.out(o)
        code, out, err = execute(args(c, src, dst, offset(kind, data)))
        made = p.made(o)
        for x in p.log:
            if x[0] == 'open':
                require(('close', x[1]) in p.log, '%s was not closed: %r', x[1], p.log)
        if i in ('memory', 'memory3'):
            same(p.mem.cat('/a.warc'), data, 'the input afterwards')
        out = out.decode('latin-1').replace(dst, 'OUT').replace(src, 'IN')
        if kind == 'arc' and c == 'recompress-v':
            import re
            out = re.sub('"offset": "[0-9]*"', '', out)
        return code, out, normal(made, kind, c)


def run_case(case):
    t = case[0]
    if t == 'cmd':
        _, c, kind, i, o = case
        k = (c, kind)
        if k not in _base:
            if len(_base) > 50:
                _base.clear()
            _base[k] = result(c, kind, 'path', 'path')
        got, want = result(c, kind, i, o), _base[k]
        same(got[0], want[0], 'exit')
        same(got[1], want[1], 'output')
        same(got[2], want[2], 'the file written')
        return Out((c, kind, i, o, str(got[0])), nontrivial=(i, o) != ('path', 'path'))
    if t == 'alias':
        _, a, b, kind, v = case
        data = archive(kind)
        with cli.scratch() as d:
            p = Place(d)
            src = p.put(a if a in MEMALIASES else 'path', data)
            if a not in MEMALIASES:
                src, dst = p.alias(a, d + '/in/a.warc'), p.alias(b, d + '/in/a.warc')
            else:
                dst = 'memory://' + ('/' if b == 'memory3' else '') + 'a.warc'
            code, out, err = execute(['recompress'] + ['-v'] * v + [src, dst])
            same(p.mem.cat('/a.warc') if a in MEMALIASES else open(d + '/in/a.warc', 'rb').read(), data, 'the file recompressed to itself, named %s and %s' % (src, dst))
            same(code, 1, 'exit')
        return Out((a, b, kind, v), nontrivial=True)
    if t == 'other':
        # a file of the same name elsewhere is another one, and is replaced
        _, a, b = case
        data = archive('gz')
        with cli.scratch() as d:
            p = Place(d)
            src, dst = p.put(a, data, 'same'), p.out(b, 'same2' if 'memory' in a and 'memory' in b else 'same')
            with __import__('fsspec').open(p.out(b, 'same2' if 'memory' in a and 'memory' in b else 'same'), 'wb') as fh:
                fh.write(b'old' * 5000)
            code, out, err = execute(['recompress', src, dst])
            same(code, 0, 'exit (%r)' % out)
            made = p.made(b, 'same2' if 'memory' in a and 'memory' in b else 'same')
            same([(dict(r.headers)['WARC-Record-ID'], r.block) for r in ref.parse_written(made, True)], [(dict(r.headers)['WARC-Record-ID'], r.block) for r in ref.parse_written(data, True)], 'the records')
        return Out((a, b), nontrivial=True)
    _, c, kind, f = case
    data = archive(kind)
    with cli.scratch() as d:
        p = Place(d)
        src = p.put('blocks', data)
        dst = p.out('blocks')
        p.control(f)
        p.store['in/a.warc'] = data
        code, out, err = execute(args(c, src, dst, '0'))
        reads = len([x for x in p.log if x[0] == 'read'])
        hit = f == 'open' or (f[:4] in ('read', 'once') and reads > int(f[4:])) or (f in ('write', 'close') and c in ('index-o', 'recompress'))
        if hit and f.startswith('once') and c == 'recompress' and code == 0:
            # tried again: then nothing is missing
            same([(dict(r.headers)['WARC-Record-ID'], r.block) for r in ref.parse_written(p.made('blocks'), True)], [(dict(r.headers)['WARC-Record-ID'], r.block) for r in ref.parse_written(data, kind != 'plain')], 'records after a second try')
        elif hit:
            require(code == 'Fault' or (c == 'recompress' and code == 1), '%s of the remote file failed, but the command ended with %s: %r', f, code, out)
        else:
            same(code, 0, 'exit without fault')
        same(p.store['in/a.warc'], data, 'the input afterwards')
        for x in p.log:
            # (fsspec itself does not close what it cannot flush)
            if x[0] == 'open' and (f, x[1]) != ('write', 'out/made'):
                require(('close', x[1]) in p.log, '%s was not closed: %r', x[1], p.log)
    return Out((c, kind, f, str(code)), nontrivial=hit)
