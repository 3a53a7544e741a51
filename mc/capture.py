"""Judging what a capture recorded."""
import hashlib
import re

from mc import fakenet, ref
from mc.core import Violation, require, same

CT = {'response': 'application/http; msgtype=response', 'request': 'application/http; msgtype=request'}
DATE = {'WARC/1.0': re.compile(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$'), 'WARC/1.1': re.compile(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?Z$')}


class Want(object):
    """One completed exchange."""

    def __init__(self, uri, request, response, ip=None, proxy=None, partial=None, rtype='response'):
        self.uri = uri
        self.request = request          # bytes
        self.response = response        # bytes
        self.ip = ip
        self.proxy = proxy
        self.partial = partial          # at least so many bytes of the body, the rest may be missing
        self.rtype = rtype


def check_message(block, want, what, partial=None):
    whead, wbody = ref.split_http(want)
    head, body = ref.split_http(block)
    if head != whead:
        raise Violation('%s: recorded HTTP headers %r, they were %r' % (what, head[:600], whead[:600]))
    if partial is None:
        same(body, wbody, what + ' body')
    else:
        require(wbody.startswith(body), '%s body %s is not the beginning of what was received %s', what, body, wbody)
        require(len(body) >= partial, '%s body has %d bytes, the client got %d', what, len(body), partial)
    return body


def check_pair(resp, req, w, what, version='WARC/1.0'):
    same((resp.get('WARC-Type'), req.get('WARC-Type')), (w.rtype, 'request'), what + ' types')
    for r, t, want, partial in ((resp, 'response', w.response, w.partial), (req, 'request', w.request, None)):
        k = what + ' ' + t
        same(r.version, version, k + ' version')
        body = check_message(r.block, want, k, partial)
        same(r.all('WARC-Target-URI'), [w.uri], k + ' URI')
        same(r.all('Content-Type'), [CT[t]], k + ' content type')
        same(r.all('WARC-IP-Address'), [w.ip] if w.ip else [], k + ' IP')
        same(r.all('WARC-Proxy-Host'), [w.proxy] if w.proxy else [], k + ' proxy')
        same(r.all('WARC-Block-Digest'), [ref.sha1_32(r.block)], k + ' block digest')
        same(r.all('WARC-Payload-Digest'), [ref.sha1_32(body)], k + ' payload digest')
        require(len(r.all('WARC-Record-ID')) == 1, '%s record ids %r', k, r.all('WARC-Record-ID'))
        require(len(r.all('WARC-Date')) == 1 and DATE[version].match(r.get('WARC-Date')), '%s date %r', k, r.all('WARC-Date'))
    same(req.get('WARC-Date'), resp.get('WARC-Date'), what + ' date of the request')
    require(req.get('WARC-Record-ID') != resp.get('WARC-Record-ID'), '%s: same record ids', what)
    same(req.all('WARC-Concurrent-To'), [resp.get('WARC-Record-ID')], what + ' link')
    same(resp.all('WARC-Concurrent-To'), [], what + ' link of the response')


def parse(data, gzip):
    try:
        return ref.parse_written(data, gzip)
    except ref.Bad as e:
        raise Violation('what was written is not a WARC file: %s' % e)


def check_all(data, gzip, wants, what='', version='WARC/1.0', ordered=True):
    """data holds exactly the pairs of wants (in their order, or matched by URI)"""
    recs = parse(data, gzip)
    got = [(r.get('WARC-Type'), r.get('WARC-Target-URI')) for r in recs]
    exp = [x for w in wants for x in ((w.rtype, w.uri), ('request', w.uri))]
    if ordered:
        same(got, exp, what + ' records')
    else:
        same(len(got), len(exp), what + ' number of records (%r)' % (got,))
        by = {}
        for i in range(0, len(got), 2):
            same(got[i][1], got[i + 1][1], what + ' URIs of the records of a pair')
            by.setdefault(got[i][1], []).append(i)
        order = []
        for w in wants:
            require(by.get(w.uri), '%s: exchange %s is not recorded in %r', what, w.uri, got)
            order.append(by[w.uri].pop(0))
        recs = [r for i in order for r in recs[i:i + 2]]
    ids = [r.get('WARC-Record-ID') for r in recs]
    require(len(set(ids)) == len(ids), 'record ids are not unique: %r', ids)
    for n, w in enumerate(wants):
        check_pair(recs[2 * n], recs[2 * n + 1], w, '%s exchange %d' % (what, n), version)
