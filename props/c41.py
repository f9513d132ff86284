# -*- coding: utf-8 -*-
'C41 a node listens and connects where its configuration says, and nowhere else'
from hx import harness
from common import plain_logs
from nodes import reset
import privcount.connection as N
from twisted.internet import reactor

KINDS = ('listenTCP', 'listenUNIX', 'connectTCP', 'connectUNIX')
ADDRESSES = {'10.1.2.3': True, '::1': True, '2001:db8::7': True, '0.0.0.0': True, 'localhost': False, '10.1.2.3.4': False, '': False,
             '256.1.1.1': False, '10.1.2.3/8': False, None: False}
LOCAL = {4: '127.0.0.1', 6: '::1'}
ALL = {4: '0.0.0.0', 6: '::'}


def item(h, i, few, rest=False):
    'a configuration of a connection; its parts, or None if it is no valid one'
    if few and not rest and h.flag('none %d' % i):
        return None, None, None
    (c, ok) = ({}, True)
    port = h.int('port %d' % i, -70000, 70000)
    how = h.choice('how %d' % i, ['no port', 'number', 'text', 'word', 'None'] if not few else ['no port', 'number'])
    if how != 'no port':
        c['port'] = {'number': port, 'text': h.text(port), 'word': 'http', 'None': None}[how]
        ok = how in ('number', 'text') and port > 0
    if h.flag('address %d' % i):
        ip = h.choice('ip %d' % i, sorted(ADDRESSES) if not few else ['10.1.2.3', 'localhost'])
        c['ip'] = ip
        ok = ok and ADDRESSES[ip] and how != 'no port'
    path = h.choice('unix %d' % i, ['no', '/tmp/socket', '', None] if not few else ['no', '/tmp/socket'])
    if path != 'no':
        c['unix'] = path
        ok = ok and path
    if rest:
        pw = h.choice('password %d' % i, ['no', 'pw', '', None])
        if pw != 'no':
            c['control_password'] = pw
            ok = ok and pw
        if h.flag('other key %d' % i):
            c['future'] = 7
    return c, bool(ok), port


def opened(kinds):
    return [x for x in reactor.calls if x[0] in kinds]


def where(x):
    'what was opened: the path, or the address and port; and for whom'
    (kind, a, kw, c) = x
    if kind in ('listenUNIX', 'connectUNIX'):
        return (kind, a[0]), a[1]
    if kind == 'listenTCP':
        return (kind, kw['interface'], a[0]), a[1]
    return (kind, a[0], a[1]), a[2]


def expected(kind, items, local, versions):
    out = []
    for (c, ok, port) in items:
        if ok and 'unix' in c:
            out.append((kind + 'UNIX', c['unix']))
    for (c, ok, port) in items:
        if not ok or 'port' not in c:
            continue
        if 'ip' in c:
            out.append((kind + 'TCP', c['ip'], port))
        elif kind == 'listen' or local:
            for v in versions:
                out.append((kind + 'TCP', (LOCAL if local else ALL)[v], port))
    return out


def session(h, items, wrapped):
    plain_logs(h)
    reset()
    kind = h.choice('what', ['listen', 'connect'])
    local = h.flag('local')
    versions = 4
    if [c for (c, ok, port) in items if c is not None and 'port' in c and 'ip' not in c]:
        versions = h.choice('versions', [4, 6, [4, 6], [6]])
    config = [c for (c, ok, port) in items] if wrapped else items[0][0]
    before = [None if c is None else dict(c) for (c, ok, port) in items]
    factory = object()
    want = expected(kind, items, local, versions if isinstance(versions, list) else [versions])
    r = h.quiet('no exceptions', getattr(N, kind), factory, config, local, versions)
    got = opened(KINDS)
    h.check(len(got) == len(want), 'as many as are configured', repr((len(got), len(want))))
    for (x, y) in zip(got, want):
        (w, f) = where(x)
        h.check(w[:2] == y[:2], 'the kind and the address')
        if len(y) > 2:
            h.check(w[2] == y[2], 'the port')
            h.check(h.And(w[2] > 0), 'a proper port')
        h.check(f is factory, 'for this factory')
    handles = r if isinstance(r, list) else [r]
    h.check([id(x) for x in handles] == [id(x[3]) for x in got], 'all that was opened is returned')
    for (c, b) in zip([c for (c, ok, port) in items], before):
        h.check(c is None or sorted(c) == sorted(b), 'the configuration is left as it is')
    for f in ((N.stopListening,) if kind == 'listen' else (N.disconnect,)):
        h.quiet('no exceptions', f, r)
    for x in handles:
        h.check((x.stopped, x.disconnected) == ((1, 0) if kind == 'listen' else (0, 1)), 'each is closed once')
    h.cover('%d' % min(len(want), 3))
    h.cover(kind)
    if kind == 'connect' and not local:
        h.cover('nothing by default')


@harness(group='a', cover=['0', '1', '2', '3', 'listen', 'connect', 'nothing by default'],
         bounds='one configuration of each form and with each mistake, any port')
def one(h):
    it = item(h, 0, False)
    session(h, [it], h.flag('in a list'))


@harness(group='b', cover=['0', '1', '2', '3', 'listen', 'connect'], bounds='lists of two configurations, one of which may be invalid, any ports')
def two(h):
    session(h, [item(h, i, True) for i in range(2)], True)


@harness(group='a', cover=['0', '1', '2', 'listen', 'connect'], bounds='one configuration with a password or a key of the future')
def others(h):
    session(h, [item(h, 0, True, True)], False)
