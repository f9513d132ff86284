# -*- coding: utf-8 -*-
'C14 what a stream counts when it ends'
import re
from hx import harness
from common import INF, values
from events import names, collector, finish, compare
from nodes import stream_event

TOKENS = ['Hostname', 'IPv4Literal', 'IPv6Literal', 'IPv4', 'IPv6', 'Interactive', 'P2P', 'OtherPort', 'NonWeb', 'Web',
          'Initial', 'Subsequent']
KINDS = ['Count', 'ByteCount', 'OutboundByteCount', 'InboundByteCount', 'ByteHistogram', 'OutboundByteHistogram',
         'InboundByteHistogram', 'ByteRatio', 'LifeTime']
NAME = re.compile('^Exit((?:%s)*)Stream(%s)$' % ('|'.join(TOKENS), '|'.join(KINDS)))
STREAM = names(lambda n: NAME.match(n))

WEB = [80, 443]
INTERACTIVE = [22, 194, 994, 6679, 6697, 7000] + range(6660, 6671)
P2P = [1214, 6699, 45682, 51413] + range(4661, 4667) + range(6346, 6430) + range(6881, 7000)

# where the bins of each kind of histogram change
EDGE = {'Byte': 512.0, 'Ratio': [-1024.0, -64.0, 0.0, 2.0, 64.0], 'Life': 60.0}


def parts(n):
    m = NAME.match(n)
    return re.findall('|'.join(TOKENS), m.group(1)), m.group(2)


def cut(*edges):
    e = [-INF] + list(edges) + [INF]
    return [[e[i], e[i + 1]] for i in range(len(e) - 1)]


def bins(n):
    kind = parts(n)[1]
    if kind.endswith('Count'):
        return [[0.0, INF]]
    if kind == 'ByteRatio':
        return cut(*EDGE['Ratio'])
    if kind == 'LifeTime':
        return cut(EDGE['Life'])
    return cut(EDGE['Byte'])


def one_of(h, port, ports):
    return h.Or([port == p for p in ports])


def truth(h, port, host, ip, number):
    'which categories a stream is in; the port categories may be conditions'
    web = one_of(h, port, WEB)
    inter = one_of(h, port, INTERACTIVE)
    p2p = one_of(h, port, P2P)
    return {'Web': web, 'NonWeb': h.Not(web), 'Interactive': inter, 'P2P': p2p,
            'OtherPort': h.Not(h.Or(web, inter, p2p)),
            'Hostname': host not in LITERALS, 'IPv4Literal': host == '5.6.7.8', 'IPv6Literal': host == '2001:db8::2',
            'IPv4': ip == '1.2.3.4', 'IPv6': ip == '2001:db8::1',
            'Initial': number == 1, 'Subsequent': number != 1}


LITERALS = ['5.6.7.8', '2001:db8::2']
HOSTS = ['example.com', '5.6.7.8', '2001:db8::2', '(null)', '1.2.3', 'a:b']
IPS = ['1.2.3.4', '2001:db8::1', '(null)', '1.2.3.256']


@harness(cover=['web', 'other', 'hostname', 'literal', 'initial', 'subsequent'], bounds='one stream with any port and '
         'position, four kinds of resolved address and six of requested host; all %d stream counters' % len(STREAM))
def categories(h):
    c = collector(h, dict([(n, cut(-2000.0) if not n.endswith('Count') else [[0.0, INF]]) for n in STREAM]))
    port = h.int('port', 0, 65535)
    number = h.int('number', 0, 2 ** 31)
    host = h.choice('host', HOSTS)
    ip = h.choice('ip', IPS)
    r, w = h.int('read', 1, 2 ** 50), h.int('written', 1, 2 ** 50)
    h.check(c.handle_event(stream_event(port=h.text(port), read=h.text(r), written=h.text(w), host=host, ip=ip,
                                        number=h.text(number))), 'a good event is handled')
    counts = finish(h, c)
    t = truth(h, port, host, ip, number)
    for k in t:
        t[k] = bool(t[k])
    h.cover('web' if t['Web'] else 'other')
    h.cover('hostname' if t['Hostname'] else 'literal')
    h.cover('initial' if t['Initial'] else 'subsequent')
    want = {}
    for n in STREAM:
        tokens, kind = parts(n)
        if all([t[x] for x in tokens]):
            want[n] = [{'ByteCount': r + w, 'OutboundByteCount': w, 'InboundByteCount': r}.get(kind, 1)]
            if not kind.endswith('Count'):
                want[n] = [0, 1]
    compare(h, counts, want)
    h.observe('n', values(counts, 'ExitStreamCount')[0])
    h.observe('b', values(counts, 'ExitStreamByteCount')[0])


def where(v, edges):
    n = 0
    for e in edges:
        if v >= e:
            n += 1
    return n


def ratio_bin(h, r, w):
    'the logarithm to base 2 of written over read, -1021 and 1024 when one of them is zero'
    if w == 0:
        return 1
    if r == 0:
        return 5
    if w >= r * 2 ** 64:
        return 5
    if w * 2 ** 64 < r:
        return 1
    if w < r:
        return 2
    return 3 if w < 4 * r else 4


CASES = [('80', 'example.com', '1.2.3.4', 1), ('22', 'example.com', '2001:db8::1', 2), ('6881', '5.6.7.8', '(null)', 1),
         ('1', '2001:db8::2', '1.2.3.4', 3), ('443', 'example.com', '2001:db8::1', 5),
         ('9', 'example.com', '1.2.3.4', 1), ('9', '5.6.7.8', '2001:db8::1', 1), ('22', '5.6.7.8', '1.2.3.4', 2),
         ('6881', '2001:db8::2', '2001:db8::1', 1)]


@harness(group='b', cover=['nothing', 'counted', 'no read', 'no written', 'both'], bounds='one stream in each category, with any '
         'numbers of bytes in +-2^80 and any times in +-2^40')
def amounts(h):
    c = collector(h, dict([(n, bins(n)) for n in STREAM]), modulus=2 ** 90)
    (port, host, ip, number) = h.choice('case', CASES if h.tier != 'quick' else CASES[:6])
    r, w = h.int('read', -2 ** 80, 2 ** 80), h.int('written', -2 ** 80, 2 ** 80)
    start, end = h.real('start', -2 ** 40, 2 ** 40), h.real('end', -2 ** 40, 2 ** 40)
    h.check(c.handle_event(stream_event(port=port, read=h.text(r), written=h.text(w), start=h.text(start), end=h.text(end),
                                        host=host, ip=ip, number=number)), 'a good event is handled')
    counts = finish(h, c)
    t = truth(h, int(port), host, ip, number)
    want = {}
    if r >= 0 and w >= 0 and r + w > 0:
        h.cover('counted')
        h.cover('no read' if r == 0 else ('no written' if w == 0 else 'both'))
        bin_of = {'ByteHistogram': where(r + w, [512]), 'OutboundByteHistogram': where(w, [512]),
                  'InboundByteHistogram': where(r, [512]), 'ByteRatio': ratio_bin(h, r, w),
                  'LifeTime': where(end - start, [60])}
        for n in STREAM:
            tokens, kind = parts(n)
            if all([t[x] for x in tokens]):
                if kind in bin_of:
                    want[n] = [1 if i == bin_of[kind] else 0 for i in range(len(bins(n)))]
                else:
                    want[n] = [{'ByteCount': r + w, 'OutboundByteCount': w, 'InboundByteCount': r}.get(kind, 1)]
    else:
        h.cover('nothing')
    compare(h, counts, want)
    h.observe('n', values(counts, 'ExitStreamCount')[0])


@harness(group='c', cover=['done'], bounds='two (thorough: three) streams on one or two circuits, any ports and sizes')
def streams_add_up(h):
    keep = ['ExitStreamCount', 'ExitStreamByteCount', 'ExitWebStreamCount', 'ExitP2PStreamByteCount',
            'ExitNonWebStreamInboundByteCount']
    c = collector(h, dict([(n, bins(n)) for n in keep]))
    want = dict([(n, [0]) for n in keep])
    for i in range(2 if h.tier == 'quick' else 3):
        port = h.choice('port', [80, 22, 6881])
        r, w = h.int('read', 1, 2 ** 50), h.int('written', 0, 2 ** 50)
        c.handle_event(stream_event(port=port, read=h.text(r), written=h.text(w), circ=h.choice('circ', [1, 2])))
        n = h.Ite(r + w > 0, 1, 0)
        want['ExitStreamCount'][0] += n
        want['ExitStreamByteCount'][0] += r + w
        if port == 80:
            want['ExitWebStreamCount'][0] += n
        else:
            want['ExitNonWebStreamInboundByteCount'][0] += r
        if port == 6881:
            want['ExitP2PStreamByteCount'][0] += r + w
    compare(h, finish(h, c), want)
    h.cover('done')
