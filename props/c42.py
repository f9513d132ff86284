# -*- coding: utf-8 -*-
'C42 what a collector knows about its relay is what Tor told it'
import string
from hx import harness
from common import counters
from nodes import aggregator, stream_event
from wire import connect, deliver, quiet_world
from twisted.internet import reactor, task
import privcount.protocol as P

FP = '0123456789ABCDEFabcdef0123456789ABCDEF01'
FP2 = 'F' * 40


def agg(h, weight=None, **kw):
    a = aggregator(h, counters({'ExitStreamCount': [[0.0, float('inf')]]}, 4.0), noise_weight=weight or {'*': 1.0}, **kw)
    return a


def word(h, name, n, good, bad):
    'a text of n characters, all good, or one of them, anywhere, not'
    s = [good[(7 * i) % len(good)] for i in range(n)]
    ok = True
    if n and h.flag('bad ' + name):
        s[h.choice('where', sorted(set([0, n // 2, n - 1])))] = h.choice('character', bad)
        ok = False
    return ''.join(s), ok


HEX, ALNUM, DIGITS = string.hexdigits, string.ascii_letters + string.digits, string.digits + '.'


@harness(group='a', cover=['kept', 'refused', 'replaced', 'same'],
         bounds='names, fingerprints, addresses, ports and versions of all lengths near the limits, good or with one bad character, after none or another')
def values(h):
    quiet_world(h)
    a = agg(h)
    what = h.choice('what', ['nickname', 'fingerprint', 'address', 'orport', 'dirport', 'tor_version', 'tor_privcount_version'])
    (sizes, good, bad) = {
        'nickname': ((0, 1, 2, 18, 19, 20, 21, 40), ALNUM, '-_. \xff\x01'), 'fingerprint': ((0, 1, 39, 40, 41, 80), HEX, 'gG \xff$'),
        'address': ((0, 1, 6, 7, 8, 14, 15, 16), DIGITS, 'a: -\xff'), 'orport': ((0, 1, 199, 200, 201), ALNUM + ':[] ,', '\xff\x01'),
        'dirport': ((0, 1, 199, 200, 201), ALNUM + ':[] ,', '\xff\x01'), 'tor_version': ((0, 1, 2, 30), ALNUM[:20] + '.()', '\xff\x01'),
        'tor_privcount_version': ((0, 1, 2, 30), ALNUM[:20] + '.()', '\xff\x01')}[what]
    limit = {'nickname': (0, 19), 'fingerprint': (40, 40), 'address': (7, 15), 'orport': (1, 200), 'dirport': (1, 200)}.get(what, (1, 10 ** 6))
    (set_it, get_it) = (getattr(a, 'set_' + what), getattr(a, 'get_' + what))
    first = None
    if h.flag('another before'):
        first = {'nickname': 'other', 'fingerprint': FP2, 'address': '10.9.8.7'}.get(what, '0other')
        h.check(set_it(first) is True and get_it() == first, 'a good one is kept')
    n = h.choice('size', sizes)
    (text, ok) = word(h, what, n, good, bad)
    around = h.choice('around', ['', ' '])
    # spaces at the ends are not part of it
    bare = text.strip()
    ok = limit[0] <= len(bare) <= limit[1] and not [c for c in bare if c not in (
        {'nickname': ALNUM, 'fingerprint': HEX, 'address': DIGITS}.get(what, string.printable))]
    r = h.quiet('no exceptions', set_it, around + text + around)
    h.check(r is ok, 'a good one is accepted, and no other', repr((what, text, r)))
    if not ok:
        h.check(get_it() == first, 'what is refused changes nothing')
        h.cover('refused')
    elif what.endswith('port'):
        h.check(get_it() == ', '.join(sorted(set([bare] + ([first] if first else [])))), 'all ports are known, once')
        h.check(set_it(text) and get_it() == ', '.join(sorted(set([bare] + ([first] if first else [])))), 'the same is not kept twice')
        h.cover('kept')
    elif what == 'fingerprint' and first is not None:
        h.check(get_it() == first, 'the first fingerprint is kept')
        h.cover('same')
    else:
        h.check(get_it() == bare, 'it is known')
        h.cover('replaced' if first is not None else 'kept')
    other = [k for k in ('nickname', 'fingerprint', 'address', 'orport', 'dirport', 'tor_version', 'tor_privcount_version')
             if k != what and getattr(a, 'get_' + k)() is not None]
    h.check(not other, 'and nothing else')
    known = {} if get_it() is None else {what: get_it()}
    context = a.get_context()
    h.check(dict((k, context[k]) for k in context if k not in ('flag_list', 'noise_weight_value')) == known, 'the tally server is told what is known')


PORTS = ['9050', '90', '50', '[::1]:90', '9050 NoListen', '905', '0, 9']


@harness(group='a', cover=['alike', 'same'], bounds='up to three ports, alike or the same, in any order')
def ports(h):
    quiet_world(h)
    a = agg(h)
    what = h.choice('what', ['orport', 'dirport'])
    told = []
    for i in range(3):
        p = h.choice('port %d' % i, PORTS)
        h.cover('same' if p in told else 'alike')
        told.append(p)
        h.check(getattr(a, 'set_' + what)(p) is True, 'accepted')
        h.check(getattr(a, 'get_' + what)() == ', '.join(sorted(set(told))), 'all ports are known, once', '%s' % told)
        h.check(a.get_context()[what] == ', '.join(sorted(set(told))), 'the tally server is told of all ports')


@harness(group='a', cover=['noise', 'no weight', 'other relay'], bounds='one to three fingerprints, good or not, the same or not, with a weight or without; any weights')
def noise(h):
    quiet_world(h)
    w = h.real('weight', 0, 1)
    gausses = []
    weights = h.choice('weights', [(FP, ), ('*',), (FP2,), (FP, FP2)])
    a = agg(h, dict((k, w if k != FP2 or weights == (FP2,) else 0.25) for k in weights))
    sc = a.secure_counters
    h.patch(sc, 'generate_noise', lambda x: gausses.append(x))
    first = None
    for i in range(3):
        (fp, ok) = h.choice('fingerprint %d' % i, [(FP, True), (FP2, True), (FP[:39], False), (FP[:39] + 'x', False)])
        h.check(a.set_fingerprint(fp) is ok, 'a good fingerprint is accepted')
        if ok and first is None:
            first = fp
            has = first in weights or '*' in weights
            h.check(len(gausses) == (1 if has else 0), 'noise is added when the relay is known')
            if has:
                h.check(gausses[0] == (0.25 if first == FP2 and weights == (FP, FP2) else w), 'for the weight of the relay')
                h.check(a.secure_counters is sc, 'it goes on counting')
                h.cover('noise')
            else:
                h.check(a.secure_counters is None, 'a relay without a weight does not count')
                h.cover('no weight')
        h.check(a.get_fingerprint() == first, 'the first fingerprint is kept')
        h.check(len(gausses) <= 1 and (first is not None or not gausses), 'noise is added once')
        if ok and fp != first:
            h.cover('other relay')


LINES = {
    '250 Nickname=relay2': ('nickname', 'relay2'), '250 Nickname': ('nickname', ''), '250 Nickname=bad!': None,
    '250-ORPort=9001': ('orport', '9001'), '250 ORPort=[::1]:5 NoListen': ('orport', '[::1]:5 NoListen'), '250 ORPort': None,
    '250-DirPort=9030': ('dirport', '9030'), '250 DirPort': None,
    '250 GeoIPFile=/x/geoip': ('geoip_file', '/x/geoip'), '250 GeoIPFile': ('geoip_file', ''),
    '250 GeoIPv6File=/x/geoip6': ('geoipv6_file', '/x/geoip6'), '250 GeoIPv6File': ('geoipv6_file', ''),
    '250-version=0.2.8.6 (git-4d)': ('tor_version', '0.2.8.6 (git-4d)'), '250-version=': None,
    '250-address=192.0.2.1': ('address', '192.0.2.1'), '250-address=nowhere': None, '551 Address unknown': None,
    '250-privcount-version=1.1.0': ('tor_privcount_version', '1.1.0'), '250 OK': None,
    '552 Unrecognized option: Unknown option "EnablePrivCount".  Failing.': 'quit', '552 Unrecognized key "privcount-version"': 'quit',
    '551 Not running in server mode': 'quit', '250-fingerprint=' + FP: 'fingerprint', '250-fingerprint=' + FP + 'X': 'bad fingerprint',
}
GET = dict((k, 'get_' + k) for k in ('nickname', 'orport', 'dirport', 'geoip_file', 'geoipv6_file', 'tor_version', 'address', 'tor_privcount_version', 'fingerprint'))


@harness(group='b', cover=['known', 'quit', 'waiting', 'bad'], bounds='three (thorough: four) answers of any kinds, in any order; with and without a round that is about to start')
def discovery(h):
    stops = quiet_world(h)
    a = agg(h)
    p = connect(P.TorControlClientProtocol, a)
    early = h.flag('started')
    if early:
        p.startCollection(['ExitStreamCount'])
    for l in ['250-PROTOCOLINFO 1', '250-AUTH METHODS=NULL', '250-VERSION Tor="0.2.8.6"', '250 OK', '250 OK']:
        deliver(h, p, l)
    h.check(p.state == 'discovering' and a.get_tor_version() == '0.2.8.6', 'it asks about the relay')
    known = {'tor_version': '0.2.8.6'}
    ended = False
    for i in range(4 if h.tier == 'thorough' else 3):
        l = h.choice('answer %d' % i, sorted(LINES))
        what = LINES[l]
        h.quiet('no exceptions', deliver, h, p, l)
        if what == 'quit' or what == 'bad fingerprint':
            h.check(p.transport.disconnecting and not p.isConnected() or (what == 'bad fingerprint' and p.transport.disconnecting),
                    'it does not use what is no PrivCount relay')
            h.check(p.consensus_refresher is None or not p.consensus_refresher.running or what == 'bad fingerprint', 'nothing is asked any more')
            h.cover('quit' if what == 'quit' else 'bad')
            ended = True
        elif what == 'fingerprint':
            known['fingerprint'] = FP
            h.check(p.state == ('processing' if early else 'waiting'), 'then it is ready')
            h.check([x for x in p.transport.lines() if x == 'GETINFO ns/id/' + FP], 'the flags are asked for')
            h.check([x for x in p.transport.lines() if x.startswith('SETEVENTS PRIV')] if early else True, 'the events are asked for')
            h.cover('waiting')
            ended = True
        elif what is not None:
            (k, v) = what
            if k == 'orport' and k in known:
                v = ', '.join(sorted(set(known[k].split(', ') + [v])))
            known[k] = v
            h.cover('known')
        h.check(dict((k, getattr(a, GET[k])()) for k in GET if getattr(a, GET[k])() is not None) == known, 'what Tor said last is known')
        if ended:
            break
        h.check(p.state == 'discovering' and not p.transport.disconnecting, 'it goes on')
    h.check(not stops, 'the process goes on')


FLAGS = {'entry': ['250+ns/id/%s=' % FP, 'r test O+Lh BuWv 2017-06-22 03:59:43 127.0.0.1 5000 7000', 's Exit Fast  Guard', 'w Bandwidth=1', 'p accept 1-65535', '.', '250 OK'],
         'none': ['250-ns/id/%s=' % FP, '250 OK'],
         'unknown': ['552 Unrecognized key "ns/id/%s"' % FP], 'other': ['250 OK']}
EVENT = '650 ' + ' '.join(stream_event())


@harness(group='b', cover=['flags', 'no flags', 'counted', 'expected', 'not expected'],
         bounds='two answers about the consensus; an event after any of the lines or none; the relay is known to be in the round or waits')
def consensus(h):
    stops = quiet_world(h)
    a = agg(h)
    p = connect(P.TorControlClientProtocol, a)
    early = h.flag('started')
    if early:
        p.startCollection(['ExitStreamCount'])
    for l in ['250-PROTOCOLINFO 1', '250-AUTH METHODS=NULL', '250 OK', '250 OK', '250-fingerprint=' + FP]:
        deliver(h, p, l)
    h.check(p.transport.lines().count('GETINFO ns/id/' + FP) == 1 and p.consensus_refresher.interval == 3600, 'the flags are asked for every hour')
    flags = []
    asked = 1
    for i in range(2):
        what = h.choice('answer %d' % i, sorted(FLAGS))
        at = h.choice('event after', range(len(FLAGS[what]) + 1)) if i == 1 and early else None
        for (j, l) in enumerate(FLAGS[what]):
            if at == j:
                before = a.last_event_time
                h.now = 77
                h.quiet('no exceptions', deliver, h, p, EVENT)
                h.check(not p.transport.disconnecting, 'accepted')
                h.check(a.last_event_time == 77, 'events are counted between the lines of an answer')
                h.cover('counted')
            h.quiet('no exceptions', deliver, h, p, l)
        if what == 'entry':
            flags = ['Exit', 'Fast', 'Guard']
            h.cover('flags')
        elif what != 'other':
            flags = []
            h.cover('no flags')
        h.check(not p.transport.disconnecting, 'it goes on')
        h.check(a.get_flag_list() == flags and a.get_context()['flag_list'] == flags, 'the flags are those of the last answer', repr((what, a.get_flag_list(), flags)))
        p.consensus_refresher.fire()
        asked += 1
        h.check(p.transport.lines().count('GETINFO ns/id/' + FP) == asked, 'they are asked for again')
    import privcount.counter as C
    h.check(C.are_events_expected(['ExitStreamCount'], flags) is ('Exit' in flags), 'events are expected of relays with the flags')
    h.cover('expected' if 'Exit' in flags else 'not expected')
    h.check(not stops, 'the process goes on')
