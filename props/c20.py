# -*- coding: utf-8 -*-
'C20 unique client addresses are counted once per rotation window'
from hx import harness
from common import INF, values
from events import collector, finish, compare
from twisted.internet import task

COUNTERS = ['EntryClientIPCount', 'EntryActiveClientIPCount', 'EntryInactiveClientIPCount',
            'EntryClientIPActiveCircuitHistogram', 'EntryClientIPInactiveCircuitHistogram']
STEPS = [[-INF, 1.0], [1.0, 2.0], [2.0, INF]]
BINS = dict([(n, STEPS if n.endswith('Histogram') else [[0.0, INF]]) for n in COUNTERS])
IPS = ['1.2.3.4', '::1']


def circuit(h, ip, start, inb, out, kind='Entry', **kw):
    f = {'EventTimestamp': h.text(start + 1), 'CreatedTimestamp': h.text(start), 'StateString': 'open',
         'IsLegacyCircuitEndEventFlag': '1', 'PurposeCode': '5', 'PreviousChannelId': '1', 'PreviousCircuitId': '2',
         'InboundExitByteCount': '3', 'OutboundExitByteCount': '4', 'Is%sFlag' % kind: '1', 'PreviousNodeIPAddress': ip,
         'InboundReceivedCellCount': h.text(inb), 'OutboundReceivedCellCount': h.text(out)}
    f.update(kw)
    return ['PRIVCOUNT_CIRCUIT_CLOSE'] + ['%s=%s' % (k, f[k]) for k in sorted(f)]


class Windows(object):
    'the window before the latest rotation and the one since; the addresses seen in each'
    def __init__(self, now):
        self.rotated = now
        self.before, self.now = {}, {}

    def add(self, h, ip, start, active):
        'active is a condition; whether the circuit started before the rotation is decided here'
        c = self.now.setdefault(ip, [False, 0, 0])
        c[0] = h.Or(c[0], active)
        c[1] = c[1] + h.Ite(active, 1, 0)
        c[2] = c[2] + h.Ite(active, 0, 1)
        if start < self.rotated:
            h.cover('in both windows')
            b = self.before.setdefault(ip, [False, 0, 0])
            b[0] = h.Or(b[0], active)

    def rotate(self, h, want, now):
        for ip in sorted(self.before):
            (active, n, m) = self.before[ip]
            want['EntryClientIPCount'][0] += 1
            want['EntryActiveClientIPCount'][0] += h.Ite(active, 1, 0)
            want['EntryInactiveClientIPCount'][0] += h.Ite(active, 0, 1)
            for (k, v) in (('EntryClientIPActiveCircuitHistogram', n), ('EntryClientIPInactiveCircuitHistogram', m)):
                want[k][0] += h.Ite(v < 1, 1, 0)
                want[k][1] += h.Ite(v == 1, 1, 0)
                want[k][2] += h.Ite(v > 1, 1, 0)
        self.before, self.now = self.now, {}
        self.rotated = now


def run(h, steps):
    'steps: what happens, in order'
    c = collector(h, BINS, rotate_period=7.5)
    period = 7.5
    c.start()
    loops = [x for x in task.loops if x.running]
    h.check(len(loops) == 1 and loops[0].interval == period, 'the window rotates with the configured period')
    w = Windows(h.now)
    want = dict([(n, [0] * len(BINS[n])) for n in COUNTERS])
    for s in steps:
        if s == 'rotate':
            h.now = h.now + h.real('gap', 0, 1000)
            h.quiet('a rotation never raises an exception', loops[0].fire)
            w.rotate(h, want, h.now)
            h.cover('rotated')
        elif s == 'circuit':
            ip = h.choice('address', IPS) if len(w.now) + len(w.before) else IPS[0]
            start = h.real('start', 0, 5000)
            inb, out = h.int('in', 1, 2 ** 40), 3
            if h.tier != 'quick' and steps.count('circuit') < 3:
                out = h.int('out', 1, 2 ** 40)
            h.check(c.handle_event(circuit(h, ip, start, inb, out)) is True, 'a good event is handled')
            w.add(h, ip, start, inb + out >= 8)
    counts = finish(h, c)
    h.check(not [x for x in task.loops if x.running], 'no rotation after the round')
    compare(h, counts, want, 'client addresses are counted once in each window')
    h.observe('n', [values(counts, n) for n in COUNTERS])


C, R = 'circuit', 'rotate'
SHORT = [[C, R, C, R, R], [C, C, R, R], [R, C, R, C, R], [R, R, C, R, R], [R, C, C, R, R], [C, R, R, C, R]]
LONG = [[C, C, C, R, R], [C, C, R, C, R, R], [C, R, C, C, R, R]]
MORE = [[R, C, R, C, R, C, R, R], [C, C, R, C, C, R, R], [C, R, C, R, C, R, C, R, R], [C, C, C, C, R, R]]


@harness(group='a', cover=['rotated', 'in both windows'], bounds='up to two circuits, from two addresses, with any start times '
         'and cell counts, and one to four rotations at any times; %d orders' % len(SHORT))
def histories(h):
    run(h, h.choice('steps', SHORT))


@harness(group='b', cover=['rotated', 'in both windows'], bounds='as histories with three circuits (thorough: up to four); '
         '%d orders (thorough: %d)' % (len(LONG), len(LONG + MORE)))
def busy_windows(h):
    run(h, h.choice('steps', LONG if h.tier == 'quick' else LONG + MORE))


@harness(group='b', cover=['done'], bounds='circuits that are not of clients: without the entry flag, without the flag for '
         'such circuits, and malformed')
def others_do_not_count(h):
    c = collector(h, BINS)
    c.start()
    loops = [x for x in task.loops if x.running]
    how = h.choice('how', ['exit', 'not legacy', 'middle', 'malformed', 'no address'])
    n = h.int('in', 0, 2 ** 40)
    e = {'exit': lambda: circuit(h, IPS[0], 5.0, n, 0, 'Exit', IsEndFlag='1'),
         'not legacy': lambda: circuit(h, IPS[0], 5.0, n, 0, IsLegacyCircuitEndEventFlag='0'),
         'middle': lambda: circuit(h, IPS[0], 5.0, n, 0, 'Mid'),
         'malformed': lambda: circuit(h, '1.2.3.999', 5.0, n, 0),
         'no address': lambda: [x for x in circuit(h, IPS[0], 5.0, n, 0) if not x.startswith('PreviousNodeIP')]}[how]()
    h.check(h.quiet('an event never raises an exception', c.handle_event, e) is True, 'a good event is handled')
    h.check(c.handle_event(circuit(h, IPS[1], 5.0, 4, 4)) is True, 'a good event is handled')
    for i in range(3):
        h.now = h.now + 1
        loops[0].fire()
    counts = finish(h, c)
    if how != 'no address':
        # the circuit started before the collector, so its address is in two windows
        compare(h, counts, {'EntryClientIPCount': [2], 'EntryActiveClientIPCount': [2],
                            'EntryClientIPActiveCircuitHistogram': [1, 1, 0], 'EntryClientIPInactiveCircuitHistogram': [2, 0, 0]},
                'only circuits of clients count addresses')
    h.cover('done')
