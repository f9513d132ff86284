# -*- coding: utf-8 -*-
'C29 a counter gets every event that it needs, and other events do not change it'
from copy import deepcopy
from hx import harness
from common import INF, plain_logs
from events import collector
from nodes import stream_event
import privcount.counter as C
import privcount.data_collector as D
from privcount.traffic_model import TrafficModel

MODEL = {'packet_model': {
    'state_space': ['s1', 's2', 'sEnd'], 'observation_space': ['+', '-', 'F'], 'start_probability': {'s1': 0.5, 's2': 0.5},
    'transition_probability': {'s1': {'s1': 0.25, 's2': 0.5, 'sEnd': 0.25}, 's2': {'s1': 1.0}, 'sEnd': {}},
    'emission_probability': {'s1': {'+': [0.5, 1.0, 2.0, 0.0], '-': [0.5, 3.0, 4.0, 0.0]}, 's2': {'-': [1.0, 5.0, 6.0, 0.0]}, 'sEnd': {'F': [1.0]}}},
         'stream_model': {
    'state_space': ['ActiveA', 'DwellB', 'End'], 'observation_space': ['$', 'F'], 'start_probability': {'ActiveA': 1.0},
    'transition_probability': {'ActiveA': {'ActiveA': 0.5, 'DwellB': 0.5}, 'DwellB': {'ActiveA': 0.5, 'End': 0.5}, 'End': {}},
    'emission_probability': {'ActiveA': {'$': [1.0, 0.0, 0.0, 0.25]}, 'DwellB': {'$': [1.0, 1.0, 2.0, 0.0]}, 'End': {'F': [1.0]}}}}
# enough for every kind of list to be looked at
LISTS = dict([(n, [[0.0, 1.0], [1.0, INF]]) for n in (
    'ExitDomainExactMatchWebInitialStreamCountList', 'ExitDomainSuffixMatchWebInitialStreamCountList')])


def tagged(code, **f):
    return [code] + ['%s=%s' % (k, f[k]) for k in sorted(f)]


def amount(h, tag, most, exact):
    return str(exact) if exact is not None else h.text(h.int(tag, 0, most))


def stream(h, exact=None):
    'one of several streams of two circuits'
    return stream_event(port=h.choice('port', ['80', '6881']), read=amount(h, 'read', 2 ** 30, exact), start=h.choice('start', ['1.0', '4.0']),
                        circ=h.choice('circuit', ['2', '3']), host='www.example.com')


def circuit(h, exact=None, **kw):
    f = {'EventTimestamp': '20.5', 'CreatedTimestamp': '3.5', 'StateString': 'open', 'IsLegacyCircuitEndEventFlag': '1',
         'PurposeCode': '5', 'PreviousChannelId': '1', 'PreviousCircuitId': '2',
         'InboundReceivedCellCount': '7', 'OutboundReceivedCellCount': '3',
         'PreviousNodeIPAddress': '1.2.3.4', 'InboundExitByteCount': '3', 'OutboundExitByteCount': amount(h, 'bytes', 100, exact)}
    f.update(kw)
    return tagged('PRIVCOUNT_CIRCUIT_CLOSE', **f)


def descriptor(h, exact, code, version, **kw):
    return tagged(code, EventTimestamp='5.5', HiddenServiceVersionNumber=version, CacheReasonString='new',
                  EncodedDescriptorByteCount=amount(h, 'bytes', 100, exact), **kw)


KINDS = {
    'stream': stream,
    'exit': lambda h, x: circuit(h, x, IsExitFlag='1', IsEndFlag='1'),
    'entry': lambda h, x: circuit(h, x, IsEntryFlag='1', InboundReceivedCellCount=amount(h, 'cells', 100, x)),
    'intro': lambda h, x: circuit(h, x, IsIntroFlag='1', IsEndFlag='1', HiddenServiceVersionNumber='2', IsHSClientSideFlag='0'),
    'new exit': lambda h, x: circuit(h, x, IsExitFlag='1', IsEndFlag='1', IsLegacyCircuitEndEventFlag='0', ExitStreamCount='1'),
    'cell': lambda h, x: tagged('PRIVCOUNT_CIRCUIT_CELL', EventTimestamp='5.5', IsSentFlag='1', CellCircuitId='2', CellCommandString='RELAY',
                             PreviousChannelId='1', PreviousCircuitId='2'),
    'connection': lambda h, x: tagged('PRIVCOUNT_CONNECTION_CLOSE', EventTimestamp='5.5', CreatedTimestamp='3.5', ChannelId='1',
                                   RemoteIsClientFlag=h.choice('client', ['0', '1']), RemoteIPAddress='1.2.3.4',
                                   RemoteIPAddressConnectionCount='1', PeerIPAddressConsensusRelayCount='0',
                                   InboundByteCount=amount(h, 'bytes', 100, x)),
    'store 2': lambda h, x: descriptor(h, x, 'PRIVCOUNT_HSDIR_CACHE_STORE', '2', WasAddedToCacheFlag='1', IntroPointCount='3'),
    'store 3': lambda h, x: descriptor(h, x, 'PRIVCOUNT_HSDIR_CACHE_STORE', '3', WasAddedToCacheFlag='0', RevisionNumber='3'),
    'fetch': lambda h, x: descriptor(h, x, 'PRIVCOUNT_HSDIR_CACHE_FETCH', '2', CacheQueryByteCount='1', IntroPointCount='3'),
    'packets': lambda h, x: tagged('PRIVCOUNT_VITERBI_PACKETS', EventTimestamp='5.5',
                                ViterbiPathPackets='[["s1";"+";%s];["s2";"-";0]]' % amount(h, 'delay', 1, x)),
    'streams': lambda h, x: tagged('PRIVCOUNT_VITERBI_STREAMS', EventTimestamp='5.5',
                                ViterbiPathStreams='[["ActiveA";"$";%s];["DwellB";"$";0];["End";"F";0]]' % amount(h, 'delay', 100, x)),
    'legacy circuit': lambda h, x: ['PRIVCOUNT_CIRCUIT_ENDED'] + ['1'] * 12,
    'unknown': lambda h, x: ['PRIVCOUNT_X', 'a=b'],
    'rotate': lambda h, x: None}


def classes():
    'the sets of events that some counter needs'
    out = []
    for n in sorted(C.PRIVCOUNT_COUNTER_EVENTS):
        s = frozenset(C.PRIVCOUNT_COUNTER_EVENTS[n])
        if s not in out:
            out.append(s)
    return out


def sets(n):
    return frozenset(C.PRIVCOUNT_COUNTER_EVENTS[n])


class Run(object):
    'a data collector that handles events, and every increment of a counter it makes'
    def __init__(self, h):
        TrafficModel(deepcopy(MODEL)).register_counters()
        self.c = collector(h, LISTS, traffic_model_config=deepcopy(MODEL), rotate_period=7.5,
                           domain_lists=[['www.example.com']], domain_suffixes={'com': {'example': 0}})
        self.log = []
        self.now = None
        self.c.secure_counters.increment = self.increment

    def increment(self, name, bin=None, inc=1):
        if name in C.PRIVCOUNT_COUNTER_EVENTS:
            self.log.append((self.now, name, None if bin is None or bin != bin else bin, inc))

    def handle(self, h, event):
        if event is None:
            self.now = None
            h.quiet('rotation', self.c._do_rotate)
        else:
            self.now = event[0]
            h.quiet('an event', self.c.handle_event, list(event))


def same(h, a, b):
    if a is None or b is None:
        return a is b
    return a == b


def agree(h, a, b):
    'whether two lists of increments are the same, and the first counter for which they plainly are not'
    conds = []
    for (x, y) in zip(a, b):
        if x[:2] != y[:2]:
            return False, x[1]
        conds += [c for c in (same(h, x[2], y[2]), same(h, x[3], y[3])) if c is not True]
    if len(a) != len(b):
        return False, (a + b)[-1][1]
    return (h.And(conds) if conds else True), ''


LABEL = 'a counter counts the same when only its own events are delivered'


def history(h, kinds):
    h.now = 100.0
    # only the last event has arbitrary amounts; circuits end at 20.5, so they began in an earlier window
    made = [KINDS[k](h, 5 if i < len(kinds) - 1 else None) for (i, k) in enumerate(kinds)]
    whole = run(h, made)
    bad = ['%s %s' % (name, code) for (code, name, bin, inc) in whole if code is not None and code not in sets(name)]
    h.check(not bad, 'a counter only counts events of the kinds that it asks for', str(bad[:1]))
    runs = {tuple(range(len(made))): whole}
    for cls in classes():
        keep = tuple([i for (i, e) in enumerate(made) if e is None or e[0] in cls])
        if keep not in runs:
            runs[keep] = run(h, [e if i in keep else () for (i, e) in enumerate(made)])
        a = [x for x in whole if sets(x[1]) == cls]
        b = [x for x in runs[keep] if sets(x[1]) == cls]
        if runs[keep] is not whole:
            (ok, where) = agree(h, a, b)
            h.check(ok, LABEL, '%s %s' % ('/'.join(kinds), where))
        if a:
            h.cover('/'.join(sorted(cls)))


def run(h, events):
    h.now = 100.0
    r = Run(h)
    for e in events:
        h.now = h.now + 1
        if e != ():
            r.handle(h, e)
    return r.log


SETS = ['PRIVCOUNT_CIRCUIT_CLOSE', 'PRIVCOUNT_CIRCUIT_CLOSE/PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CONNECTION_CLOSE',
        'PRIVCOUNT_HSDIR_CACHE_FETCH', 'PRIVCOUNT_HSDIR_CACHE_STORE', 'PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_VITERBI_PACKETS',
        'PRIVCOUNT_VITERBI_STREAMS']


@harness(group='a', cover=SETS, bounds='any two (thorough: three) of fifteen kinds of events, with any amounts')
def mixtures(h):
    n = 2 if h.tier == 'quick' else 3
    first = h.choice('first', sorted(KINDS))
    kinds = [first] + [h.choice('next', sorted(KINDS)) for i in range(n - 1)]
    history(h, kinds)


@harness(group='b', cover=['PRIVCOUNT_CIRCUIT_CLOSE', 'PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CIRCUIT_CLOSE/PRIVCOUNT_STREAM_ENDED'],
         bounds='up to four events about the streams and circuits of one or two circuits, with any amounts')
def circuits_and_streams(h):
    kinds = h.choice('order', [['stream', 'connection', 'exit', 'stream'], ['cell', 'stream', 'exit', 'new exit'],
                               ['entry', 'rotate', 'stream', 'rotate'], ['entry', 'stream', 'rotate', 'entry', 'rotate'],
                               ['stream', 'packets', 'streams', 'exit']])
    history(h, kinds)
