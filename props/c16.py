# -*- coding: utf-8 -*-
'C16 what a circuit counts when it closes'
import re
from hx import harness
from common import INF, values
from events import names, collector, finish, compare
from nodes import stream_event

NAME = re.compile('^(Origin|Entry|Mid|End|SingleHop|Exit|Dir|HSDir|Intro|Rend)(U|2|3|)(Tor2Web|SingleOnion|MultiHop|)'
                  '(Client|Service|)(Active|Inactive|)(Failure|Success|)Circuit(Count|InboundCellCount|OutboundCellCount|'
                  'InboundCellHistogram|OutboundCellHistogram|CellRatio|LifeTime|ReasonCountList)$')
BOTH = {'ExitAndRend2ClientCircuitCount': 'Client', 'ExitAndRend2ServiceCircuitCount': 'Service'}
ALL = names(lambda n: NAME.match(n)) + sorted(BOTH)
COUNT = [n for n in ALL if n.endswith('CircuitCount')]
LEGACY = ['Exit%sCircuitCount' % c for c in ('Web', 'Interactive', 'P2P', 'OtherPort')]
HS = ('HSDir', 'Intro', 'Rend')
FAILURES = [['DESTROYED', 'Channel_Closed'], ['TIMEOUT']]
PARTS = dict([(n, NAME.match(n).groups()) for n in ALL if NAME.match(n)])


def cut(*edges):
    e = [-INF] + list(edges) + [INF]
    return [[e[i], e[i + 1]] for i in range(len(e) - 1)]


def bins(n):
    if n.endswith('CountList'):
        return [[0.0, 1.0], [1.0, 2.0], [2.0, INF]]
    if n.endswith('Count'):
        return [[0.0, INF]]
    if n.endswith('CellRatio'):
        return cut(-1024.0, -64.0, 0.0, 2.0, 64.0)
    return cut(60.0 if n.endswith('LifeTime') else 16.0)


def ratio_bin(inb, out):
    'the logarithm to base 2 of outbound over inbound, -1021 and 1024 when one of them is zero, 0 when both are'
    if out == 0:
        return 3 if inb == 0 else 1
    if inb == 0 or out >= inb * 2 ** 64:
        return 5
    if out * 2 ** 64 < inb:
        return 1
    if out < inb:
        return 2
    return 3 if out < 4 * inb else 4


class Circuit(object):
    'what a circuit is'
    def __init__(self, flags, version=None, client=None, failure=None):
        self.flags = flags
        self.version = version
        self.client = client
        self.failure = failure

    def fields(self, **kw):
        f = {'EventTimestamp': '100.5', 'CreatedTimestamp': '50.25', 'IsLegacyCircuitEndEventFlag': '0',
             'StateString': 'open', 'PurposeCode': '5'}
        for x in self.flags:
            f['Is%sFlag' % x] = '1'
        if self.version is not None:
            f['HiddenServiceVersionNumber'] = str(self.version)
        if self.client is not None:
            f['IsHSClientSideFlag'] = '1' if self.client else '0'
        if self.failure is not None:
            f['FailureReasonString'] = self.failure
        f.update(kw)
        return ['PRIVCOUNT_CIRCUIT_CLOSE'] + ['%s=%s' % (k, f[k]) for k in sorted(f)]

    def counted(self, n, eight):
        'whether the circuit is what the name says; eight is whether it has that many cells'
        flags = self.flags
        hs = [x for x in HS if x in flags][:1]
        is_exit = 'Exit' in flags and 'Dir' not in flags and not hs
        role = {None: None, True: 'Client', False: 'Service'}[self.client]
        if n in BOTH:
            return is_exit or ('Rend' in flags and self.version == 2 and role == BOTH[n])
        (pos, version, hop, side, active, status, kind) = PARTS[n]
        if pos in HS:
            single = 'Entry' in flags and 'End' in flags
            if [pos] != hs or (side and side != role) or (version and version != str(self.version or 'U')):
                return False
            if hop and hop != ('MultiHop' if not single else {'Client': 'Tor2Web', 'Service': 'SingleOnion'}[role]):
                return False
        elif pos == 'SingleHop':
            if not ('Entry' in flags and 'End' in flags):
                return False
        elif pos == 'Exit':
            if not is_exit:
                return False
        elif pos not in flags:
            return False
        if status and (status == 'Failure') != (self.failure is not None):
            return False
        if kind == 'ReasonCountList' and self.failure is None:
            return False
        if active or kind == 'CellRatio':
            is_active = eight
            if is_exit or 'Dir' in flags or 'HSDir' in flags:
                is_active = True
            if ('Intro' in flags or 'Rend' in flags) and self.version is None:
                is_active = False
            if kind == 'CellRatio' and not is_active:
                return False
            if active and is_active != (active == 'Active'):
                return False
        return True


def classify(h, circuit):
    c = collector(h, dict([(n, bins(n)) for n in COUNT]))
    i, o = h.int('in', 1, 2 ** 40), 3
    h.check(c.handle_event(circuit.fields(InboundReceivedCellCount=h.text(i), OutboundReceivedCellCount='3')),
            'a good event is handled')
    counts = finish(h, c)
    eight = bool(i + o >= 8)
    h.cover('active' if eight else 'inactive')
    h.cover('failure' if circuit.failure else 'success')
    want = {}
    for n in COUNT:
        if circuit.counted(n, eight):
            want[n] = [1]
    compare(h, counts, want, 'a circuit is counted exactly by the counters whose name describes it')
    h.observe('n', sorted([n for n in counts if values(counts, n)[0] == 1])[:10])


def chosen(h, flags):
    return [x for x in flags if h.choice(x, [False, True])]


@harness(cover=['active', 'inactive', 'failure', 'success'], bounds='every combination of the position flags, with and '
         'without exit or directory flag, failures, versions; any inbound cell count; %d circuit counters' % len(COUNT))
def positions(h):
    flags = h.choice('kind', [[], ['Exit'], ['Dir'], ['Exit', 'Dir']]) + chosen(h, ['Origin', 'Entry', 'Mid', 'End'])
    (version, client) = h.choice('hs', [(None, None), (2, True)])
    classify(h, Circuit(flags, version, client, h.choice('failure', [None, 'DESTROYED'])))


@harness(group='b', cover=['active', 'inactive', 'failure', 'success'], bounds='onion service circuits: position, version, '
         'side, single or several hops, failures; any inbound cell count; %d circuit counters' % len(COUNT))
def onion_services(h):
    flags = h.choice('kind', [['HSDir'], ['Intro'], ['Rend'], ['Exit', 'Rend']]) + \
        h.choice('where', [['Entry', 'End'], ['End'], ['Entry'], ['Mid']])
    classify(h, Circuit(flags, h.choice('version', [None, 2, 3]), h.choice('client', [None, False, True]),
                        h.choice('failure', [None, 'DESTROYED'])))


CASES = [(['Entry'], None, None), (['End', 'Exit'], None, None), (['Origin', 'Mid', 'End', 'Dir'], None, None),
         (['End', 'HSDir'], 2, True), (['Intro', 'Entry', 'End'], 2, False), (['Rend', 'Entry', 'End'], 3, True),
         (['Rend', 'End'], None, False), (['Intro', 'Mid'], 3, True), (['Entry', 'End'], None, None),
         (['HSDir', 'Entry', 'End'], 3, False), (['Rend', 'End'], 2, True), (['Intro', 'End'], 2, None)]


def near(i, case):
    'the counters that are close to a case, and a different sixteenth of the others for each case'
    (flags, version, client) = case
    keep = []
    for k, n in enumerate(ALL):
        p = PARTS.get(n)
        if p is None or k % 16 == i % 16:
            keep.append(n)
        elif (p[0] in flags or p[0] == 'SingleHop') and p[1] in ('', str(version or 'U')) and \
                p[3] in ('', {None: '', True: 'Client', False: 'Service'}[client]):
            keep.append(n)
    return keep


def amounts(h, which):
    i = h.choice('case', range(len(CASES)))
    (flags, version, client) = CASES[i]
    keep = [n for n in near(i, CASES[i]) if n in BOTH or PARTS[n][-1] in which]
    c = collector(h, dict([(n, bins(n)) for n in keep]), circuit_failure_lists=FAILURES)
    circuit = Circuit(flags, version, client, None)
    start, end, inb, out = 0.25, 0.5, 1, 2
    kw = {'InboundReceivedCellCount': '1', 'OutboundSentCellCount': '2'}
    if 'LifeTime' in which:
        circuit.failure = h.choice('failure', [None, 'destroyed', 'TIMEOUT', 'OTHER'])
        start, end = h.real('start', 0, 2 ** 40), h.real('end', 0, 2 ** 40)
        kw['CreatedTimestamp'], kw['EventTimestamp'] = h.text(start), h.text(end)
    elif 'CellRatio' in which:
        inb, out = h.int('in', 0, 2 ** 80), h.int('out', 0, 2 ** 80)
        kw['InboundReceivedCellCount'], kw['OutboundSentCellCount'] = h.text(inb), h.text(out)
    else:
        r = {}
        for d in ('Inbound', 'Outbound'):
            r[d] = [h.int(d + w, 0, 2 ** 40) for w in ('Received', 'Sent', 'Exit')]
            for w, x in zip(('Received', 'Sent', 'Exit'), r[d]):
                kw['%s%sCellCount' % (d, w)] = h.text(x)
        inb, out = h.Max(*r['Inbound']), h.Max(*r['Outbound'])
    h.check(c.handle_event(circuit.fields(**kw)), 'a good event is handled')
    counts = finish(h, c)
    eight = bool(inb + out >= 8)
    reason = {None: 0, 'destroyed': 0, 'TIMEOUT': 1, 'OTHER': 2}[circuit.failure]
    bin_of = {'LifeTime': 1 if end - start >= 60 else 0, 'ReasonCountList': reason}
    hist = {'InboundCellHistogram': inb, 'OutboundCellHistogram': out}
    want = {}
    for n in keep:
        if not circuit.counted(n, eight):
            continue
        kind = PARTS[n][-1] if n in PARTS else 'Count'
        if kind == 'CellRatio':
            bin_of[kind] = ratio_bin(inb, out)
            h.cover('ratio %d' % bin_of[kind])
        if kind in bin_of:
            want[n] = [1 if i == bin_of[kind] else 0 for i in range(len(bins(n)))]
        elif kind in hist:
            want[n] = [h.Ite(hist[kind] >= 16, 0, 1), h.Ite(hist[kind] >= 16, 1, 0)]
        else:
            want[n] = [{'InboundCellCount': inb, 'OutboundCellCount': out}.get(kind, 1)]
    compare(h, counts, want, 'a circuit counts its cells, ratio, time and failure')
    h.cover('active' if eight else 'inactive')
    h.observe('in', inb)


BOUNDS = 'twelve kinds of circuit, the counters close to each and a sixteenth of the others, '


@harness(group='c', cover=['active', 'inactive'], bounds=BOUNDS + 'any six cell counts below 2^40')
def cell_counts(h):
    amounts(h, ('Count', 'InboundCellCount', 'OutboundCellCount', 'InboundCellHistogram', 'OutboundCellHistogram'))


@harness(group='d', cover=['active', 'inactive', 'ratio 1', 'ratio 2', 'ratio 3', 'ratio 4', 'ratio 5'],
         bounds=BOUNDS + 'any cell counts below 2^80')
def ratios(h):
    amounts(h, ('CellRatio', 'Count'))


@harness(group='e', cover=['inactive'], bounds=BOUNDS + 'any times, failure reasons in the first, second or no list')
def times_and_failures(h):
    amounts(h, ('LifeTime', 'ReasonCountList', 'Count'))


CLASSES = ['Web', 'Interactive', 'P2P', 'OtherPort']
PORT = {'Web': 443, 'Interactive': 22, 'P2P': 6881, 'OtherPort': 9}
EXIT = names(lambda n: re.match('^ExitCircuit(%s|)(StreamHistogram|InterStreamCreationTime)$' % '|'.join(CLASSES), n)) + LEGACY


def exit_bins(n):
    if n.endswith('CircuitCount'):
        return [[0.0, INF]]
    return [[0.0, 1.0], [1.0, 2.0], [2.0, 3.0], [3.0, INF]] if n.endswith('Histogram') else cut(10.0)


def exit_close(chan, circ, flags=('Exit', 'End'), legacy='1', **kw):
    return Circuit(list(flags)).fields(IsLegacyCircuitEndEventFlag=legacy, PreviousChannelId=str(chan),
                                       PreviousCircuitId=str(circ), InboundExitByteCount='5', OutboundExitByteCount='6', **kw)


def expect_exit(h, want, streams):
    'streams: [(class, time)], of one circuit that closes'
    for c in [''] + CLASSES:
        times = [t for (k, t) in streams if c in ('', k)]
        if not times:
            continue
        if c:
            want['Exit%sCircuitCount' % c][0] += 1
        want['ExitCircuit%sStreamHistogram' % c][min(len(times), 3)] += 1
        n = 0
        for a in range(len(times)):
            # the gap between a time and the next one
            later = [t for (b, t) in enumerate(times) if (t > times[a] if b < a else t >= times[a]) and b != a]
            if later:
                gap = later[0]
                for t in later[1:]:
                    if t < gap:
                        gap = t
                want['ExitCircuit%sInterStreamCreationTime' % c][1 if gap - times[a] >= 10 else 0] += 1


@harness(group='g', cover=['closed', 'several'], bounds='one (thorough: up to three) to two streams of any category, start '
         'time and size on two circuits; each circuit is closed, at most twice, with the flag for such circuits or without')
def streams_of_a_circuit(h):
    c = collector(h, dict([(n, exit_bins(n)) for n in EXIT]))
    want = dict([(n, [0] * len(exit_bins(n))) for n in EXIT])
    open_ = {}
    n = h.size('streams', 1, 2 if h.tier == 'quick' else 3)
    for i in range(n):
        cls = h.choice('class', CLASSES if n < 3 else CLASSES[1:3])
        key = h.choice('circuit', [(1, 2), (1, 3), (2, 2)] if i else [(1, 2)])
        t = h.real('start', 0, 1000)
        read = h.choice('bytes', [10, 0, -1] if n < 2 else [10, 0] if n < 3 else [10])
        c.handle_event(stream_event(port=PORT[cls], read=read, written=0, start=h.text(t), end=2000.0, chan=key[0],
                                    circ=key[1]))
        if read > 0:
            open_.setdefault(key, []).append((cls, t))
    for key in h.choice('order', [[(1, 2), (1, 2)], [(1, 3), (1, 2)], [(2, 2), (9, 9)]]):
        how = h.choice('how', ['exit', 'not legacy', 'entry'])
        h.check(c.handle_event(exit_close(key[0], key[1], legacy='0' if how == 'not legacy' else '1',
                                          flags=['Entry'] if how == 'entry' else ['Exit', 'End'])), 'a good event is handled')
        if how == 'exit':
            h.cover('closed')
            streams = open_.pop(key, [])
            if len(streams) > 1:
                h.cover('several')
            expect_exit(h, want, streams)
    counts = finish(h, c)
    compare(h, counts, want, 'an exit circuit counts its streams once')
    h.observe('n', [values(counts, n) for n in EXIT])
