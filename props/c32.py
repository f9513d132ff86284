# -*- coding: utf-8 -*-
'C32 what is published about a round'
import os
from copy import deepcopy
from hx import harness
from common import INF
from server import tally_server, status, written, COUNTERS, T

M = T.counter_modulus()
T.open = open
KINDS = ['whole', 'no counts', 'empty', 'a counter is missing', 'a bin is missing', 'other counter', 'never started', 'silent']
UIDS = ['dc0', 'dc1', 'sk0']


def counts(h, bins):
    return dict([(n, {'bins': [[b[0], b[1], h.int('count', 0, M - 1)] for b in bins[n]['bins']]}) for n in bins])


def spoil(kind, c):
    if kind == 'a counter is missing':
        del c['ExitStreamCount']
    elif kind == 'a bin is missing':
        c['ExitStreamCount']['bins'].pop()
    elif kind == 'other counter':
        c['ExitCircuitCount'] = c.pop('ExitStreamCount')
    return c


def server(h, **kw):
    ts = tally_server(h, **kw)
    for u in UIDS:
        ts.set_client_status(u, status('DataCollector' if u[0] == 'd' else 'ShareKeeper', u, h.now))
    return ts


def alive(h, ts):
    for u in ts.clients:
        ts.clients[u]['alive'] = h.now


def start(h, ts):
    alive(h, ts)
    h.quiet('the event loop', ts.refresh_loop)
    h.check(ts.collection_phase is not None, 'the round has started')
    for u in UIDS[:2]:
        ts.set_start_result(u, {'sk0': 'share of ' + u})


@harness(cover=KINDS, bounds='three clients and two counters, one of two bins; any counts, and times of the start, the end and the answers; '
         'each of the clients may return what it should not')
def results(h):
    bins = {'ExitStreamCount': {'bins': [[0.0, 1.0], [1.0, INF]]}, 'ZeroCount': {'bins': [[0.0, INF]]}}
    h.now = 5000.0
    ts = server(h, counters=bins, results=T.normalise_path('/tmp'))
    j = written(h)
    opened = []
    h.patch(T, 'open', lambda path, mode='r': Sink(path, opened))
    start(h, ts)
    kind = h.choice('kind', KINDS)
    bad = h.choice('who', UIDS) if kind not in ('whole', 'never started') else None
    if kind != 'never started':
        ts.set_start_result('sk0', {'result': 'success'})
    else:
        # the share keeper never answers; it is asked to stop all the same
        bad = 'sk0'
    begin = h.now
    h.now = h.now + 100.0 + h.choice('late', [0, 0.25, 7.5])
    alive(h, ts)
    h.quiet('the event loop', ts.refresh_loop)
    stopping = h.now
    total = dict([(n, [0] * len(bins[n]['bins'])) for n in bins])
    for u in UIDS:
        h.now = h.now + h.real('answer', 0, 30)
        if u == bad and kind == 'silent':
            continue
        data = {'Config': {'name': u}}
        if u == bad and kind == 'empty':
            data['Counts'] = {}
        elif u != bad or kind not in ('no counts', 'never started'):
            data['Counts'] = counts(h, bins)
            for n in bins:
                total[n] = [a + b[2] for (a, b) in zip(total[n], data['Counts'][n]['bins'])]
            if u == bad:
                spoil(kind, data['Counts'])
        h.quiet('the answer', ts.set_stop_result, u, data)
    alive(h, ts)
    h.quiet('the event loop', ts.refresh_loop)
    h.cover(kind)
    if kind == 'silent':
        h.check(not j.written and ts.collection_phase is not None, 'nothing is published before all have answered')
        return
    names = sorted([p for (p, o) in j.written])
    outcome = [o for (p, o) in j.written if o is not None and 'Context' in o]
    tally = [o for (p, o) in j.written if o is not None and 'Context' not in o]
    h.check(len(outcome) == 1, 'one outcome')
    h.check(('Tally' in outcome[0], len(tally)) == ((True, 1) if kind == 'whole' else (False, 0)), 'a tally only if all have returned all counts', kind)
    # nothing else in the outcome is a count
    h.check(sorted(outcome[0]) == (['Context', 'Tally'] if kind == 'whole' else ['Context']), 'nothing else is published')
    when = '%d-%d.json' % (int(round(begin)), int(round(stopping)))
    want = ['/tmp/privcount.outcome.' + when] + (['/tmp/privcount.tallies.' + when] if kind == 'whole' else [])
    h.check(names == want, 'the files are named after the round', '%s' % names)
    if kind == 'whole':
        for o in (tally[0], outcome[0]['Tally']):
            h.check(sorted(o) == sorted(bins), 'all counters')
            for n in bins:
                h.check([b[:2] for b in o[n]['bins']] == bins[n]['bins'], 'all bins')
                for (b, t) in zip(o[n]['bins'], total[n]):
                    h.check((b[2] - t) % M == 0, 'the sum of the counts')
                    h.check(h.And(2 * b[2] < M + 1, 2 * b[2] > -M - 1), 'as a signed number')
    t = outcome[0]['Context']['Time']
    h.check(h.And(t['Start'] == begin, t['Stopping'] == stopping, t['End'] == h.now), 'the times of the round')
    h.check(h.And(t['CollectStopping'] == stopping - begin, t['CollectEnd'] == h.now - begin, t['StoppingDelay'] == h.now - stopping), 'the durations')
    h.check(sorted(outcome[0]['Context']['DataCollector']) == ['dc0', 'dc1'] and sorted(outcome[0]['Context']['ShareKeeper']) == ['sk0'],
            'the context names all clients')
    h.check(outcome[0]['Context']['TallyServer']['Config']['noise'] == ts.config['noise'], 'the noise of the round')


class Sink(object):
    'a file that is not written'
    def __init__(self, name, log):
        self.name = name
        log.append(name)

    def write(self, text):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Os(object):
    'the file system of the tally server, as far as links are concerned'
    def __init__(self, h):
        self.made = []
        self.path = self
        self.there = h.flag('left over')

    def __getattr__(self, name):
        return getattr(os.path if hasattr(os.path, name) and not hasattr(os, name) else os, name)

    def exists(self, p):
        return self.there if os.path.basename(p).endswith('.tmp') else os.path.exists(p)

    def remove(self, p):
        self.there = False
        self.made.append(('remove', os.path.basename(p)))

    unlink = remove

    def symlink(self, a, b):
        if self.there:
            raise OSError('exists')
        self.made.append(('link', os.path.basename(b), a))

    def rename(self, a, b):
        self.made.append(('rename', os.path.basename(a), os.path.basename(b)))


MODEL = {'packet_model': {
    'state_space': ['s1', 'sEnd'], 'observation_space': ['+', '-', 'F'], 'start_probability': {'s1': 1.0},
    'transition_probability': {'s1': {'s1': 0.5, 'sEnd': 0.5}, 'sEnd': {}},
    'emission_probability': {'s1': {'+': [0.75, 1.0, 2.0, 0.0], '-': [0.25, 3.0, 4.0, 0.0]}, 'sEnd': {'F': [1.0]}}}}


@harness(group='b', cover=['updated', 'failed', 'invalid'], bounds='a round with a traffic model and tallies of any sign, or one that fails')
def models(h):
    h.now = 5000.0
    model = deepcopy(MODEL)
    tm = T.TrafficModel(model)
    tm.register_counters()
    bins = dict([(n, {'bins': [[0.0, INF]]}) for n in tm.get_all_counter_labels()])
    ts = server(h, counters=bins, traffic_model=model, results='/tmp')
    j = written(h)
    h.patch(T, 'open', lambda path, mode='r': Sink(path, []))
    fs = Os(h)
    h.patch(T, 'os', fs)
    start(h, ts)
    ts.set_start_result('sk0', {'result': 'success'})
    h.now = h.now + 100.0
    alive(h, ts)
    h.quiet('the event loop', ts.refresh_loop)
    kind = h.choice('kind', ['counts', 'failed', 'invalid'])
    for u in UIDS:
        c = dict([(n, {'bins': [[0.0, INF, (7 if u == 'dc0' and 'Transition' in n else 0)]]}) for n in bins])
        if u == 'dc0':
            for o in '+-':
                c['ExitStreamTrafficModelEmissionCount_s1_' + o]['bins'][0][2] = h.int('count', -5, 50) % M
        data = {'Config': {'name': u}, 'Counts': c}
        if kind == 'failed' and u == 'dc1':
            del data['Counts']
        h.quiet('the answer', ts.set_stop_result, u, data)
    if kind == 'invalid':
        broken = deepcopy(MODEL)
        how = h.choice('how', ['empty', 'none', 'too likely'])
        if how == 'too likely':
            broken['packet_model']['transition_probability']['s1']['s1'] = 1.0
        h.patch(T.TrafficModel, 'update_from_tallies', lambda *a, **kw: {'empty': {}, 'none': None}.get(how, broken))
    alive(h, ts)
    h.quiet('the event loop', ts.refresh_loop)
    h.check(model == MODEL, 'the model of the round stays as it was')
    outcome = [o for (p, o) in j.written if o is not None and 'Context' in o]
    files = [(p, o) for (p, o) in j.written if 'privcount.traffic.model' in (p or '')]
    h.check(len(outcome) == 1, 'one outcome')
    if kind == 'failed':
        h.check('UpdatedTrafficModel' not in outcome[0] and not files and not fs.made, 'no model without a tally')
        h.cover('failed')
        return
    h.check(len(files) == 1 and files[0][1] == outcome[0]['UpdatedTrafficModel'], 'the updated model is published')
    links = [m for m in fs.made if m[0] != 'remove']
    if kind == 'invalid':
        h.check(not fs.made, 'an invalid model does not replace the latest one')
        h.cover('invalid')
        return
    h.check(T.check_traffic_model_config(files[0][1]), 'a valid model')
    h.check(links == [('link', '.privcount.traffic.model.json.tmp', files[0][0]),
                      ('rename', '.privcount.traffic.model.json.tmp', 'traffic.model.latest.json')], 'and becomes the latest one in one step')
    h.cover('updated')
