# -*- coding: utf-8 -*-
'C31 a round goes from the collectors to the keepers, to counting, and to its results'
from hx import harness
from common import INF
from server import tally_server, status, written, T

M = T.counter_modulus()


class Round(object):
    'what a round is supposed to do'
    def __init__(self, dcs, sks, start, period):
        self.dcs, self.sks, self.start, self.period = dcs, sks, start, period
        self.shares = {}          # of each collector that has answered
        self.confirmed = set()
        self.stage = 'collectors'
        self.failed = False
        self.open = set()
        self.counts = {}
        self.over = False

    def tick(self, now):
        if self.stage == 'stopping':
            self.over = not self.open and (self.failed or now - self.start >= self.period)
        elif now - self.start >= self.period:
            self.failed = self.stage == 'collectors'
            self.stage = 'stopping'
            self.open = set(self.dcs + self.sks)

    def wants(self, u):
        if self.stage == 'stopping':
            return 'stop' if u in self.open else None
        if self.stage == 'collectors' and u in self.dcs and u not in self.shares:
            return 'start'
        if self.stage == 'keepers' and u in self.sks and u not in self.confirmed:
            return 'start'

    def started(self, u, data):
        if data is None or self.stage == 'stopping':
            return
        if u in self.dcs and self.stage == 'collectors':
            self.shares.setdefault(u, data)
            if len(self.shares) == len(self.dcs):
                self.stage = 'keepers'
        elif u in self.sks and self.stage == 'keepers':
            self.confirmed.add(u)
            if len(self.confirmed) == len(self.sks):
                self.stage = 'counting'

    def stopped(self, u, data):
        if data is None or self.stage != 'stopping' or u not in self.open:
            return
        self.open.discard(u)
        if data.get('Counts'):
            self.counts[u] = data['Counts']
        else:
            self.failed = True


class World(object):
    def __init__(self, h, nd, nk, **kw):
        self.h = h
        h.now = 1000.0
        self.ts = tally_server(h, dc_threshold=nd, sk_threshold=nk, **kw)
        self.json = written(h)
        self.dcs = ['dc%d' % i for i in range(nd)]
        self.sks = ['sk%d' % i for i in range(nk)]
        self.round = None
        self.rounds = 0
        self.n = 0
        self.results = 0
        self.state = dict([(u, 'idle') for u in self.dcs + self.sks])
        for u in self.dcs + self.sks:
            self.checkin(u)

    def kind(self, u):
        return 'DataCollector' if u in self.dcs else 'ShareKeeper'

    def checkin(self, u, answer=None):
        (h, ts) = (self.h, self.ts)
        h.quiet('a status', ts.set_client_status, u, status(self.kind(u), u, h.now, self.state[u]))
        stop = h.quiet('asking whether to stop', ts.get_stop_config, u)
        start = h.quiet('asking whether to start', ts.get_start_config, u) if stop is None else None
        if self.round is None:
            want = 'stop' if self.state[u] == 'active' else None
        else:
            want = self.round.wants(u)
        h.check([stop is not None, start is not None] == [want == 'stop', want == 'start'],
                'a client is started and stopped when it is its turn', want)
        if want == 'stop':
            wanted = self.round is not None and not self.round.failed
            h.check(stop == {'send_counters': wanted}, 'counts are asked for if the round was a success so far')
        elif want == 'start' and u in self.dcs:
            h.check(sorted(start['sharekeepers']) == self.sks, 'shares for all keepers')
            h.check(start['counters'] == ts.config['counters'] and start['noise'] == ts.config['noise'] and
                    start['noise_weight'] == ts.config['noise_weight'] and start['dc_threshold'] == ts.config['dc_threshold'] and
                    start['collect_period'] == ts.config['collect_period'], 'the configuration of the round')
        elif want == 'start':
            h.check(sorted(start['shares']) == sorted([self.round.shares[d][u] for d in self.dcs]), 'one share from each collector')
            h.check(start['counters'] == ts.config['counters'] and start['noise'] == ts.config['noise'] and
                    start['noise_weight'] == ts.config['noise_weight'] and start['dc_threshold'] == ts.config['dc_threshold'] and
                    start['collect_period'] == ts.config['collect_period'], 'the configuration of the round')
        if want is not None and answer is not None:
            (self.start_answer if want == 'start' else self.stop_answer)(u, answer)

    def start_answer(self, u, answer):
        data = None
        if answer != 'refusal':
            self.state[u] = 'active'
            self.n += 1
            data = dict([(k, 'share %s %s %d' % (u, k, self.n)) for k in self.sks]) if u in self.dcs else {}
            if u in self.sks:
                data = {'result': 'success'}
        self.h.quiet('the answer to a start', self.ts.set_start_result, u, data)
        if self.round is not None:
            self.round.started(u, data)

    def stop_answer(self, u, answer):
        self.state[u] = 'idle'
        data = {'Config': {'name': u}}
        if answer == 'refusal':
            data = None
        elif answer == 'empty':
            data['Counts'] = {}
        elif answer != 'none':
            data['Counts'] = dict([(n, {'bins': [[0.0, INF, self.h.int('count', 0, M - 1)]]}) for n in self.ts.config['counters']])
        self.h.quiet('the answer to a stop', self.ts.set_stop_result, u, data)
        if self.round is not None:
            self.round.stopped(u, data)

    def tick(self, dt):
        (h, ts) = (self.h, self.ts)
        h.now = h.now + dt
        for u in self.dcs + self.sks:
            if u in ts.clients:
                ts.clients[u]['alive'] = h.now
        before = len(self.json.written)
        ready = [u for u in self.dcs + self.sks if ts.clients[u]['state'] == 'idle']
        h.quiet('the event loop', ts.refresh_loop)
        if self.round is None:
            go = len(ready) == len(self.dcs) + len(self.sks)
            h.check((ts.collection_phase is not None) == go, 'a round starts when all are ready')
            if go:
                self.round = Round(self.dcs, self.sks, h.now, ts.config['collect_period'])
            h.check(len(self.json.written) == before, 'results only at the end of a round')
            return
        self.round.tick(h.now)
        h.check((ts.collection_phase is None) == self.round.over, 'the round is over when all have answered')
        self.finish(self.json.written[before:])

    def finish(self, new):
        (h, r) = (self.h, self.round)
        if not r.over:
            h.check(not new, 'results only at the end of a round')
            return
        good = not r.failed
        self.rounds += 1
        self.round = None
        h.check(self.ts.num_completed_collection_phases == self.rounds, 'each round is counted once')
        outcomes = [o for (p, o) in new if 'Context' in o]
        h.check(len(outcomes) == 1, 'one outcome for each round')
        tallies = [o for (p, o) in new if 'Context' not in o]
        h.check([len(tallies), 'Tally' in outcomes[0]] == [1, True] if good else [len(tallies), 'Tally' in outcomes[0]] == [0, False],
                'a tally exactly when all clients have returned their counts')
        if good:
            for n in self.ts.config['counters']:
                total = 0
                for u in r.counts:
                    total = total + r.counts[u][n]['bins'][0][2]
                for o in (tallies[0], outcomes[0]['Tally']):
                    got = o[n]['bins'][0][2]
                    h.check((got - total) % M == 0, 'the tally is the sum of what they have counted')
            h.cover('tally')
        else:
            h.cover('failure')


DETOURS = ['none', 'lost answer', 'refusal', 'none at stop', 'empty at stop', 'early end', 'late answer', 'second answer', 'again']


def story(nd, nk):
    'a round without incidents'
    out = [('tick', 60)]
    out += [('dc', i) for i in range(nd)] + [('sk', i) for i in range(nk)]
    out += [('tick', 100)]
    return out + [('sk', i) for i in range(nk)] + [('dc', i) for i in range(nd)] + [('tick', 60)]


def play(h, nd, nk, detours):
    w = World(h, nd, nk)
    for (i, (what, arg)) in enumerate(story(nd, nk)):
        detour(h, w, detours.get(i, 'none'), what, arg)
    # everybody goes on until the round is over
    for i in range(2):
        for u in w.dcs + w.sks + w.sks + w.dcs:
            w.checkin(u, 'counts')
        w.tick(100)
    for u in w.dcs + w.sks:
        w.checkin(u, 'counts')
    w.tick(1)
    h.check(w.rounds >= 1, 'every round comes to an end when the clients are there')
    for d in detours.values():
        h.cover(d)


@harness(cover=['tally', 'failure'] + DETOURS, bounds='2 collectors and 1 keeper (thorough: 1 to 2 of each), and an incident '
         'at any step of the round: answers that are lost, repeated, late, refused or without counts, clients that check in again, '
         'and an early end of the round; any counts')
def incidents(h):
    (nd, nk) = h.choice('clients', [(2, 1)] if h.tier == 'quick' else [(1, 1), (2, 1), (1, 2), (2, 2)])
    n = len(story(nd, nk))
    play(h, nd, nk, {h.choice('where', range(1, n)): h.choice('what', DETOURS)})


def pairs(h, nd, nk):
    n = len(story(nd, nk))
    i = h.choice('first', range(1, n - 1))
    play(h, nd, nk, {i: h.choice('what', DETOURS[1:]), h.choice('second', range(i + 1, n)): h.choice('what', DETOURS[1:])})


@harness(group='c', tiers=('thorough',), cover=['tally', 'failure'], thorough_wall=1800, max_paths=400000,
         bounds='two incidents in a round of one collector and one keeper')
def two_incidents(h):
    pairs(h, 1, 1)


@harness(group='d', tiers=('thorough',), cover=['tally', 'failure'], thorough_wall=3000, max_paths=400000,
         bounds='two incidents in a round of two collectors and one keeper')
def two_incidents_of_three(h):
    pairs(h, 2, 1)


def detour(h, w, d, what, arg):
    if what == 'tick':
        u = w.dcs[0]
    else:
        u = (w.dcs if what == 'dc' else w.sks)[arg]
    wants = w.round.wants(u) if w.round else None
    if d == 'early end':
        w.tick(h.real('end', 0, 200))
    elif d == 'again':
        for x in w.dcs + w.sks:
            w.checkin(x)
    if d == 'late answer':
        # an answer to a start arrives in any state of the round
        for x in (w.dcs[-1], w.sks[-1]):
            w.start_answer(x, 'yes')
    if what == 'tick':
        w.tick(arg)
        return
    if d == 'lost answer':
        w.checkin(u)
    elif d == 'refusal':
        w.checkin(u, 'refusal')
    elif d in ('none at stop', 'empty at stop') and wants == 'stop':
        w.checkin(u, d.split()[0])
    else:
        w.checkin(u, 'yes')
    if d == 'second answer' and wants:
        (w.start_answer if wants == 'start' else w.stop_answer)(u, 'yes')


@harness(group='b', cover=['tally', 'failure', 'three rounds'], bounds='three rounds in a row, each of which ends early, before the keepers have '
         'started, or as planned')
def rounds_do_not_mix(h):
    w = World(h, 1, 1)
    for i in range(3):
        kind = h.choice('kind', ['whole', 'collectors', 'keepers'])
        for u in w.dcs + w.sks:
            w.checkin(u)
        w.tick(1)
        h.check(w.round is not None, 'the next round')
        if kind != 'collectors':
            w.checkin('dc0', 'yes')
        if kind == 'whole':
            w.checkin('sk0', 'yes')
        w.tick(100)
        for u in w.dcs + w.sks:
            w.checkin(u, 'counts' if kind == 'whole' or kind == 'keepers' and u == 'dc0' else 'none')
        w.tick(1)
        h.check(w.rounds == i + 1, 'every round comes to an end')
    h.cover('three rounds')
