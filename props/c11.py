# -*- coding: utf-8 -*-
'C11 a data collector starts a round'
from base64 import b64encode
from copy import deepcopy
from hx import harness
from common import Rng, plain_logs, values, INF
from nodes import (reset, data_collector, start_config, keeper_map, digest, public, pending, run_pending, FP,
                   stream_event)
from twisted.internet import reactor, task
from privcount.crypto import decrypt, load_private_key_string
from privcount.counter import counter_modulus


def opened(share, name):
    return decrypt(load_private_key_string('PRIVATE-KEY ' + name), share['secret'])


@harness(cover=['started'], bounds='1 to 3 share keepers, 3 bins, every blinding value')
def shares_are_sealed(h):
    plain_logs(h)
    reset()
    names = ['k1', 'k2', 'k3'][:h.choice('keepers', [1, 2, 3])]
    dc = data_collector(h, names)
    h.rng = Rng(h, below=counter_modulus())
    shares = dc.do_start(start_config(names))
    draws = [d[-1] for d in h.rng.bits]
    h.check(sorted(shares) == sorted([digest(n) for n in names]), 'a share for each share keeper')
    h.check(len(draws) == 3 * len(names), 'a value for each keeper and bin')
    used = []
    for n in names:
        s = shares[digest(n)]
        h.check(s['sk_uid'] == digest(n) and s['dc_name'] == 'dc1', 'the share names both sides')
        for other in names:
            if other != n:
                got, e = h.call(opened, s, other)
                h.check(e is not None, 'a share keeper cannot open the share of another')
        secret = h.quiet('the share keeper opens its share', opened, s, n)
        h.check(sorted(secret) == ['ExitStreamByteHistogram', 'ExitStreamCount'], 'all the counters')
        for k in sorted(secret):
            for v in values(secret, k):
                hit = [i for i in range(len(draws)) if h.is_same(draws[i], v)]
                h.check(len(hit) >= 1, 'a blinding value')
                used.extend(hit)
    h.check(len(set(used)) == 3 * len(names) if h.sym else True, 'no blinding value is used twice')
    # nothing but the sealed secret says anything about the blinding values
    for n in names:
        s = shares[digest(n)]
        h.check(sorted(s) == ['dc_name', 'secret', 'sk_uid'] and
                sorted(s['secret']) == ['pk_encrypted_secret_key', 'sym_encrypted_data'], 'nothing in the clear')
    h.check(dc.get_status()['state'] == 'active', 'active')
    h.cover('started')


KINDS = ['same', 'missing', 'extra', 'other', 'duplicate', 'same twice', 'none configured', 'no field', 'no counters']


@harness(cover=KINDS, bounds='2 configured share keepers and 9 ways in which a start command can name them')
def share_keepers_are_the_configured_ones(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=counter_modulus())
    kind = h.choice('kind', KINDS)
    dc = data_collector(h, [] if kind == 'none configured' else ['k1', 'k2'])
    c = start_config({'same': ['k1', 'k2'], 'missing': ['k1'], 'extra': ['k1', 'k2', 'k3'],
                      'other': ['k1', 'k3']}.get(kind, ['k1', 'k2']))
    if kind == 'duplicate':
        c['sharekeepers'] = {'a': b64encode(public('k1')), 'b': b64encode(public('k1'))}
    elif kind == 'same twice':
        c['sharekeepers'] = {'a': b64encode(public('k1')), 'b': b64encode(public('k1')), 'c': b64encode(public('k2'))}
    elif kind == 'no field':
        del c['sharekeepers']
    elif kind == 'no counters':
        del c['counters']
    got = h.quiet('a start command is refused without an error', dc.do_start, c)
    h.check((got is not None) == (kind == 'same'), 'starts only with exactly the configured share keepers', kind)
    h.check(dc.get_status()['state'] == ('active' if kind == 'same' else 'idle'), 'idle unless started')
    if kind != 'same':
        h.check(len(h.rng.bits) == 0 and not pending(), 'nothing is scheduled after a refusal')
        h.now = h.now + 1
        r = dc.do_stop({'send_counters': True})
        h.check('Counts' not in r, 'no counts after a refusal')
    h.cover(kind)


@harness(group='b', cover=['refused', 'pending', 'running'], bounds='a second start command at any time during a round, '
         'with any sigma')
def running_round_is_not_disturbed(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=counter_modulus())
    dc = data_collector(h, ['k1'])
    h.now = 100
    first = start_config(['k1'])
    h.check(dc.do_start(deepcopy(first)) is not None, 'started')
    running = h.flag('running')
    h.now = h.now + h.real('wait', 0, 2 ** 20)
    if running:
        run_pending()
        dc.aggregator.set_fingerprint(FP)
        dc.aggregator.handle_event(stream_event())
        h.cover('running')
    else:
        h.cover('pending')
    calls = len(reactor.calls)
    second = start_config(['k1'], sigma=h.real('sigma', 0, 64))
    second['collect_period'] = 7
    h.check(dc.do_start(second) is None, 'a second start during a round is refused')
    h.check(len(reactor.calls) == calls, 'nothing is scheduled')
    if h.flag('checkin'):
        dc.get_status()
        dc.check_aggregator()
    h.now = h.now + 1
    r = dc.do_stop({'send_counters': True})
    h.check(('Counts' in r) == running, 'the running round goes on')
    h.check(r['Config']['Time']['Start'] == 100, 'the start time of the running round')
    got = r['Config']['Start']
    h.check(got['collect_period'] == 60 and got['noise'] == first['noise'], 'the configuration of the running round')
    h.cover('refused')


@harness(group='b', cover=['early', 'late', 'never'], bounds='every delay before the aggregator starts, stops before '
         'and after it')
def listening_starts_later(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=counter_modulus())
    dc = data_collector(h, ['k1'])
    c = start_config(['k1'])
    if h.flag('default'):
        del c['defer_time']
        d = 0.0
    else:
        d = c['defer_time'] = h.real('defer', 0, 2 ** 20)
    dc.do_start(c)
    p = pending()
    h.check(len(p) == 1 and p[0].delay == d, 'listening starts after the requested delay')
    connected = lambda: [x for x in reactor.calls if x[0].startswith('connect')]
    h.check(not connected(), 'no connection to tor before that')
    if h.flag('stopped early'):
        h.now = h.now + 1
        r = dc.do_stop({'send_counters': True})
        h.check('Counts' not in r, 'a round that did not start has no counts')
        run_pending()
        h.check(not connected(), 'a round that was stopped does not start later')
        h.check(dc.get_status()['state'] == 'idle', 'idle')
        h.cover('early')
    else:
        run_pending()
        h.check(len(connected()) == 1, 'one connection to tor')
        h.check([l.interval for l in task.loops if l.running] == [600], 'rotation runs at the configured period')
        h.now = h.now + 1
        dc.do_stop({'send_counters': False})
        h.check(connected()[0][-1].disconnected == 1 and not [l for l in task.loops if l.running],
                'stopping disconnects and stops rotating')
        h.cover('late')
    h.cover('never')


@harness(group='c', cover=['over', 'due', 'first'], bounds='a round that is stopped before it begins and a second one; all delays and times')
def second_round_waits_for_itself(h):
    'a start that was put off for one round starts no other one'
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=counter_modulus())
    dc = data_collector(h, ['k1'])
    connected = lambda: [x for x in reactor.calls if x[0].startswith('connect')]
    (due, calls) = ([], [])
    for i in range(2):
        c = start_config(['k1'])
        d = c['defer_time'] = h.real('defer', 0, 2 ** 20)
        old = pending()
        h.check(dc.do_start(c) is not None, 'started')
        new = [x for x in pending() if x not in old]
        h.check(len(new) == 1, 'one start is put off for each round')
        calls.append(new[0])
        due.append(h.now + d)
        if i == 0:
            h.now = h.now + h.real('until the stop', 0.5, 2 ** 20)
            h.assume(h.now < due[0])
            dc.do_stop({'send_counters': False})
            h.now = h.now + h.real('until the next start', 0, 2 ** 20)
            h.assume(h.now <= due[0])
    order = [0, 1] if due[0] < due[1] else [1, 0]
    h.cover('first' if order[0] == 0 else 'over')
    for i in order:
        h.now = due[i]
        if calls[i].active():
            calls[i].cancel()
            h.quiet('a start', calls[i].f, *calls[i].a, **calls[i].kw)
        h.check(len(connected()) == (1 if i == 1 or order[0] == 1 else 0), 'a round begins when it is due, and no earlier')
    h.check(len([l for l in task.loops if l.running]) == 1, 'one round')
    h.cover('due')
