# -*- coding: utf-8 -*-
'C10 what a client checks when a round starts and stops'
from copy import deepcopy
from hx import harness
from common import plain_logs, INF, Rng
from nodes import data_collector, reset, run_pending, share_keeper, start_config as node_config
import privcount.node as N

START = {
    'counters': {'ExitStreamCount': {'bins': [[0.0, INF]]}, 'ExitStreamByteRatio': {'bins': [[0.0, 1.0], [1.0, INF]]}},
    'noise': {'counters': {'ExitStreamCount': {'sigma': 4.0}, 'ExitStreamByteRatio': {'sigma': 2.0}}},
    'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 60}


def client(h):
    c = N.PrivCountClient('/nonexistent')
    c.config = {'delay_period': h.real('delay', 0, 2 ** 20), 'always_delay': False,
                'sigma_decrease_tolerance': h.real('tol', 0, 16), 'name': 'x'}
    return c


def start_config(h, sigma):
    s = deepcopy(START)
    s['noise']['counters']['ExitStreamCount']['sigma'] = sigma
    return s


def counts():
    return {'ExitStreamCount': {'bins': [[0.0, INF, 7]]}}


@harness(cover=['started', 'refused', 'resent', 'no counts'],
         bounds='two rounds and a third start, arbitrary sigmas, times, delay and tolerance; results wanted or not, '
         'asked for once or twice')
def delay_is_enforced(h):
    plain_logs(h)
    c = client(h)
    delay, tol = c.config['delay_period'], c.config['sigma_decrease_tolerance']
    h.now = h.real('t', 0, 2 ** 20)
    ref = end = None
    for i in range(3):
        s = h.real('sigma', 0, 4096)
        h.now = h.now + h.real('gap', 0, 2 ** 20)
        got = c.check_start_config(start_config(h, s))
        if end is None:
            want = True
        else:
            want = h.now >= end + h.Ite(ref - s > tol, delay, 0)
        h.check(h.Iff(got is not None, want), 'a round starts only when the delay for its noise is over')
        h.observe('started', got is not None)
        if got is None:
            h.cover('refused')
            return
        h.check(sorted(got) == sorted(START['counters']) and
                h.And(got['ExitStreamCount']['sigma'] == s, got['ExitStreamByteRatio']['sigma'] == 2.0) and
                got['ExitStreamByteRatio']['bins'] == START['counters']['ExitStreamByteRatio']['bins'],
                'the counters of the round have the bins and sigmas of the configuration')
        h.cover('started')
        if i == 2:
            return
        began = h.now
        length = h.real('length', 0, 2 ** 20)
        h.assume(length > 0)
        h.now = h.now + length
        wanted = h.flag('wanted')
        have = h.flag('have') if i == 0 else True
        r = c.check_stop_config({'send_counters': wanted}, counts() if have else None)
        sent = wanted and have
        h.check(('Counts' in r) == sent and (not sent or r['Counts'] == counts()),
                'counts are sent when they are wanted')
        t = r['Config']['Time']
        h.check(h.And(t['Start'] == began, t['Stop'] == h.now, t['Collect'] == length), 'the reported times')
        if sent:
            end = h.now
            if ref is None:
                ref = s
            elif ref - s > tol:
                ref = s
        else:
            h.cover('no counts')
        if i == 0 and h.flag('again'):
            # the tally server asks again, after the counts have gone
            h.now = h.now + h.real('wait', 0, 2 ** 20)
            r = c.check_stop_config({'send_counters': True}, None)
            h.check('Counts' not in r, 'counts are sent once')
            h.cover('resent')


MODEL = {'packet_model': {
    'state_space': ['s1', 'sEnd'], 'observation_space': ['+', '-', 'F'], 'start_probability': {'s1': 1.0},
    'transition_probability': {'s1': {'s1': 0.5, 'sEnd': 0.5}, 'sEnd': {}},
    'emission_probability': {'s1': {'+': [0.75, 1.0, 2.0, 0.0], '-': [0.25, 3.0, 4.0, 0.0]}, 'sEnd': {'F': [1.0]}}}}
LABELS = sorted(N.TrafficModel(deepcopy(MODEL)).get_all_counter_labels())
MISSING = ['counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period']


@harness(group='b', cover=['good', 'refused'], bounds='one kind of defect in the start command, every sigma, weight and '
         'threshold')
def bad_start_is_refused(h):
    plain_logs(h)
    c = client(h)
    kind = h.choice('kind', ['good', 'sigma', 'weight', 'threshold', 'bins', 'unknown', 'sets', 'model', 'bad model', 'keeper'] + MISSING)
    s = deepcopy(START)
    good = True
    if kind in MISSING:
        del s[kind]
        good = False
    elif kind == 'sigma':
        x = s['noise']['counters']['ExitStreamCount']['sigma'] = h.real('sigma', -8, 8)
        good = x >= 0
    elif kind == 'weight':
        x = s['noise_weight']['*'] = h.real('weight', -8, 8)
        good = x >= 0
    elif kind == 'threshold':
        x = s['dc_threshold'] = h.int('threshold', -3, 2 ** 21)
        good = h.And(x >= 1, x <= 10 ** 6)
    elif kind == 'bins':
        a, b = h.real('a', -4, 4), h.real('b', -4, 4)
        s['counters']['ExitStreamByteRatio']['bins'] = [[0.0, a], [b, 8.0]]
        good = h.And(a > 0, b < 8.0, b >= a)
    elif kind == 'unknown':
        s['counters']['NoSuchCount'] = {'bins': [[0.0, INF]]}
        s['noise']['counters']['NoSuchCount'] = {'sigma': 1.0}
        good = False
    elif kind == 'sets':
        del s['noise']['counters']['ExitStreamByteRatio']
    elif kind == 'model':
        # the counters of the model are known then, and only then
        s['traffic_model'] = deepcopy(MODEL)
        for n in LABELS:
            s['counters'][n] = {'bins': [[0.0, INF]]}
            s['noise']['counters'][n] = {'sigma': 1.0}
    elif kind == 'bad model':
        s['traffic_model'] = deepcopy(MODEL)
        s['traffic_model']['packet_model']['start_probability']['s1'] = 1.0 + h.choice('off', [-0.5, 0.5])
        good = False
    elif kind == 'keeper':
        # share keepers take counters that they do not know
        s['counters']['NoSuchCount'] = {'bins': [[0.0, INF]]}
        s['noise']['counters']['NoSuchCount'] = {'sigma': 1.0}
    before = deepcopy(s)
    args = {'allow_unknown_counters': True} if kind == 'keeper' else {}
    got, e = h.call(c.check_start_config, s, **args)
    h.check(e is None, 'a bad start command is refused, not an error', '%s %r' % (kind, e))
    if kind == 'sets':
        # counters without noise are not collected
        h.check(got is None or 'ExitStreamByteRatio' not in got, 'no counter without noise')
    else:
        h.check(h.Iff(got is not None, good), 'a start command is accepted exactly when it is valid')
    if kind not in ('sigma', 'weight', 'threshold', 'bins'):
        h.check(s == before, 'the start command is not modified')
    h.observe('ok', got is not None)
    h.cover('good' if got is not None else 'refused')


@harness(group='b', cover=['refused', 'stopped'], bounds='stop before any start, and a refused start during a round')
def refused_start_changes_nothing(h):
    'what a stop reports is about the round that ran'
    plain_logs(h)
    c = client(h)
    h.now = 100
    if h.flag('never'):
        r = h.quiet('a stop without a start', c.check_stop_config, {'send_counters': h.flag('wanted')}, None)
        h.check('Counts' not in r, 'nothing to send')
        h.check(c.check_start_config(start_config(h, 4.0)) is not None, 'a round can start after that')
        h.cover('stopped')
        return
    h.check(c.check_start_config(start_config(h, 4.0)) is not None, 'first')
    h.now = 100 + h.real('later', 0, 100)
    bad = deepcopy(START)
    bad['dc_threshold'] = 0
    h.check(c.check_start_config(bad) is None, 'refused')
    h.now = h.now + 1
    r = c.check_stop_config({'send_counters': True}, counts())
    h.check(r['Config']['Time']['Start'] == 100, 'the times are those of the round that ran')
    h.cover('refused')


@harness(group='c', cover=['sent', 'unwanted', 'nothing to send', 'running'], bounds='four (thorough: five) commands to start, or to stop with results '
         'wanted or not, in any order; to a share keeper and to a data collector')
def commands_in_any_order(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=2 ** 60)
    dc = h.flag('data collector')
    n = data_collector(h, ['k1']) if dc else share_keeper(h, 'k1')
    running = False
    for i in range(4 if h.tier == 'quick' else 5):
        h.now = h.now + 1
        what = h.choice('command', ['start', 'stop', 'stop, unwanted', 'stop, default'])
        if what == 'start':
            c = node_config(['k1'])
            if not dc:
                c['shares'] = []
            r = n.do_start(c)
            if dc:
                h.check((r is not None) == (not running), 'a round starts when none is running')
                run_pending()
            else:
                h.check(r is not None, 'a round starts')
            running = True
            h.cover('running')
            continue
        r = n.do_stop({'send_counters': what == 'stop'} if what != 'stop, default' else {})
        h.check(('Counts' in r) == (running and what == 'stop'), 'the counts of a round are sent when it stops, if they are wanted, and never later')
        h.cover('nothing to send' if not running else 'sent' if what == 'stop' else 'unwanted')
        running = False
        h.check(n.get_status()['state'] == 'idle', 'the node is idle')
