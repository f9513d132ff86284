# -*- coding: utf-8 -*-
'C46 a collector that hears nothing from Tor says so'
from hx import harness
from common import plain_logs, Rng
from nodes import data_collector, reset, start_config, pending, stream_event, FP
from twisted.internet import reactor
from privcount.counter import counter_modulus
import privcount.data_collector as D
import privcount.counter as C

CONTROL, SILENCE = 10, 3600
FLAGS = {'none': [], 'Exit': ['Fast', 'Exit', 'Running'], 'Guard': ['Guard', 'Running'], 'HSDir': ['HSDir'], 'like': ['Exiting', 'BadExit']}
COUNTERS = {'exit': 'ExitStreamCount', 'entry': 'EntryConnectionCount', 'hsdir': 'HSDir2StoreCount', 'hsdir3': 'HSDir3StoreCount', 'zero': 'ZeroCount'}
EXPECTED = {'exit': 'Exit', 'entry': 'Guard', 'hsdir': 'HSDir'}


@harness(cover=['idle', 'pending', 'running', 'warned', 'told', 'quiet', 'not connected', 'no event', 'silent', 'early'],
         bounds='all delays and times; with or without a connection and an event; flags of any kind, and counters that need them or not')
def reports(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=counter_modulus())
    dc = data_collector(h, ['k1'])
    h.now = 1000
    what = h.choice('counter', ['exit', 'entry', 'zero'])
    flags = h.choice('flags', ['none', 'Exit', 'Guard', 'like'])
    state = h.choice('state', ['idle', 'pending', 'running'])
    h.cover(state)
    trouble, late, event = False, False, None
    inf = float('inf')
    if state != 'idle':
        cfg = start_config(['k1'], {COUNTERS[what]: [[0.0, inf]]})
        d = cfg['defer_time'] = h.real('defer', 0, 2 ** 20)
        h.check(dc.do_start(cfg) is not None, 'started')
        h.now = h.now + d
    if state == 'running':
        begun = h.now
        h.now = begun + h.real('early or late', -5, 5) if h.flag('not on time') else begun
        h.assume(h.now >= 1000)
        (p,) = pending()
        p.cancel()
        p.f(*p.a, **p.kw)
        agg = dc.aggregator
        link = h.choice('link', ['none', 'talking', 'processing'])
        if link != 'none':
            agg.buildProtocol(None).state = {'talking': 'discovering', 'processing': 'processing'}[link]
        if FLAGS[flags]:
            agg.set_flag_list(' '.join(FLAGS[flags]))
        if h.flag('event'):
            h.now = h.now + h.real('until the event', 0, 2 ** 20)
            agg.set_fingerprint(FP)
            agg.handle_event(stream_event())
            event = h.now
        h.quiet('status', dc.get_status)
    h.now = h.now + h.real('later', 0, 2 ** 20)
    if state == 'running':
        age = h.now - begun
        late = h.And(link != 'processing', age > CONTROL)
        none = h.And(event is None, age > SILENCE)
        old = False if event is None else event < h.now - SILENCE
        trouble = h.And(age > 0, h.Or(late, none, old))
    logs = []
    h.on_log = lambda level, msg, a: logs.append(level)
    h.quiet('a check', dc.check_aggregator)
    h.on_log = None
    expected = EXPECTED.get(what) in FLAGS[flags]
    warned = [l for l in logs if l in ('warning', 'error', 'critical')]
    told = [l for l in logs if l == 'info']
    h.check(h.Iff(len(warned) == 1, h.And(trouble, h.Or(late, expected))), 'it warns without a connection, and if events are expected', '%s %s' % (what, flags))
    h.check(len(warned) <= 1, 'once')
    h.check(h.Or(h.Not(trouble), len(warned) + len(told) > 0), 'it says so in any case')
    h.observe('warned', len(warned))
    h.cover('warned' if warned else 'told' if told else 'quiet')
    if state == 'running':
        if trouble:
            h.cover('not connected' if link != 'processing' else 'no event' if event is None else 'silent')
        else:
            h.cover('early')


@harness(group='b', cover=['running', 'stopped', 'late'], bounds='every delay; stops before and after the start; any time of the check')
def looks_by_itself(h):
    'a collector looks after its connection once it should be there'
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=counter_modulus())
    dc = data_collector(h, ['k1'])
    h.now = 1000
    cfg = start_config(['k1'])
    d = cfg['defer_time'] = h.real('defer', 0, 2 ** 20)
    h.check(dc.do_start(cfg) is not None, 'started')
    (p,) = pending()
    h.check(p.delay == d, 'it listens after the delay')
    h.now = h.now + d
    h.now = h.now + h.choice('a moment', [0.5])
    early = h.flag('stopped early')
    if early:
        dc.do_stop({'send_counters': False})
        h.cover('stopped')
    p.cancel()
    h.quiet('the start', p.f, *p.a, **p.kw)
    ps = pending()
    if early:
        h.check(not ps, 'nothing to look after')
        return
    h.check(len(ps) == 1, 'one check is scheduled')
    h.check(h.And(ps[0].delay > CONTROL, ps[0].delay <= CONTROL + 60), 'soon after the connection should be there')
    if h.flag('stopped'):
        dc.do_stop({'send_counters': False})
    else:
        h.cover('running')
    h.now = h.now + ps[0].delay
    logs = []
    h.on_log = lambda level, msg, a: logs.append(level)
    h.quiet('the check', ps[0].f, *ps[0].a, **ps[0].kw)
    h.check((len([l for l in logs if l == 'info' or l == 'warning']) > 0) == (dc.aggregator is not None), 'it says that there is no connection')
    h.cover('late')


@harness(group='b', cover=['expected', 'not expected'], bounds='one or two counters, all combinations of the flags that matter')
def expectations(h):
    'events are expected of relays that can see them'
    plain_logs(h)
    reset()
    names = [COUNTERS[h.choice('counter', sorted(COUNTERS))] for i in range(h.choice('counters', [1, 2]))]
    fl = [f for f in ('Guard', 'Exit', 'HSDir', 'HSDir3') if h.flag(f)] + ['Running', 'Valid']
    want = False
    for n in names:
        for (prefix, f) in (('Entry', 'Guard'), ('Exit', 'Exit'), ('HSDir2', 'HSDir'), ('HSDir3', 'HSDir3')):
            want = want or (n.startswith(prefix) and f in fl)
    form = h.choice('form', ['list', 'text', 'dict'])
    cs = dict([(n, {}) for n in names]) if form == 'dict' else names
    got = h.quiet('expectations', C.are_events_expected, cs, ' '.join(fl) if form == 'text' else fl)
    h.check(bool(got) == want, 'events are expected exactly of relays that can see them', '%s %s' % (names, fl))
    h.check(not C.are_events_expected([], fl) and not C.are_events_expected(None, fl), 'nothing is expected without counters')
    h.cover('expected' if want else 'not expected')
