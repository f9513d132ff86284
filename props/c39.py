# -*- coding: utf-8 -*-
'C39 configurations: what is taken up, and what is refused'
from copy import deepcopy
from hx import harness
from common import plain_logs, INF
from nodes import write, scratch, public, digest, reset
import server
import privcount.tally_server as T
import privcount.data_collector as D
import privcount.share_keeper as S
from privcount.counter import max_tally_counter_value, float_accuracy

SIGMAS = {'ExitStreamCount': {'sigma': 4.0}, 'ExitStreamByteHistogram': {'sigma': 2.0}}
BINS = {'ExitStreamCount': {'bins': [[0.0, INF]]}, 'ExitStreamByteHistogram': {'bins': [[0.0, 512.0], [512.0, INF]]}}
SECRET = 'ZGVmZ2hpamtsbW5vcHFyc3R1dnd4eXowMTIzNDU2Nzg=\n'


class Yaml(object):
    'files by name, without their format'
    def __init__(self):
        self.files = {}
        self.dumped = []

    def load(self, f):
        return self.files[f.name]

    def dump(self, o, f, **kw):
        self.dumped.append((f.name, o))


def both(**kw):
    c = {}
    for n in set(BINS) & set(SIGMAS):
        c[n] = dict(BINS[n], **SIGMAS[n])
    return deepcopy(c)


def base():
    d = scratch()
    return {'counters': both(),
            'tally_server': {'key': write('ts.key', 'PRIVATE-KEY ts'), 'cert': write('ts.cert', 'CERT'), 'secret_handshake': write('secret', SECRET),
                             'results': d, 'listen_port': 20001, 'sk_threshold': 1, 'dc_threshold': 1, 'collect_period': 100,
                             'noise_weight': {'*': 1.0}}}


def tally_server(h):
    plain_logs(h)
    reset()
    y = Yaml()
    h.patch(T, 'yaml', y)
    h.patch(T, 'log_error', lambda: None)
    ts = T.TallyServer(write('config', ''))
    return ts, y


def put(y, ts, conf):
    y.files[ts.config_filepath] = deepcopy_but(conf)


def deepcopy_but(c):
    'a copy of the containers'
    if isinstance(c, dict):
        return dict([(k, deepcopy_but(v)) for (k, v) in c.items()])
    if isinstance(c, list):
        return [deepcopy_but(v) for v in c]
    return c


def taken(h, ts, old, before, ok, why):
    h.check(h.Iff(ts.config is not old, ok), 'a configuration is taken up exactly when it is valid', why)
    if ts.config is old:
        h.check(old == before, 'otherwise the one before it stays as it is')
        h.cover('refused')
        return False
    h.cover('taken up')
    return True


FIELDS = ['periods', 'thresholds', 'rate', 'rounds', 'delay']


@harness(cover=['taken up', 'refused', 'lowered'] + FIELDS, bounds='any numbers, in one group of the settings at a time; for the first time or after another configuration')
def numbers(h):
    (ts, y) = tally_server(h)
    old = before = None
    if h.flag('earlier'):
        put(y, ts, base())
        h.quiet('read', ts.refresh_config)
        h.check(ts.config is not None, 'an ordinary configuration is taken up')
        old = ts.config
        before = deepcopy(old)
    conf = base()
    t = conf['tally_server']
    ok = True
    field = h.choice('field', FIELDS)
    h.cover(field)
    (collect, event, checkin) = (100, 600, 600)
    if field == 'periods':
        collect = t['collect_period'] = h.int('collect', -4, 2 ** 31)
        if h.flag('event'):
            event = t['event_period'] = h.int('event period', -4, 2 ** 31)
        if h.flag('checkin'):
            checkin = t['checkin_period'] = h.int('checkin period', -4, 2 ** 31)
        ok = h.And(collect >= 2, event > 0, checkin > 0)
    elif field == 'thresholds':
        sks = t['sk_threshold'] = h.int('keepers', -2, 2 ** 21)
        dcs = t['dc_threshold'] = h.int('collectors', -2, 2 ** 21)
        port = t['listen_port'] = h.int('port', -2, 65535)
        n = h.choice('weights', [0, 1, 2])
        w = dict([('A%d' % i, h.int('weight %d' % i, -4, 2 ** 60)) for i in range(n)])
        total = sum(w.values())
        good = [x >= 0 for x in w.values()]
        if h.flag('default'):
            d = w['*'] = h.choice('default weight', [-1, 0, 1, 5, 2 ** 40])
            good.append(d >= 0)
            total = total + dcs * d
        else:
            good.append(dcs <= n)
        t['noise_weight'] = w
        ok = h.And(good + [sks > 0, dcs > 0, dcs <= 10 ** 6, port > 0, total <= max_tally_counter_value()])
    elif field == 'rate':
        rate = t['circuit_sample_rate'] = h.real('rate', -2, 2)
        cells = t['max_cell_events_per_circuit'] = h.int('cells', -2 ** 31, 2 ** 31)
        ok = h.And(rate >= 0, rate <= 1)
    elif field == 'rounds':
        cont = t['continue'] = h.choice('continue', [True, False, None])
        if cont is None:
            cont = t['continue'] = h.int('count', -2, 2 ** 31)
            ok = cont >= 0
        always = t['always_delay'] = h.choice('always', [True, False, 0, 'yes'])
        ok = h.And(ok, isinstance(always, bool))
    else:
        delay = t['delay_period'] = h.real('delay', -2 ** 20, 2 ** 20)
        tol = t['sigma_decrease_tolerance'] = h.anyreal('tolerance', -1, 1)
        h.assume(h.Or(tol > 2 * float_accuracy(), tol < float_accuracy() / 2))
        ok = tol >= float_accuracy()
    put(y, ts, conf)
    h.quiet('read', ts.refresh_config)
    if not taken(h, ts, old, before, ok, field):
        return
    c = ts.config
    half = collect // 2
    h.check(h.And(c['event_period'] == h.Ite(event > half, half, event), c['checkin_period'] == h.Ite(checkin > half, half, checkin)),
            'events and check-ins happen at least twice in a round')
    if field == 'periods':
        h.check(c['collect_period'] == collect, 'the length of the round')
        if event > half:
            h.cover('lowered')
    elif field == 'thresholds':
        h.check(h.And(c['sk_threshold'] == sks, c['dc_threshold'] == dcs, c['listen_port'] == port), 'the thresholds and the port')
        h.check(c['noise_weight'] == w, 'the weights')
    elif field == 'rate':
        h.check(h.And(h.near(c['circuit_sample_rate'], rate), c['max_cell_events_per_circuit'] == cells), 'the rate and the limit')
    elif field == 'rounds':
        h.check(c['continue'] == cont and c['always_delay'] is always, 'the number of rounds')
    else:
        h.check(c['delay_period'] == h.Ite(delay < 0, 86400, delay), 'the delay, or that of a day')
        h.check(h.near(c['sigma_decrease_tolerance'], tol), 'the tolerance')
    if field != 'rate':
        h.check(c['circuit_sample_rate'] == 1.0 and c['max_cell_events_per_circuit'] == -1, 'everything is counted by default')


BAD = ['nothing', 'no sigma', 'no bins', 'only sigmas', 'only bins', 'unknown', 'one bin', 'two bins', 'inverted', 'overlapping', 'negative sigma']


@harness(group='b', cover=BAD + ['taken up', 'refused', 'one file', 'sigmas', 'same file'], bounds='three places for bins and noise, any sigmas and '
         'bounds of the bins, and one of %d mistakes in them' % len(BAD))
def counters(h):
    (ts, y) = tally_server(h)
    put(y, ts, base())
    h.quiet('read', ts.refresh_config)
    old = ts.config
    before = deepcopy(old)
    conf = base()
    t = conf['tally_server']
    (bins, sigmas) = (deepcopy(BINS), deepcopy(SIGMAS))
    (lo, mid, hi) = [h.real('bound %d' % i, 0, 1024) for i in range(3)]
    s = h.real('sigma', -4, 1024)
    bins['ExitStreamByteHistogram']['bins'] = [[mid, hi], [lo, mid]] if h.flag('unsorted') else [[lo, mid], [mid, hi]]
    sigmas['ExitStreamCount']['sigma'] = s
    ok = h.And(lo < mid, mid < hi, s >= 0)
    bad = h.choice('mistake', BAD)
    H = 'ExitStreamByteHistogram'
    if bad == 'no sigma':
        del sigmas[H]['sigma']
    elif bad == 'no bins':
        del bins[H]['bins']
    elif bad == 'only sigmas':
        del bins[H]
    elif bad == 'only bins':
        del sigmas[H]
    elif bad == 'unknown':
        (bins['NoSuchCount'], sigmas['NoSuchCount']) = (bins['ExitStreamCount'], sigmas['ExitStreamCount'])
    elif bad == 'one bin':
        bins[H]['bins'] = [[lo, hi]]
    elif bad == 'two bins':
        bins['ExitStreamCount']['bins'] = [[0.0, 1.0], [1.0, INF]]
    elif bad == 'inverted':
        bins[H]['bins'] = [[mid, lo], [mid, hi]]
    elif bad == 'overlapping':
        over = h.real('over', 0, 1024)
        h.assume(over < mid)
        bins[H]['bins'] = [[lo, mid], [over, hi]]
        # the second starts before the end of the first, and must end before its start
        ok = h.And(lo < mid, s >= 0, over < hi, hi <= lo)
    elif bad == 'negative sigma':
        h.assume(s < 0)
    if bad not in ('nothing', 'overlapping', 'negative sigma'):
        ok = False
    where = h.choice('where', ['one file', 'sigmas', 'same file'])
    h.cover(where)
    h.cover(bad)
    if where == 'one file':
        conf['counters'] = merged(bins, sigmas)
    else:
        t['counters'] = write('bins', '')
        y.files[t['counters']] = {'counters': deepcopy_but(bins)}
        if where == 'sigmas':
            t['sigmas'] = write('sigmas', '')
            y.files[t['sigmas']] = {'counters': deepcopy_but(sigmas)}
        else:
            conf['counters'] = deepcopy_but(sigmas)
    put(y, ts, conf)
    # in one file, the counters are those that have both
    (got, e) = h.call(ts.refresh_config)
    if where == 'one file' and bad in ('only sigmas', 'only bins'):
        ok = False
    if e is not None:
        raise e
    if not taken(h, ts, old, before, ok, bad):
        return
    c = ts.config
    for n in BINS:
        h.check(c['counters'][n]['bins'] == bins[n]['bins'] and c['noise']['counters'][n]['sigma'] == sigmas[n]['sigma'],
                'the bins and the noise of the files', n)
    h.check(sorted(c['counters']) == sorted(list(BINS) + ['ZeroCount']) == sorted(c['noise']['counters']), 'these counters, and one that stays zero')
    z = (c['counters']['ZeroCount'], c['noise']['counters']['ZeroCount'])
    h.check(z[0]['bins'] == [[-INF, INF]] and z[1]['sigma'] == 0.0, 'which has no noise')
    h.check('sigmas' not in c, 'the sigmas are in one place')


def merged(bins, sigmas):
    c = {}
    for n in set(bins) | set(sigmas):
        c[n] = deepcopy_but(bins.get(n, {}))
        c[n].update(deepcopy_but(sigmas.get(n, {})))
    return c


@harness(group='c', cover=['accept', 'reject', 'both', 'none', 'noise'], bounds='patterns of counters to take and to leave out, with noise to be allocated')
def chosen(h):
    (ts, y) = tally_server(h)
    asked = []

    def allocate(noise, circuit_sample_rate):
        asked.append((deepcopy_but(noise), circuit_sample_rate))
        return {'counters': dict([(k, {'sigma': 7.0}) for k in noise['counters']]), 'privacy': noise['privacy']}
    h.patch(T, 'get_noise_allocation', allocate)
    conf = base()
    t = conf['tally_server']
    names = ['ExitStreamCount', 'ExitCircuitCount', 'EntryConnectionCount', 'ExitStreamByteHistogram']
    bins = dict([(n, {'bins': [[0.0, INF]] if n.endswith('Count') else [[0.0, 1.0], [1.0, INF]]}) for n in names])
    noise = dict([(n, {'sensitivity': 1.0, 'estimated_value': 2.0}) for n in names])
    t['counters'] = write('bins', '')
    y.files[t['counters']] = {'counters': bins}
    where = h.choice('where', ['file', 'here'])
    if where == 'file':
        t['noise'] = write('noise', '')
        y.files[t['noise']] = {'counters': noise, 'privacy': {'epsilon': 0.3, 'delta': 0.001}}
    else:
        conf['counters'] = noise
        conf['privacy'] = {'epsilon': 0.3, 'delta': 0.001}
    rate = t['circuit_sample_rate'] = h.real('rate', 0, 1)
    (a, r) = (h.choice('accept', [None, '', 'Exit', 'Count$', '^Exit.*(Count|Sum)$', 'Nothing']), h.choice('reject', [None, '', 'Circuit', '^Exit', '.']))
    if a is not None:
        t['counter_name_accept'] = a
    if r is not None:
        t['counter_name_reject'] = r
    if h.flag('allocation'):
        t['allocation'] = write('allocation', '')
    import re
    want = [n for n in names if (not a or re.search(a, n)) and not (r and re.search(r, n))]
    put(y, ts, conf)
    h.quiet('read', ts.refresh_config)
    c = ts.config
    h.check(c is not None, 'taken up')
    h.check(len(asked) == 1 and h.near(asked[0][1], rate), 'the noise is allocated for the rate of the samples')
    h.check(sorted(asked[0][0]['counters']) == sorted(want), 'noise is allocated to the counters of the round, and only to them')
    h.check(asked[0][0]['privacy'] == {'epsilon': 0.3, 'delta': 0.001}, 'with these parameters')
    h.check(sorted(c['counters']) == sorted(want + ['ZeroCount']) == sorted(c['noise']['counters']), 'the counters that are wanted')
    h.check([c['noise']['counters'][n]['sigma'] for n in want] == [7.0] * len(want), 'with this noise')
    if 'allocation' in t:
        h.check([n for (n, o) in y.dumped] == [t['allocation']] and sorted(y.dumped[0][1]['counters'])[:9] == sorted(c['noise']['counters'])[:9],
                'the allocation is written')
    else:
        h.check(not y.dumped, 'no allocation is written')
    h.cover('both' if a and r else 'accept' if a else 'reject' if r else 'none')
    h.cover('noise')


DC_BAD = ['nothing', 'no name', 'empty name', 'no keepers', 'no server', 'no port', 'no source', 'always', 'rotate']
SK_BAD = ['nothing', 'no server', 'no port', 'always']


@harness(group='d', cover=DC_BAD + ['taken up', 'refused', 'collector', 'keeper'], bounds='a collector or a keeper that reads its configuration once or twice, '
         'with any delay, period and tolerance, and one of %d mistakes' % len(DC_BAD))
def clients(h):
    plain_logs(h)
    reset()
    y = Yaml()
    kind = h.choice('kind', ['collector', 'keeper'])
    h.cover(kind)
    Mod = D if kind == 'collector' else S
    h.patch(Mod, 'yaml', y)
    h.patch(Mod, 'log_error', lambda: None)
    path = write('client', '')
    key = 'data_collector' if Mod is D else 'share_keeper'

    def conf():
        c = {'tally_server_info': {'ip': '127.0.0.1', 'port': 20001}, 'secret_handshake': write('secret', SECRET)}
        if Mod is D:
            c.update({'name': 'one', 'event_source': {'ip': '127.0.0.1', 'port': 20003}, 'share_keepers': {digest('k1'): 'x'}})
        else:
            c['key'] = write('sk.key', 'PRIVATE-KEY k1')
        return {key: c}
    n = D.DataCollector(path) if Mod is D else S.ShareKeeper(path)
    before = None
    if h.flag('earlier'):
        y.files[path] = conf()
        h.quiet('read', n.refresh_config)
        before = deepcopy(n.config)
        h.check(before is not None, 'an ordinary configuration is taken up')
    c = conf()
    k = c[key]
    bad = h.choice('mistake', DC_BAD if Mod is D else SK_BAD)
    h.cover(bad)
    ok = bad == 'nothing'
    want = {}
    if h.flag('delay'):
        d = k['delay_period'] = h.real('delay period', -2 ** 20, 2 ** 20)
        want['delay_period'] = h.Ite(d < 0, 86400, d)
    else:
        want['delay_period'] = 86400
    tol = k['sigma_decrease_tolerance'] = h.anyreal('tolerance', -1, 1)
    h.assume(h.Or(tol > 2 * float_accuracy(), tol < float_accuracy() / 2))
    ok = h.And(ok, tol >= float_accuracy())
    if bad == 'no name':
        del k['name']
    elif bad == 'empty name':
        k['name'] = ''
    elif bad == 'no keepers':
        del k['share_keepers']
    elif bad == 'no server':
        del k['tally_server_info']
    elif bad == 'no port':
        k['tally_server_info'] = {'ip': '127.0.0.1'}
    elif bad == 'no source':
        del k['event_source']
    elif bad == 'always':
        k['always_delay'] = 1
    elif bad == 'rotate':
        r = k['rotate_period'] = h.int('rotate', -4, 0)
    else:
        if Mod is D:
            place = h.choice('rotate', [None, 'own', 'global', 'both'])
            if place in ('own', 'both'):
                k['rotate_period'] = h.int('own rotate', 1, 2 ** 20)
            if place in ('global', 'both'):
                c['rotate_period'] = h.int('global rotate', 1, 2 ** 20)
            want['rotate_period'] = k.get('rotate_period', c.get('rotate_period', 600))
            k['name'] = 'two'
            if h.flag('setconf given'):
                k['use_setconf'] = h.choice('setconf', [0, 1, True, False])
            want['use_setconf'] = bool(k.get('use_setconf', True))
            want['name'] = 'two'
        else:
            if h.flag('other key'):
                k['key'] = write('sk2.key', 'PRIVATE-KEY k2')
                want['name'] = digest('k2')
            else:
                want['name'] = digest('k1')
        k['always_delay'] = want['always_delay'] = h.flag('always')
        k['tally_server_info'] = {'ip': '127.0.0.2', 'port': 20005}
        k['new'] = want['new'] = [1, 2]
        want['tally_server_info'] = dict(k['tally_server_info'])
    y.files[path] = deepcopy_but(c)
    h.quiet('read', n.refresh_config)
    if not h.fix(ok):
        h.check(n.config == before, 'an invalid configuration changes nothing')
        h.cover('refused')
        return
    h.cover('taken up')
    for w in sorted(want):
        h.check(n.config[w] == want[w], 'every setting takes effect', w)
    h.check(n.config.get('secret_handshake') == k['secret_handshake'], 'the secret')


OTHER = {'counters': {'EntryConnectionCount': {'bins': [[0.0, INF]]}, 'ZeroCount': {'bins': [[0.0, INF]]}},
         'noise': {'counters': {'EntryConnectionCount': {'sigma': 1.0}, 'ZeroCount': {'sigma': 0.5}}}}
STAGES = ['sharing', 'shares', 'counting', 'stopping']


@harness(group='d', cover=STAGES + ['published'], bounds='a round of a collector and a keeper, the configuration of which is read again at one of %d points with '
         'other values of every setting; any periods, rates, limits, weights and counts' % len(STAGES))
def running(h):
    h.now = 5000.0
    period = h.int('period', 50, 2 ** 20)
    rate = h.real('rate', 0, 1)
    cells = h.int('cells', -4, 2 ** 20)
    weight = h.real('weight', 0, 1024)
    first = dict(collect_period=period, circuit_sample_rate=rate, max_cell_events_per_circuit=cells, noise_weight={'*': weight},
                 dc_threshold=1, domain_exacts=[frozenset(['a.b'])], domain_suffixes={'b': 0})
    ts = server.tally_server(h, **first)
    j = server.written(h)
    A = ts.config
    kept = dict([(k, deepcopy(A[k])) for k in ('counters', 'noise')])
    B = server.config(collect_period=h.int('other period', 1, 2 ** 20), circuit_sample_rate=0.5, max_cell_events_per_circuit=7,
                      noise_weight={'A' * 40: 9.0}, dc_threshold=3, sk_threshold=2, domain_exacts=[frozenset(['c'])], domain_suffixes={'c': 0},
                      country_exacts=[frozenset(['us'])], **deepcopy(OTHER))
    stage = h.choice('stage', STAGES)
    h.cover(stage)
    B['continue'] = False

    def at(s):
        for u in ts.clients:
            ts.clients[u]['alive'] = h.now
        if s == stage:
            ts.config = B
        if STAGES.index(stage) <= STAGES.index(s):
            h.quiet('the event loop', ts.refresh_loop)
    for (u, k) in (('dc', 'DataCollector'), ('sk', 'ShareKeeper')):
        ts.set_client_status(u, server.status(k, u, h.now))
    h.quiet('the event loop', ts.refresh_loop)
    p = ts.collection_phase
    h.check(p is not None, 'the round has started')

    def same(c):
        h.check(c['counters'] == kept['counters'] and c['noise'] == kept['noise'], 'the counters and the noise of the round')
        h.check(h.And(c['noise_weight']['*'] == weight, len(c['noise_weight']) == 1), 'its weights')
        h.check(c.get('dc_threshold') == 1, 'its threshold')
    at('sharing')
    c = ts.get_start_config('dc')
    same(c)
    h.check(h.And(c['circuit_sample_rate'] == rate, c['max_cell_events_per_circuit'] == cells), 'its rate and limit')
    h.check(c['domain_lists'] == [['a.b']] and c['domain_suffixes'] == {'b': 0} and c['country_lists'] == [], 'its lists')
    ts.set_start_result('dc', {'sk': 'the share'})
    at('shares')
    same(ts.get_start_config('sk'))
    ts.set_start_result('sk', {'result': 'success'})
    at('counting')
    h.check(ts.collection_phase is p, 'the round goes on')
    before = h.now
    h.now = h.now + h.int('passed', 0, 2 ** 21)
    for u in ts.clients:
        ts.clients[u]['alive'] = h.now
    over = h.now - p.get_start_ts() >= period
    h.quiet('the event loop', ts.refresh_loop)
    stopping = ts.get_stop_config('dc') is not None
    h.check(h.Iff(stopping, over), 'it takes as long as it was to take')
    if not stopping:
        return
    at('stopping')
    total = dict([(n, 0) for n in kept['counters']])
    for u in ('dc', 'sk'):
        counts = {}
        for n in kept['counters']:
            x = h.int('count', 0, 1000)
            total[n] = total[n] + x
            counts[n] = {'bins': [b[:2] + [x] for b in kept['counters'][n]['bins']]}
        ts.set_stop_result(u, {'Config': {}, 'Counts': counts})
    h.quiet('the event loop', ts.refresh_loop)
    out = [o for (p_, o) in j.written if 'Context' in o]
    h.check(len(out) == 1 and 'Tally' in out[0], 'its results are published')
    h.check(sorted(out[0]['Tally']) == sorted(total), 'the counters of the round')
    h.check(h.And([out[0]['Tally'][n]['bins'][0][2] == total[n] for n in total]), 'what was counted')
    c = out[0]['Context']['TallyServer']['Config']
    h.check(c['noise'] == kept['noise'], 'with the configuration of the round')
    h.check(h.And(c['circuit_sample_rate'] == rate, c['collect_period'] == period, c['noise_weight']['*'] == weight), 'and its settings')
    h.cover('published')
