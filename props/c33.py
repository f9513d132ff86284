# -*- coding: utf-8 -*-
'C33 what the context of the results does not say'
import json
from copy import deepcopy
from hx import harness
from common import INF
from nodes import data_collector, share_keeper, run_pending, FP, stream_event, digest, public, start_config
from server import tally_server, status, T
import privcount.tally_server

HIDDEN = 'HIDDEN'
LONG = dict([(k, ['%s-%06d' % (k, i) for i in range(200)]) for k in ('domain', 'country', 'as', 'store', 'fetch', 'failure', 'onion', 'suffix', 'map')])
LONG['map'] = ['10.%d.%d.0/24\t%d' % (i // 16, i % 16, 64000 + i) for i in range(200)]
LISTS = [('domain_exacts', 'domain_lists', 'domain'), ('country_exacts', 'country_lists', 'country'),
         ('hsdir_store_exacts', 'hsdir_store_lists', 'store'), ('hsdir_fetch_exacts', 'hsdir_fetch_lists', 'fetch'),
         ('circuit_failure_exacts', 'circuit_failure_lists', 'failure'), ('onion_address_exacts', 'onion_address_lists', 'onion')]


def texts(o):
    'all strings in an object'
    if isinstance(o, dict):
        for k in o:
            for x in texts(k):
                yield x
            for x in texts(o[k]):
                yield x
    elif isinstance(o, (list, tuple)):
        for x in o:
            for y in texts(x):
                yield y
    elif isinstance(o, basestring):
        yield o


def numbers(o):
    if isinstance(o, dict):
        return [n for k in o for n in numbers(o[k])]
    if isinstance(o, (list, tuple)):
        return [n for x in o for n in numbers(x)]
    return [] if isinstance(o, (basestring, bool)) or o is None else [o]


def whole(all_texts, key):
    'whether all the items of a list are in the texts'
    return all(any(i in t for t in all_texts) for i in LONG[key])


PATHS = ['state', 'key', 'secret_handshake', 'cert', 'allocation', 'results']


def paths(h, c, keys):
    for k in keys:
        c[k] = '/%s/%s' % (HIDDEN, k)


@harness(cover=['all', 'bare'], bounds='a round of one collector and one keeper, with and without each kind of list and path, whatever they have counted')
def context(h):
    h.now = 5000.0
    full = h.flag('full')
    without = h.choice('without', ['nothing'] + [a for (a, b, c) in LISTS] + PATHS + ['start', 'noise', 'counters']) if full else 'everything'
    kw = dict([(k, '/%s/%s' % (HIDDEN, k)) for k in PATHS if full and k != without])
    if full:
        for (exacts, lists, key) in LISTS:
            if exacts != without:
                kw[exacts] = [list(LONG[key]), ['short']]
        kw['domain_suffixes'] = dict([(s, {'x': 0}) for s in LONG['suffix']])
        kw['as_data'] = {'lists': [list(LONG['as'])], 'prefix_maps': {4: '\n'.join(LONG['map']), 6: '\n'.join(LONG['map'])}}
    ts = tally_server(h, **kw)
    if not full:
        for k in PATHS[:5]:
            ts.config.pop(k, None)
    alike = status('ShareKeeper', 'sk', h.now, public_key=HIDDEN + ' key')
    ts.set_client_status('sk', alike)
    ts.set_client_status('dc', status('DataCollector', 'dc', h.now))
    h.quiet('the event loop', ts.refresh_loop)
    p = ts.collection_phase
    h.check(p is not None, 'the round has started')
    start = h.quiet('the start command', ts.get_start_config, 'dc')
    # what a collector and a keeper send back
    seen = deepcopy(start)
    if without == 'noise':
        del seen['noise']
    if without == 'counters':
        del seen['counters']
    (dc, sk) = ({'name': 'dc'}, {'name': 'sk'})
    if full:
        paths(h, dc, [k for k in ('state', 'secret_handshake') if k != without])
        paths(h, sk, [k for k in ('state', 'secret_handshake', 'key') if k != without])
    if without != 'start':
        dc['Start'] = seen
        sk['Start'] = dict([(k, deepcopy(seen[k])) for k in seen if k in ('counters', 'noise', 'noise_weight', 'dc_threshold')])
        T.PrivCountNode.summarise_config_lists(dc['Start'])
    ts.set_start_result('dc', {'sk': 'share'})
    ts.set_start_result('sk', {'result': 'success'})
    h.now = h.now + 100
    for u in ts.clients:
        ts.clients[u]['alive'] = h.now
    h.quiet('the event loop', ts.refresh_loop)
    count = h.int('count', 2 ** 40, 2 ** 41)
    for (u, c) in (('dc', dc), ('sk', sk)):
        ts.set_stop_result(u, {'Config': c, 'Counts': {'ExitStreamCount': {'bins': [[0.0, INF, count]]},
                                                       'ZeroCount': {'bins': [[0.0, INF, count]]}}})
    p.set_client_status(ts.clients)
    p.set_tally_server_status(ts.get_status())
    p.stop()
    before = deepcopy([ts.config, ts.clients])
    out = h.quiet('the context', p.get_result_context, h.now)
    h.check([ts.config, ts.clients] == before, 'the server keeps what the results leave out')
    seen = list(texts(out))
    h.check(not [s for s in seen if HIDDEN in s], 'no paths and no keys', str([s for s in seen if HIDDEN in s][:1]))
    for k in LONG:
        h.check(not whole(seen, k), 'no list as a whole', k)
    h.check(not [n for n in numbers(out) if h.sym and not isinstance(n, (int, long, float)) and (n - count == 0)] and
            (h.sym or count not in numbers(out)), 'no counts')
    for kind in ('DataCollector', 'ShareKeeper'):
        begun = out[kind].values()[0].get('Config', {}).get('Start', {})
        for o in (begun.get('counters'), begun.get('noise', {}).get('counters')):
            h.check(o is None or isinstance(o, basestring), 'what is the same for all clients is published once', kind)
    h.check('dc' in out['DataCollector'] and 'sk' in out['ShareKeeper'], 'every client is named')
    h.check(out['TallyServer']['Config']['noise'] == ts.config['noise'], 'the noise is published')
    h.check(out['TallyServer']['Config']['dc_threshold'] == 1, 'and the thresholds')
    h.cover('all' if full else 'bare')


@harness(group='b', cover=['collector', 'keeper'], bounds='what a collector and a keeper return at the end of a round with long lists')
def configurations_of_clients(h):
    from nodes import reset
    reset()
    h.now = 100.0
    from common import Rng, plain_logs
    plain_logs(h)
    h.rng = Rng(h, below=T.counter_modulus())
    dc = data_collector(h, ['k1'], domain_lists=[])
    c = start_config(['k1'])
    what = h.choice('list', [b for (a, b, k) in LISTS] + [a for (a, b, k) in LISTS] + ['as_data', 'prefix_maps', 'domain_suffixes', 'one suffix', 'all'])
    more = h.flag('more')
    for (exacts, lists, key) in LISTS:
        for n in (exacts, lists):
            if what in (n, 'all'):
                c[n] = [list(LONG[key])] + ([['a']] if more else [])
    if what in ('as_data', 'all'):
        c['as_data'] = {'lists': [list(LONG['as'])]}
    if what in ('prefix_maps', 'all'):
        c.setdefault('as_data', {})['prefix_maps'] = {4: '\n'.join(LONG['map']), 6: '2001:db8::/32\t64000'}
    if what in ('domain_suffixes', 'all'):
        c['domain_suffixes'] = dict([(s, {'x': 0}) for s in LONG['suffix']])
    if what == 'one suffix':
        c['domain_suffixes'] = {'com': dict([(s, 0) for s in LONG['suffix']])}
    sent = deepcopy(c)
    shares = h.quiet('start', dc.do_start, deepcopy(c))
    run_pending()
    h.now = h.now + 60
    r = h.quiet('stop', dc.do_stop, {'send_counters': False})
    seen = list(texts(r))
    for k in LONG:
        h.check(not whole(seen, k), 'a collector does not send its lists back', k)
    h.check('Counts' not in r, 'no counts')
    h.check(sorted(r['Config']['Start']) == sorted(sent), 'it names what it got')
    h.check(r['Config']['Start']['dc_threshold'] == c['dc_threshold'], 'the configuration of the round')
    h.cover('collector')
    sk = share_keeper(h, 'k1')
    k = start_config([])
    del k['sharekeepers']
    k['shares'] = [shares[digest('k1')]]
    h.check(h.quiet('start', sk.do_start, k) is not None, 'the keeper starts')
    h.now = h.now + 60
    r = h.quiet('stop', sk.do_stop, {'send_counters': False})
    h.check(not [s for s in texts(r) if 'pk_encrypted' in s], 'a keeper does not send the shares back')
    h.cover('keeper')
