# -*- coding: utf-8 -*-
'C13 a share keeper starts and stops a round; whole rounds with real nodes'
from copy import deepcopy
from hx import harness
from common import Rng, plain_logs, values, INF
from nodes import (reset, data_collector, share_keeper, start_config, run_pending, FP, stream_event, digest, public)
from privcount.crypto import encrypt, load_public_key_string
from privcount.counter import counter_modulus, SecureCounters

M = counter_modulus()
SPEC = {'ExitStreamCount': [[0.0, INF]], 'ExitStreamByteHistogram': [[0.0, 512.0], [512.0, INF]]}


def secret(h, name):
    out = {}
    for k in SPEC:
        out[k] = {'bins': [b + [h.int('%s.%s' % (name, k), 0, M - 1)] for b in deepcopy(SPEC[k])]}
    return out


def share(h, key, sec, dc='dc1'):
    return {'secret': encrypt(load_public_key_string(public(key)), sec), 'sk_uid': digest(key), 'dc_name': dc}


def sk_start(shares):
    c = start_config(['k1'])
    del c['sharekeepers']
    c['shares'] = shares
    return c


KINDS = ['good', 'no shares', 'no counters', 'other key', 'missing counter', 'bins', 'no value', 'garbled',
         'low sigma', 'unknown counter']


@harness(cover=KINDS + ['accepted', 'refused'], bounds='1 or 2 shares, one of which is good or broken in one of 9 ways, every '
         'blinding value')
def shares_are_all_accepted_or_none(h):
    plain_logs(h)
    reset()
    sk = share_keeper(h, 'k1')
    n = h.choice('n', [1, 2])
    kind = h.choice('kind', KINDS)
    bad = h.choice('bad', range(n))
    secrets = [secret(h, 's%d' % i) for i in range(n)]
    plain = deepcopy(secrets)
    if kind == 'missing counter':
        del secrets[bad]['ExitStreamCount']
    elif kind == 'bins':
        secrets[bad]['ExitStreamByteHistogram']['bins'].append([1.0, 2.0, 0])
    elif kind == 'no value':
        secrets[bad]['ExitStreamByteHistogram']['bins'][1].pop()
    shares = [share(h, 'k2' if kind == 'other key' and i == bad else 'k1', secrets[i], 'dc%d' % i) for i in range(n)]
    if kind == 'garbled':
        shares[bad]['secret']['sym_encrypted_data'] = 'X'
    c = sk_start(shares)
    good = kind in ('good', 'unknown counter')
    if kind == 'no shares':
        del c['shares']
    elif kind == 'no counters':
        del c['counters']
    elif kind == 'low sigma':
        c['noise']['counters']['ExitStreamCount']['sigma'] = -1.0
    elif kind == 'unknown counter':
        c['counters']['SomeNewCount'] = {'bins': [[0.0, INF]]}
        c['noise']['counters']['SomeNewCount'] = {'sigma': 1.0}
        for i in range(n):
            plain[i]['SomeNewCount'] = {'bins': [[0.0, INF, 3]]}
        c['shares'] = [share(h, 'k1', plain[i], 'dc%d' % i) for i in range(n)]
    got, e = h.call(sk.do_start, c)
    h.check((got is not None and e is None) == good, 'a round starts only if every share can be imported', kind)
    h.check((sk.get_status()['state'] == 'active') == good, 'active only in a round')
    h.now = h.now + 1
    wanted = h.flag('wanted')
    r = sk.do_stop({'send_counters': wanted})
    h.check(('Counts' in r) == (good and wanted), 'counts are sent for a round that started, when wanted')
    if 'Counts' in r:
        for k in SPEC:
            v = values(r['Counts'], k)
            h.check(len(v) == len(SPEC[k]), 'bins')
            for b in range(len(SPEC[k])):
                total = h.Sum([values(p, k)[b] for p in plain])
                h.check((v[b] + total) % M == 0, 'the negative sum of the blinding values')
                h.check(h.And(v[b] >= 0, v[b] < M), 'range')
                h.observe(k, v[b])
    # what is reported to the tally server must not contain what was decrypted
    ctx = repr(r.get('Config'))
    h.check('sym_encrypted_data' not in ctx, 'the shares are not in the context')
    for p in plain:
        for k in SPEC:
            for v in values(p, k):
                h.check(not h.sym or ('Counts' in r and False) or h.text(v) not in ctx, 'no blinding value in the context')
    again = sk.do_stop({'send_counters': True})
    h.check('Counts' not in again, 'counts are sent once')
    h.check(sk.get_status()['state'] == 'idle', 'idle')
    h.cover(kind)
    h.cover('accepted' if good else 'refused')


@harness(group='b', cover=['tallied'], bounds='2 data collectors, 1 or 2 share keepers (thorough 3 and 3), 2 streams of arbitrary '
         'sizes, arbitrary noise and blinding values, real start and stop commands on both sides')
def whole_round(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=M)
    nsk = h.choice('keepers', [1, 2] if h.tier == 'quick' else [1, 2, 3])
    ndc = 2 if h.tier == 'quick' else 3
    names = ['k1', 'k2', 'k3'][:nsk]
    spec = {'ExitStreamByteCount': [[0.0, INF]], 'ExitStreamByteHistogram': [[0.0, 512.0], [512.0, INF]]}
    dcs = [data_collector(h, names, 'dc%d' % i) for i in range(ndc)]
    for_sk = dict([(digest(n), []) for n in names])
    for dc in dcs:
        shares = dc.do_start(start_config(names, counters=spec))
        for uid in shares:
            for_sk[uid].append(shares[uid])
    sks = [share_keeper(h, n) for n in names]
    for sk in sks:
        c = start_config(names, counters=spec)
        c['shares'] = for_sk[sk.config['name']]
        h.check(sk.do_start(c) is not None, 'the share keeper accepts the shares')
    run_pending()
    total, big, n = 0, 0, 0
    for dc in dcs:
        dc.aggregator.set_fingerprint(FP)
        r = h.int('read', 1, 2 ** 50)
        h.check(dc.aggregator.handle_event(stream_event(read=h.text(r), written=0)), 'event')
        total = total + r
        big = big + (1 if r >= 512 else 0)
        n += 1
    h.now = h.now + 1
    res = [x.do_stop({'send_counters': True}).get('Counts') for x in (dcs + sks if h.flag('order') else sks + dcs)]
    h.check(all([x is not None for x in res]), 'everyone reports')
    ts = SecureCounters(start_config(names, counters=spec)['counters'], M, require_generate_noise=False)
    h.check(ts.tally_counters(res), 'tally')
    got = ts.detach_counts()
    z = {4.0: [], 8.0: []}
    for (mu, sigma, x) in h.rng.gausses:
        z.setdefault(sigma, []).append(x)
    h.check(len(z[4.0]) == ndc and len(z[8.0]) == 2 * ndc and len(z) == 2, 'noise of each collector, none of the keepers')
    h.check(values(got, 'ExitStreamByteCount')[0] == total + h.Sum(z[4.0]), 'the true count plus the noise')
    v = values(got, 'ExitStreamByteHistogram')
    h.check(v[0] + v[1] == n + h.Sum(z[8.0]), 'the true histogram plus the noise')
    h.observe('c', values(got, 'ExitStreamByteCount')[0])
    # the noise of each bin separately: samples of a bin are every second one
    even, odd = h.Sum(z[8.0][0::2]), h.Sum(z[8.0][1::2])
    h.check(h.Or(h.And(v[0] == n - big + even, v[1] == big + odd), h.And(v[0] == n - big + odd, v[1] == big + even)),
            'each bin')
    h.cover('tallied')
