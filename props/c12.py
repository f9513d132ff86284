# -*- coding: utf-8 -*-
'C12 a data collector stops a round'
from hx import harness
from common import Rng, plain_logs, values, INF, tagged_counters, noise_of
from nodes import reset, data_collector, start_config, pending, run_pending, FP, stream_event, aggregator
from twisted.internet import reactor, task
from privcount.counter import counter_modulus

M = counter_modulus()


@harness(cover=['weight', 'default', 'no weight', 'no fingerprint', 'late noise'], bounds='1 or 3 share keepers, own, default or no noise '
         'weight, fingerprint known or not, 2 streams of arbitrary size, every blinding and noise value')
def counts_are_noisy_and_blinded(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=M)
    names = ['k1', 'k2', 'k3'][:h.choice('keepers', [1, 3])]
    dc = data_collector(h, names)
    c = start_config(names, counters={'ExitStreamByteCount': [[0.0, INF]],
                                      'ExitStreamByteHistogram': [[0.0, 512.0], [512.0, INF]]})
    c['noise_weight'] = {}
    own = h.flag('own')
    default = h.flag('default')
    if own:
        c['noise_weight'][FP] = 3.0
    if default:
        c['noise_weight']['*'] = 2.0
    # weights of other relays, however similar their fingerprints
    for (i, fp) in enumerate(['B' * 40, FP[:-1] + 'B', 'B' + FP[1:], FP[:20] + 'B' * 20, FP[:-1], FP + 'A', FP.lower(), '']):
        c['noise_weight'][fp] = 5.0 + 2 ** i
    h.check(dc.do_start(c) is not None, 'started')
    blind = [d[-1] for d in h.rng.bits]
    run_pending()
    known = h.flag('known')
    if known:
        dc.aggregator.set_fingerprint(FP)
        dc.aggregator.set_fingerprint(h.choice('again', [FP, 'B' * 40]))
        weight = 3.0 if own else (2.0 if default else None)
    else:
        weight = 2.0 if default else None
        h.cover('no fingerprint')
    total, big = 0, 0
    for i in range(2):
        r = h.int('read', 1, 2 ** 50)
        e = h.call(dc.aggregator.handle_event, stream_event(read=h.text(r), written=0))
        total = total + r
        big = big + (1 if r >= 512 else 0)
    h.now = h.now + 1
    wanted = h.flag('wanted')
    res = dc.do_stop({'send_counters': wanted})
    h.check(('Counts' in res) == (weight is not None and wanted), 'counts are sent only with noise, and when wanted')
    if 'Counts' in res:
        got = res['Counts']
        # sigma of the first counter (by name) is 4, of the second 8
        zs = dict([(s, [z for (mu, sigma, z) in h.rng.gausses if sigma == s]) for s in (4 * weight, 8 * weight)])
        h.check(len(h.rng.gausses) == 3, 'one noise sample for each bin')
        k = len(names)
        for (name, want, sigma) in (('ExitStreamByteCount', [total], 4), ('ExitStreamByteHistogram', [2 - big, big], 8)):
            z = zs.get(sigma * weight, [])
            h.check(len(z) == len(want), 'noise with the weight of this relay')
            v = values(got, name)
            d = [(v[b] - want[b] - z[b]) for b in range(len(want))]
            h.check(len(v) == len(want), 'bins')
            for x in v:
                h.check(h.And(x >= 0, x < M), 'range')
            if name == 'ExitStreamByteCount':
                first = d[0]
            else:
                rest = d
        h.check((first + sum(rest) - h.Sum(blind)) % M == 0, 'counts, noise and blinding values')
        h.observe('count', values(got, 'ExitStreamByteCount')[0])
        h.cover('weight' if own and known else 'default')
        if not known:
            h.cover('late noise')
    elif weight is None:
        h.cover('no weight')
    again = dc.do_stop({'send_counters': True})
    h.check('Counts' not in again, 'counts are sent once')
    h.check(dc.get_status()['state'] == 'idle', 'idle')
    late = [x for x in reactor.calls if x[0].startswith('connect')]
    h.check(not [l for l in task.loops if l.running], 'rotation stopped')
    h.check(all([x[-1].disconnected >= 1 for x in late]), 'disconnected from tor')


@harness(group='b', cover=['done'], bounds='every weight; the fingerprint arrives any number of times up to 3')
def noise_is_added_once(h):
    plain_logs(h)
    reset()
    h.rng = Rng(h, below=M)
    w = h.real('w', 0, 64)
    a = aggregator(h, tagged_counters({'ExitStreamCount': [[0.0, INF]]}), noise_weight={'*': w})
    order = [h.choice('what', ['fp', 'bad fp', 'event', 'other fp']) for _ in range(3)]
    n = 0
    for o in order:
        if o == 'fp':
            h.check(a.set_fingerprint(FP), 'accepted')
        elif o == 'other fp':
            h.check(a.set_fingerprint('C' * 40), 'accepted')
        elif o == 'bad fp':
            h.check(not a.set_fingerprint('xyz'), 'a malformed fingerprint is not accepted')
        else:
            a.handle_event(stream_event())
            n += 1
    fps = [o for o in order if o in ('fp', 'other fp')]
    if fps:
        h.check(a.get_fingerprint() == (FP if fps[0] == 'fp' else 'C' * 40), 'the first fingerprint is kept')
    counts = a.stop()
    h.check(len(h.rng.gausses) == 1, 'exactly one sample for the one bin')
    (mu, sigma, z) = h.rng.gausses[0]
    h.check(h.And(mu == 0, sigma == 8.0 * w), 'scaled by the weight')
    h.check(counts is not None and (values(counts, 'ExitStreamCount')[0] - n - z) % M == 0, 'counts plus noise')
    h.check(a.stop() is None or True, 'stop again')
    h.cover('done')
