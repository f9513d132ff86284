# -*- coding: utf-8 -*-
'C01 blinding cancels: the tally is the true signed sum'
from hx import harness
from common import tagged_counters, noise_of, values, Rng, INF
import privcount.counter as C

SPEC = {'ExitStreamByteHistogram': [[0.0, 512.0], [512.0, INF]], 'ExitStreamCount': [[0.0, INF]]}


def round_trip(h, modulus, ndc, nsk, spec):
    conf = tagged_counters(spec)
    rng = h.rng = Rng(h, modulus)
    dcs, sks = [], [C.SecureCounters(conf, modulus, require_generate_noise=False)
                    for _ in range(nsk)]
    uids = ['sk%d' % j for j in range(nsk)]
    true = dict([(k, [0] * len(spec[k])) for k in spec])
    for i in range(ndc):
        dc = C.SecureCounters(conf, modulus, require_generate_noise=True)
        dc.generate_blinding_shares(uids)
        shares = dc.detach_blinding_shares()
        for j in range(nsk):
            ok = sks[j].import_blinding_share(shares[uids[j]])
            h.check(ok, 'share accepted')
        n = len(rng.gausses)
        dc.generate_noise(1.0)
        zs = noise_of(conf, rng.gausses[n:])
        for k in spec:
            h.check(len(zs[k]) == len(spec[k]), 'one noise sample per bin')
            for b in range(len(spec[k])):
                true[k][b] = true[k][b] + zs[k][b]
        for k in sorted(spec):
            inc = h.int('inc', 0, 2 ** 60)
            if len(spec[k]) == 1:
                dc.increment(k, bin=C.SecureCounters.SINGLE_BIN, inc=inc)
                true[k][0] = true[k][0] + inc
            else:
                dc.increment(k, bin=600, inc=inc)
                true[k][1] = true[k][1] + inc
        dcs.append(dc)
    counts = [x.detach_counts() for x in dcs + sks]
    for k in spec:
        for t in true[k]:
            h.assume(h.And(2 * t >= -modulus, 2 * t < modulus))
    ts = C.SecureCounters(conf, modulus, require_generate_noise=False)
    h.check(ts.tally_counters(counts), 'tally succeeds')
    res = ts.detach_counts()
    for k in spec:
        got = values(res, k)
        for b in range(len(spec[k])):
            h.check(got[b] == true[k][b], 'tally equals the true sum')
            h.observe('%s.%d' % (k, b), got[b])
    h.cover('tallied')


@harness(cover=['tallied'], bounds='2 DCs, 3 SKs (thorough: 3 and 3), 1 counter of 1 bin and 1 of 2 '
         'bins, production modulus, every blinding value, noise +-2^40, increments to 2^60, '
         'total within +-modulus/2')
def production_modulus(h):
    round_trip(h, C.counter_modulus(), 2 if h.tier == 'quick' else 3, 3, SPEC)


@harness(group='b', cover=['tallied'],
         bounds='1 to 3 DCs, 1 to 4 SKs, odd, even and one-element moduli, every blinding value')
def other_moduli(h):
    m = h.choice('modulus', [1, 2, 3, 999999999959, 2 ** 64] if h.tier == 'quick' else
                 [1, 2, 3, 4, 5, 7, 8, 97, 2147483647, 999999999959, 2 ** 64])
    round_trip(h, m, h.choice('ndc', [1, 2, 3]), h.choice('nsk', [1, 2, 3, 4]), {'ExitStreamCount': [[0.0, INF]]})


@harness(group='b', cover=['done'], bounds='every modulus from 1 to 2^80, every value below it')
def signed_adjustment(h):
    m = h.int('m', 1, 2 ** 80)
    c = h.int('c', 0, 2 ** 80)
    h.assume(c < m)
    s = C.adjust_count_signed(c, m)
    h.check(h.And(2 * s >= -m, 2 * s < m), 'signed range')
    h.check(h.Or(s == c, s == c - m), 'congruent')
    h.observe('s', s)
    h.cover('done')


@harness(group='b', cover=['limits'], bounds='the fixed limits')
def limits(h):
    m = C.counter_modulus()
    x = h.int('x', C.min_blinded_counter_value(), C.max_blinded_counter_value())
    h.check(h.And(x >= 0, x < m), 'blinded range is [0, modulus)')
    h.check(C.max_blinded_counter_value() - C.min_blinded_counter_value() + 1 == m, 'all of it')
    s = C.adjust_count_signed(x, m)
    h.check(h.And(s >= C.min_tally_counter_value(), s <= C.max_tally_counter_value()),
            'tallied range')
    conf = C.add_counter_limits_to_config({'a': 1})
    h.check(conf['modulus'] == m and conf['a'] == 1, 'config modulus')
    h.check(conf['min_blinded_counter_value'] == C.min_blinded_counter_value() and
            conf['max_blinded_counter_value'] == C.max_blinded_counter_value() and
            conf['min_tally_counter_value'] == C.min_tally_counter_value() and
            conf['max_tally_counter_value'] == C.max_tally_counter_value(), 'config limits')
    h.cover('limits')
