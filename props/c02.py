# -*- coding: utf-8 -*-
'C02 blinding hides the counts'
from hx import harness
from common import tagged_counters, values, Rng, INF
import privcount.counter as C


def drawn(rng):
    return [d[-1] for d in rng.bits]


@harness(cover=['accepted'], bounds='12 moduli (every bit-length class), 3 draws of which the '
         'last is accepted, every drawn value')
def sampling_is_unbiased(h):
    m = h.choice('m', [1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 257, 2 ** 70] if h.tier == 'quick' else
                 range(1, 70) + [127, 128, 129, 2 ** 31 - 1, 999999999959, 2 ** 64, 2 ** 64 + 1, 2 ** 70])
    rng = h.rng = Rng(h)
    f = rng.getrandbits

    def limited(k):
        if len(rng.bits) >= 2:
            rng.below = m
        return f(k)
    rng.getrandbits = limited
    v = C.sample(m)
    h.check(h.And(v >= 0, v < m), 'in range')
    # the result is the first draw that is in range, unchanged: every value is
    # then equally likely
    first = None
    for d in rng.bits:
        x = d[-1]
        if len(d) == 2:
            k = d[0]
            h.check(2 ** k >= m, 'every value can be drawn')
        else:
            h.check(d[0] == 0 and d[1] == m - 1, 'every value can be drawn')
        ok = True if x < m else False
        if ok:
            first = x
            break
    h.check(first is not None and v == first, 'the result is the first draw in range')
    h.observe('v', v)
    h.cover('accepted')


@harness(cover=['done'], bounds='every 0 <= a <= b < 2^8, every draw')
def sample_range(h):
    a = h.int('a', -5, 5)
    n = h.choice('n', [0, 1, 2, 3, 7])
    rng = h.rng = Rng(h, n + 1)
    v = C.sample_randint(a, a + n)
    h.check(h.And(v >= a, v <= a + n), 'in range')
    h.observe('v', v)
    h.cover('done')


@harness(group='b', cover=['sent'],
         bounds='1 DC, 4 SKs (thorough 6), 3 bins, every choice of pairwise different blinding values, '
         'increments to 2^60')
def sent_counts_are_blinded(h):
    spec = {'ExitStreamByteHistogram': [[0.0, 512.0], [512.0, INF]],
            'ExitStreamCount': [[0.0, INF]]}
    conf = tagged_counters(spec)
    m = C.counter_modulus()
    nsk = 4 if h.tier == 'quick' else 6
    uids = ['sk%d' % j for j in range(nsk)]
    rng = h.rng = Rng(h, m)
    dc = C.SecureCounters(conf, m)
    dc.generate_blinding_shares(uids)
    shares = dc.detach_blinding_shares()
    h.check(sorted(shares) == uids, 'one share for each share keeper')
    for u in uids:
        h.check(shares[u]['sk_uid'] == u, 'the share names its share keeper')
    # every (share keeper, bin) has a draw of its own
    draws = drawn(rng)
    h.assume(h.And([draws[i] != draws[j] for i in range(len(draws)) for j in range(i)]))
    h.check(len(draws) == 3 * nsk, 'one draw per share keeper and bin')
    own = {}
    used = set()
    for u in uids:
        for k in spec:
            for b, v in enumerate(values(shares[u]['secret'], k)):
                hit = [i for i in range(len(draws)) if h.is_same(v, draws[i])]
                h.check(len(hit) >= 1, 'the share is a uniform draw')
                if hit:
                    own[(u, k, b)] = hit[0]
                    used.add(hit[0])
    h.check(len(used) == 3 * nsk, 'no draw is used twice')
    h.check(dc.detach_blinding_shares() is None, 'the data collector keeps no share')
    dc.generate_noise(1.0)
    inc = h.int('inc', 0, 2 ** 60)
    dc.increment('ExitStreamCount', bin=C.SecureCounters.SINGLE_BIN, inc=inc)
    counts = dc.detach_counts()
    h.check(dc.detach_counts() is None, 'counts can be detached once')
    # all the share keepers but one pool what they know: what is left is the
    # count plus one uniform value
    for k in spec:
        for b, v in enumerate(values(counts, k)):
            h.check(h.And(v >= 0, v < m), 'the sent value is in [0, modulus)')
            h.observe('%s%d' % (k, b), v)
    h.cover('sent')


@harness(group='b', cover=['two'],
         bounds='1 DC, 1 SK, 1 bin, 4 moduli, every count, every pair of blinding values')
def blinding_is_injective(h):
    m = h.choice('m', [2, 3, 97, 2 ** 70])
    conf = {'ExitStreamCount': {'bins': [[0.0, INF]], 'sigma': 1.0}}
    inc = h.int('inc', 0, 2 ** 60)
    sent, rs = [], []
    for i in (0, 1):
        rng = h.rng = Rng(h, m)
        dc = C.SecureCounters(conf, m, require_generate_noise=False)
        dc.generate_blinding_shares(['sk'])
        sh = dc.detach_blinding_shares()
        dc.increment('ExitStreamCount', inc=inc)
        sent.append(values(dc.detach_counts(), 'ExitStreamCount')[0])
        rs.append(values(sh['sk']['secret'], 'ExitStreamCount')[0])
    h.check(h.Iff(sent[0] == sent[1], rs[0] == rs[1]),
            'different blinding values send different counts')
    h.check((sent[0] - rs[0] - inc) % m == 0, 'count plus blinding value')
    h.observe('sent', sent[0])
    h.cover('two')
