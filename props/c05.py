# -*- coding: utf-8 -*-
'C05 noise'
from hx import harness
from common import tagged_counters, values, INF
import privcount.counter as C

SPEC = {'A': [[0.0, INF]], 'B': [[0.0, 1.0], [1.0, 2.0], [2.0, INF]]}


class GaussRng(object):
    def __init__(self, h):
        self.h = h
        self.calls = []

    def gauss(self, mu, sigma):
        z = self.h.real('z', -2 ** 30, 2 ** 30, 1024)
        self.calls.append((mu, sigma, z))
        return z


@harness(cover=['done'], bounds='2 counters with 1 and 3 bins, every sample in +-2^30, every noise weight '
         'in [0, 1024], 3 moduli')
def each_bin_gets_one_sample(h):
    m = h.choice('m', [2 ** 70, 2 ** 70 - 1, 2 ** 33])
    w = h.real('w', 0, 1024)
    sig = {'A': h.real('sA', 0, 2 ** 20), 'B': h.real('sB', 0, 2 ** 20)}
    # the samples are attributed to counters by their scale
    h.assume(h.And(w > 0, sig['A'] != sig['B']))
    conf = tagged_counters(SPEC)
    for k in conf:
        conf[k]['sigma'] = sig[k]
    rng = h.rng = GaussRng(h)
    sc = C.SecureCounters(conf, m)
    a = h.int('a', 0, 2 ** 20)
    sc.increment('A', inc=a)
    sc.generate_noise(w)
    res = sc.detach_counts()
    h.check(len(rng.calls) == 4, 'one sample per bin')
    h.check(h.And([mu == 0 for (mu, _, _) in rng.calls]), 'the noise is centred on zero')
    for k in sorted(SPEC):
        zs = []
        for (mu, s, z) in rng.calls:
            if h.near(s, w * sig[k]):
                zs.append(z)
        h.check(len(zs) == len(SPEC[k]), 'the scale is noise weight times sigma')
        for b in range(min(len(zs), len(SPEC[k]))):
            got = values(res, k)[b]
            n = got - (a if k == 'A' else 0)
            n = n % m
            n = h.Ite(2 * n >= m, n - m, n)
            h.check(h.And(2 * (n - zs[b]) <= 1, 2 * (n - zs[b]) >= -1),
                    'the sample, rounded to the nearest integer, is added to the bin')
            h.observe('%s%d' % (k, b), got)
    h.cover('done')


@harness(group='b', cover=['refused', 'allowed'], bounds='every order of the operations up to noise and detach')
def no_counts_without_noise(h):
    h.rng = GaussRng(h)
    need = h.flag('need')
    noise = h.flag('noise')
    sc = C.SecureCounters(tagged_counters(SPEC), C.counter_modulus(), require_generate_noise=need)
    inc = h.int('inc', 0, 2 ** 60)
    if h.flag('before'):
        sc.increment('A', inc=inc)
    sc.generate_blinding_shares(['s'])
    sc.detach_blinding_shares()
    if noise:
        # also noise of a relay that need not add any
        sc.generate_noise(h.choice('weight', [1.0, 0.0]))
    sc.increment('A', inc=inc)
    counts, e = h.call(sc.detach_counts)
    if need and not noise:
        h.check(e is not None and counts is None, 'counts without noise are not given out')
        h.cover('refused')
    else:
        h.check(e is None and counts is not None, 'counts are given out')
        h.cover('allowed')
