# -*- coding: utf-8 -*-
'C06 counter configurations'
from hx import harness
from common import INF
import privcount.counter as C

BIG = 2 ** 20
COUNT = 'ExitStreamCount'
HIST = 'ExitStreamByteHistogram'


def overlap(h, a, b):
    return h.And(a[0] < b[1], b[0] < a[1])


@harness(cover=['accepted', 'rejected'], bounds='2 or 3 bins (thorough 4) with arbitrary finite bounds in any order, '
         'one bound possibly infinite')
def bins_do_not_overlap(h):
    n = h.choice('n', [2, 3] if h.tier == 'quick' else [2, 3, 4])
    bins = [[h.real('lo', -BIG, BIG), h.real('hi', -BIG, BIG)] for _ in range(n)]
    if h.flag('inf'):
        bins[h.choice('which', range(n))][1] = INF
    want = h.And([b[0] < b[1] for b in bins] +
                 [h.Not(overlap(h, bins[i], bins[j])) for i in range(n) for j in range(i)])
    ok = C.check_bins_config({HIST: {'bins': [list(b) for b in bins]}})
    h.check(h.Iff(ok, want), 'accepted exactly when every bin is non-empty and no two overlap')
    h.observe('ok', bool(ok))
    h.cover('accepted' if ok else 'rejected')


@harness(group='b', cover=['accepted', 'rejected'], bounds='1 to 3 valid bins, names of every kind')
def names_and_bin_counts(h):
    name = h.choice('name', [COUNT, HIST, 'ZeroCount', 'EntryConnectionLifeTime', 'ExitStreamByteRatio',
                             'NotACounterCount', 'ExitDomainExactMatchWebInitialStreamCountList',
                             'exitstreamcount'])
    n = h.choice('n', [1, 2, 3])
    unknown_ok = h.flag('allow')
    x = h.real('x', 0, BIG)
    bins = [[x + i, x + i + 1] for i in range(n)]
    known = name in C.get_valid_counters()
    h.check(known == (name not in ('NotACounterCount', 'exitstreamcount')), 'the known names')
    single = name.endswith('Count')
    want = unknown_ok or (known and (n == 1) == single)
    ok = C.check_bins_config({name: {'bins': bins}}, allow_unknown_counters=unknown_ok)
    h.check(h.Iff(ok, want), 'known names, single bins for counts and several for the rest')
    s = h.real('s', -8, BIG)
    oks = C.check_sigmas_config({name: {'sigma': s}}, allow_unknown_counters=unknown_ok)
    h.check(h.Iff(oks, h.And(s >= 0, unknown_ok or known)), 'sigma is at least zero')
    h.observe('ok', [bool(ok), bool(oks)])
    h.cover('accepted' if want else 'rejected')


@harness(group='b', cover=['same', 'different'], bounds='bins and sigmas over any subsets of 3 counters, entries '
         'possibly incomplete')
def bins_and_sigmas_agree(h):
    names = [COUNT, HIST, 'EntryConnectionCount']
    bins, sigmas, vals = {}, {}, {}
    for k in names:
        b = h.choice('b' + k[:5], ['no', 'yes', 'incomplete'])
        if b == 'yes':
            bins[k] = {'bins': [[0.0, 1.0], [1.0, 2.0]] if k == HIST else [[0.0, INF]]}
        elif b == 'incomplete':
            bins[k] = {'other': 1}
        s = h.choice('s' + k[:5], ['no', 'yes', 'incomplete'])
        if s == 'yes':
            vals[k] = h.real('sigma', 0, BIG)
            sigmas[k] = {'sigma': vals[k], 'epsilon': 1}
        elif s == 'incomplete':
            sigmas[k] = {'epsilon': 1}
    both = [k for k in names if 'bins' in bins.get(k, {}) and 'sigma' in sigmas.get(k, {})]
    comb = C.combine_counters(bins, sigmas)
    h.check(sorted(comb) == sorted(both), 'the counters that have both bins and a sigma')
    for k in both:
        if k in comb:
            h.check(comb[k]['bins'] == bins[k]['bins'] and comb[k]['sigma'] == vals[k],
                    'bins from the bins, sigma from the sigmas')
            h.check(comb[k]['bins'] is not bins[k]['bins'], 'a copy')
    want = len(both) == len(bins) == len(sigmas)
    h.check(bool(C.check_combined_counters(bins, sigmas)) == want, 'same set of complete counters')
    if all(['bins' in bins[k] for k in bins]) and all(['sigma' in sigmas[k] for k in sigmas]):
        h.check(bool(C.check_counters_config(bins, sigmas)) == want, 'configuration accepted')
    h.check(C.count_bins(comb) == sum([len(bins[k]['bins']) for k in both]), 'number of bins')
    h.cover('same' if want else 'different')
