# -*- coding: utf-8 -*-
'C03 increments'
from hx import harness
from common import values, INF
import privcount.counter as C

BIG = 2 ** 40
ORDERS = {2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1), (2, 1, 0)], 4: [(0, 1, 2, 3), (3, 0, 2, 1)]}


def edges(h, n, last_inf):
    'n disjoint half-open bins, with possible gaps between them'
    out, prev = [], None
    for i in range(n):
        lo = h.real('lo', -BIG, BIG)
        if prev is not None:
            h.assume(lo >= prev)
        if i == n - 1 and last_inf:
            hi = INF
        else:
            hi = h.real('hi', -BIG, BIG)
            h.assume(hi > lo)
            prev = hi
        out.append([lo, hi])
    # a configuration may list the bins in any order
    return [out[i] for i in h.choice('order', ORDERS[n])]


def inside(h, v, b):
    if b[1] == INF:
        return v >= b[0]
    return h.And(v >= b[0], v < b[1])


@harness(cover=['done'], bounds='2 or 3 bins (thorough 4), arbitrary disjoint bounds with gaps, in several orders, last bound '
         'finite or infinite, every value, two increments, production modulus')
def histogram(h):
    n = h.choice('n', [2, 3] if h.tier == 'quick' else [2, 3, 4])
    bins = edges(h, n, h.flag('inf'))
    m = C.counter_modulus()
    sc = C.SecureCounters({'H': {'bins': [list(b) for b in bins], 'sigma': 1.0},
                           'Other': {'bins': [[0.0, 1.0], [1.0, INF]], 'sigma': 1.0}}, m,
                          require_generate_noise=False)
    expect = [0] * n
    for i in (0, 1):
        v = h.real('v', -2 * BIG, 2 * BIG)
        inc = h.int('inc', -2 ** 60, 2 ** 60)
        if i == 1 and h.flag('default_inc'):
            sc.increment('H', bin=v)
            inc = 1
        else:
            sc.increment('H', bin=v, inc=inc)
        expect = [expect[j] + h.Ite(inside(h, v, bins[j]), inc, 0) for j in range(n)]
    res = sc.detach_counts()
    got = values(res, 'H')
    for j in range(n):
        h.check((got[j] - expect[j]) % m == 0, 'the bin that contains the value, and no other')
        h.check(h.And(got[j] >= 0, got[j] < m), 'the count stays below the modulus')
        h.observe('b%d' % j, got[j])
    h.check(values(res, 'Other') == [0, 0], 'other counters are unchanged')
    h.cover('done')


@harness(cover=['done'], bounds='value inf, 3 arbitrary bins')
def infinite_value(h):
    last = h.flag('inf')
    bins = edges(h, 3, last)
    sc = C.SecureCounters({'H': {'bins': [list(b) for b in bins]}}, C.counter_modulus(),
                          require_generate_noise=False)
    inc = h.int('inc', 0, 2 ** 60)
    sc.increment('H', bin=INF, inc=inc)
    got = values(sc.detach_counts(), 'H')
    for j in range(3):
        h.check(got[j] == (inc if bins[j][1] == INF else 0), 'infinity is in a bin that ends at infinity, and in no other')
    h.cover('done')


@harness(group='b', cover=['single', 'refused', 'unknown', 'fraction', 'detached'],
         bounds='every value, every increment; single-bin, unknown and detached counters')
def single_bin_and_unknown(h):
    m = C.counter_modulus()
    sc = C.SecureCounters({'S': {'bins': [[0.0, INF]]}, 'H': {'bins': [[0.0, 1.0], [1.0, INF]]}}, m,
                          require_generate_noise=False)
    inc = h.int('inc', 0, 2 ** 60)
    v = h.real('v', -BIG, BIG)
    sc.increment('S', bin=C.SecureCounters.SINGLE_BIN, inc=inc)
    sc.increment('S', inc=inc)
    what = h.choice('what', ['single', 'refused', 'unknown', 'fraction', 'detached'])
    if what == 'refused':
        # a wrong placeholder is a programming error: reported, nothing is counted
        if h.flag('which'):
            _, e = h.call(sc.increment, 'S', bin=v, inc=1)
        else:
            _, e = h.call(sc.increment, 'H', inc=1)
        h.check(isinstance(e, AssertionError), 'a bin value that does not fit is refused')
    elif what == 'unknown':
        sc.increment('T', bin=v, inc=inc)
        sc.increment('T', inc=inc)
    elif what == 'fraction':
        f = h.real('f', 0, 100)
        h.assume(f % 1 != 0)
        _, e = h.call(sc.increment, 'H', bin=v, inc=f)
        h.check(isinstance(e, AssertionError), 'a fractional increment is refused')
    elif what == 'detached':
        first = sc.detach_counts()
        sc.increment('S', inc=inc)
        sc.increment('H', bin=v, inc=inc)
        h.check(sc.detach_counts() is None, 'nothing is left after detaching')
        h.check(values(first, 'S')[0] == 2 * inc, 'detached counts do not change')
        h.cover(what)
        return
    res = sc.detach_counts()
    h.check(values(res, 'S')[0] == 2 * inc, 'single bin counts every increment')
    h.check(h.And([x == 0 for x in values(res, 'H')]), 'refused increments count nothing')
    h.check(sorted(res) == ['H', 'S'], 'no counter appears')
    h.observe('s', values(res, 'S')[0])
    h.cover(what)
