# -*- coding: utf-8 -*-
'C08 delay between rounds with different noise'
from hx import harness
from common import plain_logs
import privcount.counter as C

KEYS = {'A': ['A'], 'AB': ['A', 'B'], 'B': ['B']}


def allocation(h, name, shape, incomplete):
    s = dict([(k, h.real(name + '.' + k, 0, 4096)) for k in KEYS[shape]])
    alloc = {'counters': dict([(k, {'sigma': s[k]}) for k in s])}
    if incomplete:
        # an entry without a sigma is not part of the allocation
        alloc['counters']['C'] = {'epsilon': 1.0}
    return alloc, s


def changed(h, old, new, tol):
    if sorted(old) != sorted(new):
        return True
    return h.Or([old[k] - new[k] > tol for k in old])


FEATURES = ['plain', 'incomplete', 'failed', 'always', 'other counters']


@harness(cover=FEATURES + ['permitted', 'delayed'],
         bounds='0 to 2 rounds (thorough 3) and a proposed one; in at most one of the rounds (thorough two, at two rounds) one of: '
         'failure, forced delay, a different set of counters, an entry without sigma; allocations of 2 counters '
         '(1 for two and more rounds) with arbitrary sigmas, arbitrary times, delay period, tolerance and client round-trip time')
def rounds(h):
    tol = h.real('tol', 0, 16)
    delay = h.real('delay', 0, 2 ** 20)
    rtt = h.real('rtt', 0, 64)
    d = C.CollectionDelay()
    ref, end = None, None
    n = h.choice('rounds', [0, 1, 2] if h.tier == 'quick' else [0, 1, 2, 3])
    plain_logs(h)
    feature = ['plain'] * (n + 1)
    special = h.choice('feature', FEATURES)
    if special != 'plain':
        feature[h.choice('where', range(n + 1))] = special
    if h.tier != 'quick' and special not in ('plain', 'other counters') and n == 2:
        feature[h.choice('where', range(n + 1))] = 'other counters'
    base = 'A' if n >= 2 else 'AB'
    t = h.real('t0', 0, 2 ** 20)
    for i in range(n):
        f = feature[i]
        alloc, s = allocation(h, 'r%d' % i, 'B' if f == 'other counters' else base, f == 'incomplete')
        length = h.real('len', 0, 2 ** 20)
        h.assume(length > 0)
        ok = f != 'failed'
        always = f == 'always'
        d.set_delay_for_stop(ok, alloc, t, t + length, delay, max_client_rtt=rtt,
                             always_delay=always, tolerance=tol)
        t = t + length
        if ok:
            end = t
            # in a series of equivalent allocations the first one is the
            # reference: the noise cannot be lowered step by step
            if ref is None or always:
                ref = s
            elif changed(h, ref, s, tol):
                ref = s
        h.cover(f)
        t = t + h.real('gap', 0, 2 ** 20)
    f = feature[n]
    alloc, s = allocation(h, 'new', 'B' if f == 'other counters' else base, f == 'incomplete')
    start = h.real('start', 0, 2 ** 24)
    always = f == 'always'
    got = d.round_start_permitted(alloc, start, delay, max_client_rtt=rtt, always_delay=always,
                                  tolerance=tol, logging_function=lambda *a: None)
    if end is None:
        want = True
    else:
        wait = h.Or(always, changed(h, ref, s, tol))
        want = start >= end + h.Ite(wait, delay + rtt, 0)
    h.check(h.Iff(got, want), 'a round starts exactly when the delay for its noise is over')
    h.observe('permitted', bool(got))
    if end is not None:
        nxt = d.get_next_round_start_time(alloc, delay, max_client_rtt=rtt, always_delay=always,
                                          tolerance=tol)
        h.check(h.Iff(start >= nxt, got), 'the announced start time is the enforced one')
    h.cover('permitted' if got else 'delayed')


@harness(group='c', cover=['forced', 'failed', 'both', 'permitted', 'delayed'], bounds='two (thorough: three) rounds and a proposed one, each failed or not, '
         'and with a forced delay or not; any sigmas of one counter, times, delay and tolerance')
def failures_and_forced_delays(h):
    plain_logs(h)
    tol, delay = h.real('tol', 0, 16), h.real('delay', 0, 2 ** 20)
    d = C.CollectionDelay()
    ref = end = None
    t = h.real('t0', 0, 2 ** 20)
    for i in range(2 if h.tier == 'quick' else 3):
        (alloc, s) = allocation(h, 'r%d' % i, 'A', False)
        (ok, always) = (not h.flag('failed'), h.flag('always'))
        begin = t + h.real('gap', 0, 2 ** 20)
        t = begin + h.real('len', 0, 2 ** 20)
        h.assume(t > begin)
        d.set_delay_for_stop(ok, alloc, begin, t, delay, always_delay=always, tolerance=tol)
        if ok:
            end = t
            if ref is None or always or changed(h, ref, s, tol):
                ref = s
            if always:
                h.cover('forced')
        else:
            h.cover('both' if always else 'failed')
    (alloc, s) = allocation(h, 'new', 'A', False)
    always = h.flag('always')
    start = h.real('start', 0, 2 ** 24)
    got = d.round_start_permitted(alloc, start, delay, always_delay=always, tolerance=tol, logging_function=lambda *a: None)
    want = True
    if end is not None:
        want = start >= end + h.Ite(h.Or(always, changed(h, ref, s, tol)), delay, 0)
    h.check(h.Iff(got, want), 'failed rounds change nothing, and a forced delay is a delay')
    h.cover('permitted' if got else 'delayed')


@harness(group='b', cover=['yes', 'no'], bounds='every pair of sigmas and every tolerance')
def sigma_change(h):
    a, b = h.real('a', 0, 2 ** 30), h.real('b', 0, 2 ** 30)
    tol = h.real('tol', 0, 2 ** 10)
    got = C.CollectionDelay.sigma_change_needs_delay(a, b, tolerance=tol)
    h.check(h.Iff(got, a - b > tol), 'only a decrease beyond the tolerance needs a delay')
    tight = C.CollectionDelay.sigma_change_needs_delay(a, b)
    h.check(h.Implies(tight, a > b), 'no delay for equal or increased noise')
    h.check(h.Implies(a - b >= 1.0 / 1024, tight), 'the default tolerance is small')
    h.observe('d', bool(got))
    h.cover('yes' if got else 'no')
