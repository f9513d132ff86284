# -*- coding: utf-8 -*-
'what the event harnesses share: an aggregator that counts everything, and comparing what it counted'
from common import INF, plain_logs, values
from nodes import aggregator, FP, reset
import privcount.counter as C


class Silent(object):
    'noise is zero, so that the counts are the true counts'
    def __init__(self, h):
        self.h = h

    def gauss(self, mu, sigma):
        return 0.0

    def random(self):
        return 0.5


def names(keep):
    return sorted([n for n in C.get_valid_counters() if keep(n)])


def collector(h, bins, **kw):
    'bins: {counter: [[lo, hi], ...]}'
    plain_logs(h)
    reset()
    h.rng = Silent(h)
    conf = {}
    for n in bins:
        conf[n] = {'bins': [list(b) for b in bins[n]], 'sigma': 0.0}
    conf['ZeroCount'] = {'bins': [[0.0, INF]], 'sigma': 0.0}
    a = aggregator(h, conf, **kw)
    return a


def finish(h, a):
    'the counts at the end of the round'
    if a.get_fingerprint() is None:
        a.set_fingerprint(FP)
    return a.stop()


def compare(h, counts, want, label='every counter counts exactly what its name says', only=None):
    'want: {counter: [value of each bin]}; a missing counter or None stands for zero'
    h.check(counts is not None, 'the round has counts')
    for n in sorted(counts):
        if only is not None and not only(n):
            continue
        got = values(counts, n)
        exp = want.get(n) or [0] * len(got)
        ok = len(got) == len(exp)
        for i in range(len(got)):
            if ok is True and not h.sym:
                ok = got[i] == exp[i]
            elif ok is not False:
                c = got[i] == exp[i]
                ok = c if ok is True else h.And(ok, c)
        h.check(ok, label, n)
