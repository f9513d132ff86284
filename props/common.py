# -*- coding: utf-8 -*-
'helpers shared by the harness files'
import sys
from copy import deepcopy

INF = float('inf')


def counters(spec, sigma=0.0):
    'spec: {name: [[lo, hi], ...]}'
    out = {}
    for name in spec:
        out[name] = {'bins': [list(b) for b in spec[name]], 'sigma': sigma}
    return out


def tagged_counters(spec):
    'as counters(), with a different sigma for each counter'
    out = counters(spec)
    for i, name in enumerate(sorted(spec)):
        out[name]['sigma'] = 2.0 ** (i + 3)
    return out


def noise_of(conf, gausses, weight=1.0):
    'the noise samples of each counter, recognised by their sigma'
    out = dict([(k, []) for k in conf])
    for (mu, sigma, z) in gausses:
        for k in conf:
            if conf[k]['sigma'] * weight == sigma:
                out[k].append(z)
    return out


def values(counts, name):
    return [b[2] for b in counts[name]['bins']]


class Rng(object):
    '''
    The CSPRNG: gauss() returns what the harness supplies, getrandbits() an
    arbitrary value of that many bits (assumed below `below`, when rejection
    sampling would otherwise ask again for ever).
    '''
    def __init__(self, h, below=None):
        self.h = h
        self.below = below
        self.bits = []
        self.gausses = []
        self.uniforms = []

    def getrandbits(self, k):
        k = self.h.fix(k)
        v = self.h.int('rand.bits', 0, (1 << int(k)) - 1)
        if self.below is not None:
            self.h.assume(v < self.below)
        self.bits.append((k, v))
        return v

    def gauss(self, mu, sigma):
        z = self.h.int('rand.gauss', -2 ** 40, 2 ** 40)
        self.gausses.append((mu, sigma, z))
        return z

    def random(self):
        u = self.h.real('rand.u', 0, 1 - 1.0 / 1024)
        self.uniforms.append(u)
        return u

    def randint(self, a, b):
        v = self.h.int('rand.int', a, b)
        self.bits.append((a, b, v))
        return v


LOG_TEXTS = ('format_delay_time_until', 'format_delay_time_wait', 'format_period', 'format_elapsed_time_since',
             'format_elapsed_time_wait', 'format_interval_time_between', 'format_last_event_time_since',
             'format_time', 'format_datetime', 'summarise_string', 'summarise_list', 'format_bytes')


def plain_logs(h):
    'times in log messages are not formatted: their text is the subject of C38'
    for name in list(sys.modules):
        m = sys.modules[name]
        if m is not None and name.startswith('privcount.') and name != 'privcount.log':
            for f in LOG_TEXTS:
                if f in m.__dict__:
                    h.patch(m, f, lambda *a, **kw: '')
