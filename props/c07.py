# -*- coding: utf-8 -*-
'C07 noise weights'
from hx import harness
import privcount.counter as C

TOP = 2 ** 70


@harness(cover=['accepted', 'rejected', 'default'], bounds='0 to 3 relay weights and an optional default, arbitrary '
         'real weights in +-2^70, every threshold in -1..2^21')
def noise_weight_config(h):
    n = h.choice('n', [0, 1, 2, 3])
    conf, ws = {}, []
    for i in range(n):
        w = h.real('w', -TOP, TOP, 16)
        conf['F%d' % i] = w
        ws.append(w)
    d = None
    if h.flag('default'):
        d = conf['*'] = h.real('d', -TOP, TOP, 16)
        h.cover('default')
    t = h.int('threshold', -1, 2 ** 21)
    top = C.max_tally_counter_value()
    ok = C.check_noise_weight_config(conf, t)
    total = h.Sum(ws) + (t * d if d is not None else 0)
    want = h.And([t >= 1, t <= 10 ** 6] +
                 [h.And(w >= 0, w <= top) for w in conf.values()] + [total <= top] +
                 ([n >= t] if d is None else []))
    h.check(h.Iff(ok, want), 'accepted exactly when the weights can cover a threshold of '
            'collectors and stay in range')
    h.observe('ok', bool(ok))
    h.cover('accepted' if ok else 'rejected')


@harness(cover=['own', 'default', 'none'], bounds='a relay with or without a weight of its own, with or without a default')
def noise_weight_lookup(h):
    conf = {'OTHER': h.real('o', 0, 100)}
    w = d = None
    if h.flag('own'):
        w = conf['F'] = h.real('w', 0, 100)
    if h.flag('default'):
        d = conf['*'] = h.real('d', 0, 100)
    fp = h.choice('fp', ['F', None])
    got = C.get_noise_weight(conf, fp)
    if fp == 'F' and w is not None:
        h.check(got is not None and got == w, 'its own weight')
        h.cover('own')
    elif d is not None:
        h.check(got is not None and got == d, 'the default weight')
        h.cover('default')
    else:
        h.check(got is None, 'no weight')
        h.cover('none')
    h.check(C.has_noise_weight(conf, fp) == (got is not None), 'has a weight')
    h.observe('got', got)
