# -*- coding: utf-8 -*-
'C04 structures that do not match are refused'
from copy import deepcopy
from hx import harness
from common import counters, values, INF
import privcount.counter as C

M = C.counter_modulus()
SPEC = {'A': [[0.0, INF]], 'B': [[0.0, 1.0], [1.0, INF]]}


def filled(h, name):
    c = counters(SPEC, 1.0)
    for k in sorted(c):
        for b in c[k]['bins']:
            b.append(h.int(name, 0, M - 1))
    return c


def damage(h, c):
    'one of the ways in which c can differ in structure'
    k = h.choice('key', ['A', 'B'])
    d = h.choice('damage', ['key', 'bins', 'empty', 'extra bin', 'fewer bins', 'no count', 'long'])
    if d == 'key':
        del c[k]
    elif d == 'bins':
        del c[k]['bins']
    elif d == 'empty':
        c[k]['bins'] = []
    elif d == 'extra bin':
        c[k]['bins'].append([5.0, 6.0, 0])
    elif d == 'fewer bins':
        c['B']['bins'].pop()
    elif d == 'no count':
        c[k]['bins'][-1].pop()
    else:
        c[k]['bins'][0].append(7)
    h.cover(d)


COVER = ['key', 'bins', 'empty', 'extra bin', 'fewer bins', 'no count', 'long']


@harness(cover=COVER + ['good', 'bad'], bounds='2 counters, 1 to 3 participants, at most one with a '
         'damaged structure (7 kinds of damage), every count')
def tally(h):
    n = h.choice('n', [1, 2, 3])
    parts = [filled(h, 'v%d' % i) for i in range(n)]
    orig = deepcopy(parts)
    bad = h.choice('bad', [None] + range(n))
    if bad is not None:
        damage(h, parts[bad])
    sc = C.SecureCounters(counters(SPEC, 1.0), M, require_generate_noise=False)
    ok = h.quiet('no exception', sc.tally_counters, parts)
    h.check(bool(ok) == (bad is None), 'tally succeeds exactly when every structure matches')
    if bad is None:
        res = sc.detach_counts()
        for k in SPEC:
            for b in range(len(SPEC[k])):
                total = h.Sum([values(p, k)[b] for p in orig])
                got = values(res, k)[b]
                h.check((got - total) % M == 0, 'sum modulo the modulus')
                h.observe('%s%d' % (k, b), got)
    h.cover('good' if bad is None else 'bad')


@harness(cover=COVER + ['good', 'bad'], bounds='2 counters, one share with at most one kind of damage, '
         'every blinding value')
def share(h):
    sc = C.SecureCounters(counters(SPEC, 1.0), M, require_generate_noise=False)
    good = filled(h, 'w')
    h.check(sc.import_blinding_share({'secret': deepcopy(good), 'sk_uid': 'x'}), 'a good share')
    s = filled(h, 'v')
    orig = deepcopy(s)
    bad = h.flag('bad')
    if bad:
        damage(h, s)
    ok = h.quiet('no exception', sc.import_blinding_share, {'secret': s, 'sk_uid': 'y'})
    h.check(bool(ok) == (not bad), 'a share is accepted exactly when its structure matches')
    res = sc.detach_counts()
    for k in SPEC:
        for b in range(len(SPEC[k])):
            got = values(res, k)[b]
            want = -values(good, k)[b]
            if not bad:
                want = want - values(orig, k)[b]
            h.check((got - want) % M == 0, 'shares are subtracted; a refused share changes nothing')
            h.observe('%s%d' % (k, b), got)
    h.cover('bad' if bad else 'good')


@harness(group='b', cover=['done'], bounds='3 participants in every order, every count')
def order(h):
    parts = [filled(h, 'v%d' % i) for i in range(3)]
    perm = h.choice('perm', [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    res = []
    for p in ((0, 1, 2), perm):
        sc = C.SecureCounters(counters(SPEC, 1.0), M, require_generate_noise=False)
        h.check(sc.tally_counters([deepcopy(parts[i]) for i in p]), 'tally succeeds')
        res.append(sc.detach_counts())
    for k in SPEC:
        for b in range(len(SPEC[k])):
            h.check(values(res[0], k)[b] == values(res[1], k)[b],
                    'the order of the participants does not matter')
            h.observe('%s%d' % (k, b), values(res[0], k)[b])
    h.cover('done')


@harness(group='b', cover=['done'], bounds='the operations of a round')
def inputs_are_not_shared(h):
    'the counters of one participant are not changed through another'
    conf = counters(SPEC, 1.0)
    before = deepcopy(conf)
    a = C.SecureCounters(conf, M, require_generate_noise=False)
    b = C.SecureCounters(conf, M, require_generate_noise=False)
    x = h.int('x', 0, M - 1)
    a.increment('A', inc=x)
    a.increment('B', bin=0.5, inc=x)
    h.check(conf == before, 'the configuration is not changed')
    h.check(h.And([v == 0 for v in values(b.detach_counts(), 'A')]), 'separate objects')
    got = a.detach_counts()
    h.check(h.And(values(got, 'A')[0] == x, values(got, 'B')[0] == x, values(got, 'B')[1] == 0),
            'counted where it was incremented')
    h.observe('x', x)
    h.cover('done')
