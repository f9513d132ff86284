# -*- coding: utf-8 -*-
'C22 the noise allocation keeps the privacy budget and equalises the noise'
import math
from hx import harness
from common import INF
import privcount.statistics_noise as N
from privcount.counter import DEFAULT_DUMMY_COUNTER_NAME as ZERO, DEFAULT_SIGMA_TOLERANCE, DEFAULT_EPSILON_TOLERANCE, \
    DEFAULT_SIGMA_RATIO_TOLERANCE


class Unknown(object):
    'an unknown function of numbers: any result, but the same one for the same arguments'
    def __init__(self, h, name, result):
        self.h, self.name, self.result = h, name, result
        self.seen = []

    def __call__(self, *a):
        h = self.h
        for (b, r) in self.seen:
            if len(a) == len(b) and all([h.is_same(x, y) for (x, y) in zip(a, b)]):
                return r
        r = self.result(h, self.name, a)
        for (b, q) in self.seen:
            h.assume(h.Implies(h.And(*[x == y for (x, y) in zip(a, b)]), q == r))
        self.seen.append((a, r))
        return r


@harness(group='a', cover=['inside', 'below', 'above', 'invalid'], bounds='any interval, tolerance and monotone condition (one '
         'with any threshold), with at most 16 tolerances in the interval (thorough: 128)')
def search(h):
    most = 16 if h.tier == 'quick' else 128
    lo, hi = h.real('lo', -1000, 1000), h.real('hi', -1000, 1000)
    tol = h.real('tol', 1.0 / 1024, 1000)
    t = h.real('threshold', -3000, 3000)
    h.assume(hi - lo <= most * tol)
    strict = h.flag('strict')
    want = h.flag('return true')
    asked = []

    def fn(x):
        asked.append(x)
        return True if (t < x if strict else t <= x) else False
    (r, e) = h.call(N.interval_boolean_binary_search, fn, lo, hi, tol, want)
    if hi < lo:
        h.check(isinstance(e, ValueError), 'an empty interval is refused')
        h.cover('invalid')
        return
    for x in asked:
        h.check(h.And(lo <= x, x <= hi), 'nothing outside the interval is tried')
    below = (t < lo) if strict else (t <= lo)
    above = (hi <= t) if strict else (hi < t)
    if below:
        h.check(r is lo if want else isinstance(e, ValueError), 'a condition that holds everywhere')
        h.cover('below')
    elif above:
        h.check(isinstance(e, ValueError) if want else r is hi, 'a condition that holds nowhere')
        h.cover('above')
    else:
        h.check(e is None, 'there is a result', str(e))
        if e is None:
            ok = fn(r)
            h.check(h.And(lo <= r, r <= hi, abs(r - t) <= tol), 'the result is within the tolerance of the threshold')
            h.check(ok is want, 'the result is on the right side of the threshold')
        h.cover('inside')


@harness(group='a', cover=['satisfied', 'not satisfied'], bounds='five sensitivities, five deviations, seven deltas, any epsilon below 2^20; '
         'the error function is an unknown function; the condition is compared as a term')
def condition(h):
    s = h.choice('sensitivity', [0.5, 1.0, 3.0, 146.0, 30000.0])
    std = h.choice('std', [0.25, 1.0, 4.0, 128.0, 2.0 ** 20])
    delta = h.choice('delta', [0.0, 2.0 ** -40, 2.0 ** -10, 0.125, 0.5, 0.75, 1.0])
    eps = h.real('epsilon', 0, 2 ** 20)
    # a value of the normal distribution below which epsilon is exceeded
    x = s / 2.0 - eps * std * std / s
    seen = []

    def erf(y):
        r = h.real('erf', -1, 1, 2 ** 44)
        seen.append((y, r))
        return r
    h.patch(N, 'math', Math(erf=erf))
    ok = N.satisfies_dp(s, eps, delta, std)
    h.check(ok is True or ok is False, 'the answer is a plain boolean')
    h.check(len(seen) == 1, 'the probability of the tail is computed once')
    for (y, r) in seen:
        h.check(abs(y * (std * math.sqrt(2.0)) - x) <= 1e-9 * (1 + eps) * std * std, 'the tail begins where epsilon is exceeded')
        h.check(ok == ((1 + r) / 2 <= delta), 'the tail must not exceed delta')
    h.cover('satisfied' if ok else 'not satisfied')


class Math(object):
    def __init__(self, **kw):
        for k in dir(math):
            if k[0].isalpha() and k != 'class':
                setattr(self, k, getattr(math, k))
        self.__dict__.update(kw)


def contract(h, calls):
    'what the search harness shows of the search: used in place of it'
    def search(fn, lo, hi, tol, return_true=True):
        h.check(return_true is True, 'the smallest value is wanted')
        h.check(lo <= hi, 'the search interval is not empty')
        if fn(lo):
            return lo
        r = h.anyreal('found')
        h.assume(h.And(lo < r, r <= hi))
        if not fn(r):
            h.assume(False)
        if not fn(hi):
            raise ValueError('no')
        calls.append((lo, hi, tol, r))
        return r
    return search


@harness(group='a', cover=['deviation', 'epsilon', 'no noise'], bounds='any sensitivity, epsilon, deviation and tolerance, five deltas, any condition '
         'of differential privacy (an unknown function); the search is replaced by what is shown of it')
def single(h):
    calls = []
    dp = Unknown(h, 'dp', lambda h, name, a: h.bool(name))
    h.patch(N, 'satisfies_dp', lambda *a: True if dp(*a) else False)
    h.patch(N, 'interval_boolean_binary_search', contract(h, calls))
    s = h.real('sensitivity', 1.0 / 1024, 2 ** 20)
    delta = h.choice('delta', [2.0 ** -40, 2.0 ** -10, 1e-3, 0.1, 0.5])
    tol = h.real('tolerance', 2.0 ** -20, 1)
    if h.flag('find deviation'):
        e = h.real('epsilon', 1.0 / 1024, 1024)
        h.assume(s / e * (4.0 / 3.0) * math.sqrt(2 * math.log(1.0 / delta)) > tol)
        (r, err) = h.call(N.get_differentially_private_std, s, e, delta, tol)
        if err is None:
            h.check(dp(s, e, delta, r) == True, 'the deviation satisfies the condition')
            h.check(h.And(h.Not(dp(s, e, delta, tol)), r > tol), 'no deviation when the lower bound is no bound')
            for (lo, hi, t, x) in calls:
                h.check(h.And(lo == tol, t == tol), 'bounds of the search')
                h.check(abs(hi * e * 3 - s * 4 * math.sqrt(2 * math.log(1.0 / delta))) <= 1e-9 * s * 10, 'largest deviation')
            h.cover('deviation')
        else:
            h.check(isinstance(err, ValueError), 'no other errors', str(err))
    else:
        std = h.choice('deviation', [0.0, 1.0, 16.0, 2.0 ** 16])
        (r, err) = h.call(N.get_differentially_private_epsilon, s, std, delta, tol)
        if std == 0:
            h.check(err is None and r == 0, 'a counter without noise uses no budget')
            h.cover('no noise')
        elif err is None:
            h.check(dp(s, r, delta, std) == True, 'the epsilon satisfies the condition')
            for (lo, hi, t, x) in calls:
                h.check(h.And(lo == 0, t == tol), 'bounds of the search')
                h.check(abs(hi * std - s * math.sqrt(2 * math.log(2.0 / delta))) <= 1e-9 * s * 10, 'largest epsilon')
            h.cover('epsilon')
        else:
            h.check(isinstance(err, ValueError), 'no other errors', str(err))


VALUES = [(1.0, 8.0), (2.0, 100.0), (0.5, 3.0)]


@harness(group='b', cover=['allocated', 'zero'], bounds='one to three statistics (and one that is a dummy), any budget, excess noise ratio 0, 1, 2 or 9; the smallest '
         'deviation and the epsilon of a deviation are unknown functions')
def allocation(h):
    n = h.size('statistics', 1, 3)
    stats = dict([('S%d' % i, VALUES[i]) for i in range(n)])
    if h.flag('dummy'):
        stats['Zero'] = (0.0, 0.0)
    total = h.real('epsilon', 1.0 / 1024, 16)
    delta = h.choice('delta', [2.0 ** -10, 0.25])
    excess = h.choice('excess', [0.0, 1.0, 2.0, 9.0])
    tols = (2.0 ** -10, 2.0 ** -20, 2.0 ** -12)
    stds, found, shares = [], [], []

    def smallest_std(s, e, d, tol=None):
        h.check(tol == tols[0], 'tolerance of the deviation')
        h.check(d == delta / len(stats), 'delta is shared equally')
        r = h.real('std', 2.0 ** -10, 2 ** 20)
        shares.append(e)
        stds.append((s, e, r))
        return r
    epsilon_of = Unknown(h, 'epsilon of', lambda h, name, a: h.real(name, 0, 64))

    def consumed(s, std, d, tol=None):
        h.check(tol == tols[1], 'tolerance of epsilon')
        h.check(d == delta / len(stats), 'delta is shared equally')
        return epsilon_of(s, std) if s else 0.0
    h.patch(N, 'get_differentially_private_std', smallest_std)
    h.patch(N, 'get_differentially_private_epsilon', consumed)
    h.patch(N, 'interval_boolean_binary_search', contract(h, found))
    (r, err) = h.call(N.get_opt_privacy_allocation, total, delta, stats, excess, *tols)
    # the approximation divides the budget so that the noise is proportional
    if n == len(shares):
        h.check(abs(h.Sum(shares) - total) <= 1e-9 * total, 'the approximation divides the whole budget')
        for (s, e, x) in stds:
            (s0, e0, x0) = stds[0]
            v = dict(VALUES)[s]
            v0 = dict(VALUES)[s0]
            h.check(abs(e / (s / v) - e0 / (s0 / v0)) <= 1e-9 * (1 + total) * 100, 'and proportionally')
    else:
        h.check(False, 'every statistic has a deviation')
    if err is not None:
        h.check(isinstance(err, ValueError), 'no other errors', '%s %s' % (type(err), err))
        return
    (epsilons, sigmas, ratio) = r
    h.check(set(epsilons) == set(sigmas) == set(stats), 'every statistic has a result')
    h.check(h.Sum([epsilons[k] for k in sorted(stats)]) <= total, 'the budget is kept')
    for k in sorted(stats):
        (s, v) = stats[k]
        if s:
            want = 0.0 if excess == 0 else ratio * v / math.sqrt(excess)
            h.check(abs(sigmas[k] - want) <= 1e-9 * (1 + abs(want)), 'the noise is in the same proportion for all', k)
            h.check(epsilons[k] == epsilon_of(s, sigmas[k]), 'the epsilon is that of the deviation', k)
        else:
            h.check(sigmas[k] == 0 and epsilons[k] == 0, 'a dummy gets no noise')
            h.cover('zero')
    for (lo, hi, tol, x) in found:
        h.check(tol == tols[2], 'tolerance of the ratio')
    h.cover('allocated')


NAMES = ['ExitStreamCount', 'ExitCircuitCount', 'EntryClientIPCount', 'HSDir3StoreCount', 'EntryConnectionCount', 'ExitWebCircuitCount']
# affected by the sample rate of circuits, as the streams of a circuit are
SAMPLED = ['ExitStreamCount', 'ExitCircuitCount', 'EntryClientIPCount', 'ExitWebCircuitCount']


@harness(group='b', cover=['sampled', 'defaults', 'sanity'], bounds='one to two of six counters with any sensitivities and estimates, '
         'any sample rate and budget, tolerances given or not')
def adapter(h):
    rate = h.real('rate', 0, 1)
    names = [h.choice('counter', NAMES)]
    if h.flag('two'):
        names.append(NAMES[(NAMES.index(names[0]) + 1) % len(NAMES)])
    given = {}
    for n in names:
        given[n] = (h.real('sensitivity', 1.0 / 1024, 1000), h.real('estimate', 1, 2 ** 20))
    (e, d) = (h.real('epsilon', 0, 10), h.real('delta', 0, 1))
    excess = h.choice('excess', [0.0, 1.0, 4.0])
    conf = {'privacy': {'epsilon': e, 'delta': d, 'excess_noise_ratio': excess},
            'counters': dict([(n, {'sensitivity': given[n][0], 'estimated_value': given[n][1], 'bins': ['b']}) for n in names])}
    tols = [h.real('tol', 0, 1) if h.flag('given') else None for i in range(3)]
    for (k, t) in zip(['sigma_tolerance', 'epsilon_tolerance', 'sigma_ratio_tolerance'], tols):
        if t is not None:
            conf['privacy'][k] = t
    asked = []
    out = dict([(n, (h.real('eps', 0, 10), h.real('sigma', 0, 2 ** 20))) for n in names])
    ratio = h.real('ratio', 0, 1000)

    def allocate(e1, d1, stats, x, sigma_tol=None, epsilon_tol=None, sigma_ratio_tol=None):
        asked.append((e1, d1, dict(stats), x, sigma_tol, epsilon_tol, sigma_ratio_tol))
        return (dict([(n, out[n][0]) for n in stats]), dict([(n, out[n][1]) for n in stats]), ratio)
    h.patch(N, 'get_opt_privacy_allocation', allocate)
    sanity = h.choice('sanity', [ZERO, None, 'other'])
    kw = {} if sanity == ZERO else {'sanity_check': sanity}
    r = N.get_noise_allocation(conf, circuit_sample_rate=rate, **kw)
    h.check(len(asked) == 1, 'one allocation')
    (e1, d1, stats, x) = asked[0][:4]
    h.check(h.And(e1 == e, d1 == d, x == excess), 'the budget is passed on')
    h.check(set(stats) == set(names), 'all statistics take part')
    for n in names:
        scaled = given[n][1] * rate if n in SAMPLED else given[n][1]
        if n in SAMPLED:
            h.cover('sampled')
        h.check(h.And(stats[n][0] == given[n][0], stats[n][1] == scaled), 'estimates of circuits are scaled by the sample rate', n)
        c = r['counters'][n]
        h.check(h.And(c['sensitivity'] == given[n][0], c['estimated_value'] == given[n][1]), 'the configuration is kept', n)
        h.check(c['bins'] == ['b'], 'the bins are kept')
        h.check(h.And(c['sigma'] == out[n][1], c['epsilon'] == out[n][0]), 'each counter gets its own noise', n)
        # the noise relative to the expected value, which is the scaled one
        if scaled == 0:
            h.check(c['expected_noise_ratio'] == 0, 'no ratio without a value')
        else:
            h.check(abs(c['expected_noise_ratio'] * scaled - out[n][1] * math.sqrt(excess)) <= 1e-9 * (1 + out[n][1]),
                    'the ratio is that of the noise and the expected value', n)
    default = (DEFAULT_SIGMA_TOLERANCE, DEFAULT_EPSILON_TOLERANCE, DEFAULT_SIGMA_RATIO_TOLERANCE)
    for i in range(3):
        h.check(asked[0][4 + i] == (default[i] if tols[i] is None else tols[i]), 'tolerances')
        if tols[i] is None:
            h.cover('defaults')
    h.check(r['privacy']['sigma_ratio'] == ratio, 'the ratio is reported')
    if sanity is None:
        h.check(set(r['counters']) == set(names), 'no sanity counter')
    else:
        h.check(set(r['counters']) == set(names + [sanity]), 'a sanity counter')
        z = r['counters'].get(sanity, {})
        h.check(z.get('sigma') == 0 and z.get('bins') == [[-INF, INF]] and z.get('epsilon') == 0, 'the sanity counter has no noise')
        h.cover('sanity')


@harness(group='a', cover=['done'], bounds='any deviation, ratio and estimate; five excess noise ratios')
def inverse(h):
    excess = h.choice('excess', [0.25, 1.0, 2.0, 9.0])
    v = h.choice('estimate', [1.0, 3.0, 2.0 ** 20])
    x = h.real('x', 0, 2 ** 20)
    h.check(abs(N.get_expected_noise_ratio(excess, N.get_sigma(excess, x, v), v) - x) <= 1e-9 * (1 + x), 'ratio of sigma')
    h.check(abs(N.get_sigma(excess, N.get_expected_noise_ratio(excess, x, v), v) - x) <= 1e-9 * (1 + x), 'sigma of ratio')
    h.check(N.get_sigma(0.0, x, v) == 0, 'no noise without excess noise')
    h.check(N.get_expected_noise_ratio(excess, x, 0.0) == 0, 'no ratio without an estimate')
    h.cover('done')
