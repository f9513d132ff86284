# -*- coding: utf-8 -*-
'C37 traffic models: which are valid, and how they are updated'
import math
from copy import deepcopy
from hx import harness
from common import plain_logs, INF
import privcount.traffic_model as M

PACKET = 'ExitStreamTrafficModel'
STREAM = 'ExitCircuitTrafficModel'


def start(h):
    plain_logs(h)


def row(h, tag, keys, ends=(0, 1)):
    'probabilities of which the sum is 1'
    out = {}
    rest = 1
    for (i, k) in enumerate(keys[:-1]):
        p = h.real('%s.%d' % (tag, i), 0, 1)
        h.assume(p <= rest)
        out[k] = p
        rest = rest - p
    out[keys[-1]] = rest * 1.0
    return out


def fixed(keys):
    n = float(len(keys))
    return dict([(k, 1 / n) for k in keys])


def packet(probs):
    'p(tag, keys) is a distribution over the keys'
    s = ['Blabbing', 'Thinking', 'xEnd']
    e = {'Blabbing': ['+', '-'], 'Thinking': ['-', 'F'], 'xEnd': ['F']}
    m = {'state_space': s, 'observation_space': ['+', '-', 'F'], 'start_probability': probs('start', s[:2]),
         'transition_probability': {'Blabbing': probs('t.B', s), 'Thinking': probs('t.T', s[:2]), 'xEnd': {}},
         'emission_probability': {}}
    for x in e:
        d = probs('e.' + x, e[x])
        m['emission_probability'][x] = dict([(o, [d[o]] if o == 'F' else [d[o], 2.0, 1.0, 0.0]) for o in e[x]])
    return m


def stream(probs):
    s = ['Active', 'Dwell', 'End']
    e = {'Active': ['$', 'F'], 'Dwell': ['$'], 'End': ['F']}
    m = {'state_space': s, 'observation_space': ['$', 'F'], 'start_probability': probs('s.start', s[:2]),
         'transition_probability': {'Active': probs('s.A', s), 'Dwell': probs('s.D', s[:1]), 'End': {'End': 0.0}},
         'emission_probability': {}}
    for x in e:
        d = probs('s.e.' + x, e[x])
        m['emission_probability'][x] = dict([(o, [d[o]] if o == 'F' else [d[o], 0.0, 0.0, 0.25] if x == 'Active' else [d[o], 2.0, 1.0, 0.0])
                                             for o in e[x]])
    return m


def updated(h, old, tally, inertia=0.5):
    'what becomes of a distribution'
    t = dict([(k, h.Ite(tally[k] > 0, tally[k], 0)) for k in old])
    total = sum(t.values())
    if not old or not (total > 0):
        return dict(old), False
    return dict([(k, inertia * old[k] + (1 - inertia) * t[k] * 1.0 / total) for k in old]), True


def same(h, got, want, label):
    h.check(sorted(got) == sorted(want), 'the same states')
    for k in sorted(want):
        h.check(h.near(got[k], want[k]), label, k)


PARTS = ['start', 'transition', 'emission']


@harness(cover=PARTS + ['counted', 'nothing'], bounds='models of three states, any probabilities, and tallies of any sign; in one distribution at a time')
def probabilities(h):
    start(h)
    which = h.choice('model', ['packet_model', 'stream_model'])
    part = h.choice('part', PARTS)
    h.cover(part)
    prefix = PACKET if which == 'packet_model' else STREAM
    tags = {'start': ['start', 's.start'], 'transition': ['t.B', 's.A'], 'emission': ['e.' + h.choice('state', ['Blabbing', 'Thinking']), 's.e.Active']}[part]
    build = packet if which == 'packet_model' else stream
    model = build(lambda tag, keys: row(h, tag, keys) if tag in tags else fixed(keys))
    before = deepcopy(model)
    h.check(h.quiet('check', M.check_traffic_model_config, {which: model}) is True, 'the model is valid')
    state = {'packet_model': 'Blabbing', 'stream_model': 'Active'}[which]
    if part == 'start':
        old = before['start_probability']
        labels = dict([(s, '%sTransitionCount_START_%s' % (prefix, s)) for s in old])
    elif part == 'transition':
        old = before['transition_probability'][state]
        labels = dict([(s, '%sTransitionCount_%s_%s' % (prefix, state, s)) for s in old])
    else:
        state = tags[0][2:] if which == 'packet_model' else 'Active'
        old = dict([(o, v[0]) for (o, v) in before['emission_probability'][state].items()])
        labels = dict([(o, '%sEmissionCount_%s_%s' % (prefix, state, o)) for o in old])
    tally = dict([(k, h.int('tally %s' % k, -2 ** 20, 2 ** 40)) for k in sorted(old)])
    given = dict([(labels[k], tally[k]) for k in old])
    if which == 'stream_model':
        # the times of streams are counted too
        given['%sDelayTime_Active_$' % STREAM] = 100
        given.setdefault('%sEmissionCount_Active_$' % STREAM, 50)
        if part == 'emission':
            h.assume(tally['$'] > 0)
    missing = h.choice('missing', [None] + sorted(old))
    if missing is not None:
        # a counter that was not collected counts nothing
        if which == 'stream_model' and missing == '$':
            missing = 'F' if part == 'emission' else missing
        given.pop(labels[missing])
        tally[missing] = 0
    (want, counted) = updated(h, old, tally)
    tm = M.TrafficModel({which: model})
    new = h.quiet('update', tm.update_from_tallies, given)
    got = new[which]
    h.check(sorted(new) == [which] and sorted(got) == sorted(before), 'a model of the same kind')
    h.check(got['state_space'] == before['state_space'] and got['observation_space'] == before['observation_space'], 'the same states and observations')
    if part == 'start':
        dist = got['start_probability']
    elif part == 'transition':
        dist = got['transition_probability'][state]
    else:
        dist = dict([(o, v[0]) for (o, v) in got['emission_probability'][state].items()])
        h.check(dict([(o, len(v)) for (o, v) in got['emission_probability'][state].items()]) ==
                dict([(o, len(v)) for (o, v) in before['emission_probability'][state].items()]), 'the same parameters')
    same(h, dist, want, 'half of the old and half of the counted probability')
    h.check(h.And([p >= 0 for p in dist.values()]), 'no negative probabilities')
    h.check(h.near(sum(dist.values()), 1), 'the sum is one')
    # what was not counted stays as it is
    if part != 'start':
        same(h, got['start_probability'], before['start_probability'], 'what is not counted stays')
    for s in before['transition_probability']:
        if part != 'transition' or s != state:
            same(h, got['transition_probability'][s], before['transition_probability'][s], 'what is not counted stays')
    for s in before['emission_probability']:
        if (part != 'emission' or s != state) and s != 'Active':
            same(h, dict([(o, v[0]) for (o, v) in got['emission_probability'][s].items()]),
                 dict([(o, v[0]) for (o, v) in before['emission_probability'][s].items()]), 'what is not counted stays')
    h.cover('counted' if counted else 'nothing')


@harness(group='b', cover=['lognormal', 'exponential', 'no times', 'constant', 'negative'], bounds='any counts and sums of delays, of any sign; any parameters')
def parameters(h):
    start(h)
    kind = h.choice('kind', ['lognormal', 'exponential', 'dwell'])
    (which, prefix, state, obs) = {'lognormal': ('packet_model', PACKET, 'Blabbing', '+'), 'exponential': ('stream_model', STREAM, 'Active', '$'),
                                   'dwell': ('stream_model', STREAM, 'Dwell', '$')}[kind]
    model = (packet if which == 'packet_model' else stream)(lambda tag, keys: fixed(keys))
    v = model['emission_probability'][state][obs]
    count = h.int('count', 1, 2 ** 20)
    given = {'%sEmissionCount_%s_%s' % (prefix, state, obs): count}
    if kind == 'exponential':
        rate = v[3] = h.real('rate', 0, 64)
        h.assume(rate > 0)
        delay = given['%sDelayTime_Active_$' % STREAM] = h.int('delay', -2 ** 20, 2 ** 40)
        (got, e) = h.call(M.TrafficModel({which: model}).update_from_tallies, given)
        h.cover('exponential')
        if delay <= 0:
            # the rate is infinite: the tally server keeps the old model
            h.check(e is not None, 'no model without times')
            h.cover('no times')
            return
        h.check(e is None, 'a model')
        new = got[which]['emission_probability'][state][obs]
        # the mean time between streams is half the old and half the counted one
        h.check(h.near(new[3] * (count + rate * delay), 2 * rate * count), 'half of the old and half of the counted mean time')
        h.check(h.And(new[3] > 0, new[1] == 0, new[2] == 0), 'a rate, and nothing else')
        return
    given['%sEmissionCount_Active_$' % STREAM] = given.get('%sEmissionCount_Active_$' % STREAM, 50)
    given['%sDelayTime_Active_$' % STREAM] = 100
    h.cover('lognormal')
    (mu, sigma) = (h.real('mu', 0, 64), h.real('sigma', 0, 64))
    (v[1], v[2]) = (mu, sigma)
    logs = given['%sLogDelayTime_%s_%s' % (prefix, state, obs)] = h.int('logs', -2 ** 20, 2 ** 30)
    squares = given['%sSquaredLogDelayTime_%s_%s' % (prefix, state, obs)] = h.int('squares', -2 ** 20, 2 ** 40)
    got = h.quiet('update', M.TrafficModel({which: model}).update_from_tallies, given)
    new = got[which]['emission_probability'][state][obs]
    h.check(len(new) == 4 and new[3] == 0, 'a mean and a deviation')
    if logs > 0:
        h.check(h.near(2 * count * new[1], count * mu + logs), 'half of the old and half of the counted mean')
    else:
        h.check(h.near(2 * new[1], mu), 'half of the old mean')
        h.cover('negative')
    h.check(2 * new[2] >= sigma + 0.0099, 'the deviation is never zero')
    dev = 2 * new[2] - sigma
    ratio = h.Ite(logs > 0, logs, 0)
    # count^2 * variance
    var = squares * count - ratio * ratio
    if 100 * var > 11 * count * count and squares > 0:
        h.check(h.near(dev * dev * count * count, var), 'half of the old and half of the counted deviation')
    else:
        h.check(dev <= 0.34, 'a small deviation if there is none')
        h.cover('constant')


MISTAKES = ['nothing', 'no key', 'unknown start', 'unknown source', 'unknown target', 'unknown emitter', 'unknown observation', 'few parameters',
            'many parameters', 'observation space', 'end']


@harness(group='c', cover=MISTAKES + ['valid', 'invalid'], bounds='any probabilities in one distribution of a model, and one of %d mistakes' % len(MISTAKES))
def validity(h):
    start(h)
    which = h.choice('model', ['packet_model', 'stream_model'])
    build = packet if which == 'packet_model' else stream
    part = h.choice('part', PARTS)
    sums = [1]

    def probs(tag, keys):
        if tag not in {'start': ['start', 's.start'], 'transition': ['t.B', 's.A'], 'emission': ['e.Blabbing', 's.e.Active']}[part]:
            return fixed(keys)
        d = dict([(k, h.real('p %s' % k, 0, 2)) for k in keys])
        sums.append(sum(d.values()))
        return d
    m = build(probs)
    bad = h.choice('mistake', MISTAKES)
    h.cover(bad)
    state = {'packet_model': 'Blabbing', 'stream_model': 'Active'}[which]
    ok = bad in ('nothing', 'end')
    if bad == 'no key':
        del m[h.choice('key', ['observation_space', 'start_probability', 'transition_probability', 'emission_probability'])]
    elif bad == 'unknown start':
        m['start_probability']['Other'] = 0.0
    elif bad == 'unknown source':
        m['transition_probability']['Other'] = {state: 1.0}
    elif bad == 'unknown target':
        m['transition_probability'][state]['Other'] = 0.0
    elif bad == 'unknown emitter':
        m['emission_probability']['Other'] = {'F': [1.0]}
    elif bad == 'unknown observation':
        m['emission_probability'][state]['!'] = [0.0]
    elif bad in ('few parameters', 'many parameters'):
        v = m['emission_probability'][state][h.choice('obs', sorted(m['emission_probability'][state]))]
        if bad == 'few parameters' and len(v) > 1:
            v.pop()
        else:
            v.append(0.0)
    elif bad == 'observation space':
        gone = h.choice('gone', m['observation_space'])
        m['observation_space'] = [o for o in m['observation_space'] if o != gone]
    elif bad == 'end':
        # the sum does not matter for the end, from which nothing follows
        end = [s for s in m['transition_probability'] if 'End' in s][0]
        m['transition_probability'][end] = {end: h.real('after the end', 0, 1)}
    total = sums[-1]
    h.assume(h.Or(total == 1, total > 1.001, total < 0.999))
    conf = {which: m}
    if h.flag('two models'):
        conf[{'packet_model': 'stream_model', 'stream_model': 'packet_model'}[which]] = (stream if build is packet else packet)(lambda t, k: fixed(k))
    try:
        got = M.check_traffic_model_config(conf)
    except KeyError:
        got = False
    ok = h.And(ok, total == 1)
    h.check(h.Iff(got, ok), 'exactly the valid models are accepted', bad)
    h.check(M.check_traffic_model_config(None) is False and M.check_traffic_model_config({}) is False, 'no model is not valid')
    h.cover('valid' if got else 'invalid')


@harness(group='c', cover=['packet_model', 'stream_model', 'both'], bounds='models of one or two kinds with any probabilities, which may be zero, and noise for any '
         'of the counters')
def counters(h):
    start(h)
    kinds = h.choice('models', [['packet_model'], ['stream_model'], ['packet_model', 'stream_model']])
    h.cover('both' if len(kinds) > 1 else kinds[0])
    zero = h.choice('zero', ['start', 't.B', 's.start', 's.A', 'none'])
    conf = dict([(k, (packet if k[0] == 'p' else stream)(lambda tag, keys: row(h, tag, keys) if tag == zero else fixed(keys))) for k in kinds])
    tm = M.TrafficModel(conf)
    labels = tm.get_all_counter_labels()
    read = set()

    class Tallies(dict):
        def __contains__(self, k):
            read.add(k)
            return False

        def get(self, k, d=None):
            read.add(k)
            return d
    every = Everything()
    noise = {'counters': every}
    bins = h.quiet('bins', tm.get_bins_init_config, noise)
    h.check(sorted(bins) == sorted(labels), 'every counter has bins')
    h.check([b for b in bins.values() if b != {'bins': [[0.0, INF]]}] == [], 'of one bin')
    h.check(len(set([id(b['bins'][0]) for b in bins.values()])) == len(bins), 'of its own')
    for k in kinds:
        prefix = PACKET if k[0] == 'p' else STREAM
        m = conf[k]
        for s in m['start_probability']:
            h.check(h.Iff(m['start_probability'][s] > 0, '%sTransitionCount_START_%s' % (prefix, s) in labels), 'possible starts are counted')
        for s in m['transition_probability']:
            for d in m['transition_probability'][s]:
                h.check(h.Iff(m['transition_probability'][s][d] > 0, '%sTransitionCount_%s_%s' % (prefix, s, d) in labels), 'possible transitions are counted')
        for s in m['emission_probability']:
            for o in m['emission_probability'][s]:
                h.check('%sEmissionCount_%s_%s' % (prefix, s, o) in labels, 'every emission is counted')
    # what is read to update the model is counted
    h.call(M.TrafficModel(deepcopy(conf)).update_from_tallies, Tallies())
    for l in read:
        impossible = 'Transition' in l and l not in labels
        h.check(l in labels or impossible, 'what is needed to update the model is counted', l)
    wanted = h.choice('noise', ['all', 'some', 'unknown', 'none'])
    templates = sorted(every.asked)
    if wanted == 'some':
        templates = templates[::2]
    given = dict([(t, {'sigma': i}) for (i, t) in enumerate(templates)])
    if wanted == 'unknown':
        given['NoSuchCount'] = {'sigma': 1}
    n = {'counters': given} if wanted != 'none' else {}
    valid = h.quiet('check', tm.check_noise_config, n)
    h.check(valid == (wanted in ('all', 'some')), 'noise is for counters of the model')
    if valid:
        (b, z) = (h.quiet('bins', tm.get_bins_init_config, n), h.quiet('noise', tm.get_noise_init_config, n))
        h.check(sorted(b) == sorted(z), 'the counters that have noise are those that have bins')
        h.check(set(b) == set([l for l in labels if every.template.get(l) in given]) or not every.template, 'the counters of the templates')
        if wanted == 'all':
            h.check(sorted(b) == sorted(labels), 'all of them')
    else:
        h.check(h.quiet('noise', tm.get_noise_init_config, n) is None, 'no noise otherwise')


class Everything(dict):
    'a dictionary with every key'
    def __init__(self):
        self.asked = set()
        self.template = {}

    def __contains__(self, k):
        self.asked.add(k)
        return True


@harness(group='d', cover=['normalised'], bounds='any positive numbers in one distribution of a model')
def normalised(h):
    start(h)
    part = h.choice('part', PARTS)
    tag_ = {'start': 'start', 'transition': 't.B', 'emission': 'e.Blabbing'}[part]
    raw = {}

    def probs(tag, keys):
        if tag != tag_:
            return dict([(k, 3.0) for k in keys])
        d = dict([(k, h.real('p %s' % k, 0, 2 ** 20)) for k in keys])
        for k in keys:
            h.assume(d[k] > 0.001)
        raw.update(d)
        return d
    conf = {'packet_model': packet(probs), 'stream_model': stream(lambda t, k: dict([(x, 5.0) for x in k]))}
    conf['stream_model']['transition_probability']['End'] = {}
    new = h.quiet('normalise', M.normalize_traffic_model_config, conf)
    m = new['packet_model']
    if part == 'start':
        d = m['start_probability']
    elif part == 'transition':
        d = m['transition_probability']['Blabbing']
    else:
        d = dict([(o, v[0]) for (o, v) in m['emission_probability']['Blabbing'].items()])
    total = sum(raw.values())
    for k in sorted(raw):
        h.check(h.near(d[k] * total, raw[k]), 'the shares of the numbers')
    h.check(h.quiet('check', M.check_traffic_model_config, new) is True, 'a valid model')
    h.cover('normalised')
