# -*- coding: utf-8 -*-
'C21 what traffic model paths count'
import math
from copy import deepcopy
from hx import harness
from common import INF, values, plain_logs
from events import collector, finish, compare
from privcount.traffic_model import TrafficModel

PACKET = {'state_space': ['s1', 's2', 'sEnd'], 'observation_space': ['+', '-', 'F'],
          'start_probability': {'s1': 0.5, 's2': 0.5},
          'transition_probability': {'s1': {'s1': 0.25, 's2': 0.5, 'sEnd': 0.25}, 's2': {'s1': 1.0}, 'sEnd': {}},
          'emission_probability': {'s1': {'+': [0.5, 1.0, 2.0, 0.0], '-': [0.5, 3.0, 4.0, 0.0]}, 's2': {'-': [1.0, 5.0, 6.0, 0.0]},
                                   'sEnd': {'F': [1.0]}}}
STREAM = {'state_space': ['ActiveA', 'DwellB', 'End'], 'observation_space': ['$', 'F'],
          'start_probability': {'ActiveA': 1.0},
          'transition_probability': {'ActiveA': {'ActiveA': 0.5, 'DwellB': 0.5}, 'DwellB': {'ActiveA': 0.5, 'End': 0.5}, 'End': {}},
          'emission_probability': {'ActiveA': {'$': [1.0, 0.0, 0.0, 0.25]}, 'DwellB': {'$': [1.0, 1.0, 2.0, 0.0]}, 'End': {'F': [1.0]}}}
MODEL = {'packet_model': PACKET, 'stream_model': STREAM}
KINDS = {'packets': ('PRIVCOUNT_VITERBI_PACKETS', 'ViterbiPathPackets', PACKET, 'ExitStreamTrafficModel', 'Stream'),
         'streams': ('PRIVCOUNT_VITERBI_STREAMS', 'ViterbiPathStreams', STREAM, 'ExitCircuitTrafficModel', 'Circuit')}
# what a model counts, by the kind of observation; taken from doc/ and the counter names
GENERAL = ['EmissionCount', 'TransitionCount', 'DelayTime', 'LogDelayTime', 'SquaredLogDelayTime']


def labels():
    'every counter of the two models'
    out = set()
    for kind in KINDS:
        (code, field, m, prefix, what) = KINDS[kind]
        out.update([prefix + x for x in GENERAL] + ['%s%sCount' % (prefix, what)])
        for s in m['emission_probability']:
            for o in m['emission_probability'][s]:
                out.add('%sEmissionCount_%s_%s' % (prefix, s, o))
                for d in delays(s, o):
                    out.add('%s%s_%s_%s' % (prefix, d, s, o))
        for s in m['transition_probability']:
            for t in m['transition_probability'][s]:
                out.add('%sTransitionCount_%s_%s' % (prefix, s, t))
        for s in m['start_probability']:
            out.add('%sTransitionCount_START_%s' % (prefix, s))
    return out


def delays(state, obs):
    if obs in ('+', '-') or (obs == '$' and 'Dwell' in state):
        return ['LogDelayTime', 'SquaredLogDelayTime']
    if obs == '$' and 'Active' in state:
        return ['DelayTime']
    return []


LABELS = labels()
BINS = dict([(n, [[0.0, INF]]) for n in LABELS])


def event(code, field, path, **kw):
    f = {'EventTimestamp': '5.5', field: path}
    f.update(kw)
    return [code] + ['%s=%s' % (k, f[k]) for k in sorted(f)]


def with_model(h, model):
    TrafficModel(deepcopy(model)).register_counters()
    return collector(h, BINS, traffic_model_config=deepcopy(model))


def expect(h, want, kind, path):
    (code, field, m, prefix, what) = KINDS[kind]

    def add(n, v=1):
        if prefix + n in LABELS:
            want[prefix + n][0] += v
    add(what + 'Count')
    for i in range(len(path)):
        (s, o, d) = path[i]
        add('EmissionCount')
        add('EmissionCount_%s_%s' % (s, o))
        log = 0 if d < 1 else int(round(math.log(d)))
        # what the solver need not work out again: log(2 ** 40) < 28
        h.assume(h.And(0 <= log, log <= 28, 0 <= log * log, log * log <= 28 * 28))
        for x in delays(s, o):
            v = d if x == 'DelayTime' else log if x == 'LogDelayTime' else log * log
            add(x, v)
            add('%s_%s_%s' % (x, s, o), v)
        if i == 0:
            add('TransitionCount_START_%s' % s)
        if i + 1 < len(path):
            add('TransitionCount')
            add('TransitionCount_%s_%s' % (s, path[i + 1][0]))


def encode(h, path):
    return '[%s]' % ';'.join(['["%s";"%s";%s]' % (s, o, h.text(d)) for (s, o, d) in path])


def observations(kind):
    m = KINDS[kind][2]['emission_probability']
    # one that the model does not have, too
    return [(s, o) for s in sorted(m) for o in sorted(m[s])] + [('s2' if kind == 'packets' else 'DwellB', 'F'), ('other', '$')]


def paths(h, kind, most):
    c = with_model(h, MODEL)
    want = dict([(n, [0]) for n in LABELS])
    for e in range(h.size('events', 1, 1 if most > 1 else 2)):
        path = []
        for i in range(h.size('length', 0, most)):
            (s, o) = h.choice('observation', observations(kind))
            # delays below one are counted as if they were one
            d = h.int('delay', -10 if kind == 'packets' else 0, 2 ** 40)
            path.append((s, o, d))
            h.cover('path')
        (code, field, m, prefix, what) = KINDS[kind]
        h.check(h.quiet('an event never raises an exception', c.handle_event, event(code, field, encode(h, path))) is True,
                'a good event is handled')
        expect(h, want, kind, path)
    compare(h, finish(h, c), want, 'a path counts its emissions, delays and transitions')


@harness(group='a', cover=['path'], bounds='one packet path of up to two (thorough: three) observations, of seven kinds, with any '
         'delays below 2^40; the logarithm is an uninterpreted increasing function')
def packet_paths(h):
    paths(h, 'packets', 2 if h.tier == 'quick' else 3)


@harness(group='b', cover=['path'], bounds='one stream path of up to three observations, of five kinds, with any delays below 2^40')
def stream_paths(h):
    paths(h, 'streams', 3)


@harness(group='c', cover=['path'], bounds='up to two events with at most one observation each')
def paths_add_up(h):
    paths(h, h.choice('kind', ['packets', 'streams']), 1)


BROKEN = ['', '[', ']', 'null', '5', '[5]', '[null]', '[[]]', '[["s1"]]', '[["s1";"+"]]', '[["s1";"+";"x"]]',
          '[["s1";"+";null]]', '[["s1";"+";NaN]]', '[["s1";"+";Infinity]]', '[["s1";"+";1];["s1";"+";[]]]', '[{"s1":1,"+":1,"x":1}]',
          '[["\xc3\xa9";"+";1]]', '[["\\u00e9";"+";1]]', 'x', '[["s1","+",1]', "[['s1','+',1]]", '\xff', '[["s1";"+";1]]x', '\x00']
# a path without a complete observation is an empty path
EMPTY = ['[[]]', '[["s1"]]', '[["s1";"+"]]']
FIELDS = ['good', 'no time', 'bad time', 'no path', 'other path']


@harness(group='c', cover=['rejected', 'empty', 'ignored', 'counted'], bounds='%d texts that are not paths; events without fields, with models that '
         'lack the part that counts them or without a model' % len(BROKEN))
def broken_paths(h):
    kind = h.choice('kind', ['packets', 'streams'])
    (code, field, m, prefix, what) = KINDS[kind]
    models = {'both': MODEL, 'none': None, 'packets': {'packet_model': PACKET}, 'streams': {'stream_model': STREAM}}
    which = h.choice('model', sorted(models))
    want = dict([(n, [0]) for n in LABELS])
    d = h.int('delay', 1, 2 ** 40)
    good = [('s1', '+', d) if kind == 'packets' else ('ActiveA', '$', d)]
    c = with_model(h, MODEL) if which == 'both' else collector(h, BINS, traffic_model_config=deepcopy(models[which]))
    counts = which in ('both', kind)
    if counts and h.flag('text'):
        t = h.choice('path', BROKEN)
        h.quiet('an event never raises an exception', c.handle_event, event(code, field, t))
        if t in EMPTY:
            want['%s%sCount' % (prefix, what)][0] = 1
            h.cover('empty')
        else:
            h.cover('rejected')
    else:
        f = h.choice('fields', FIELDS)
        e = event(code, field, encode(h, good))
        if f == 'no time':
            e = [x for x in e if not x.startswith('EventTimestamp')]
        elif f == 'bad time':
            e = event(code, field, encode(h, good), EventTimestamp='x')
        elif f == 'no path':
            e = [x for x in e if not x.startswith('Viterbi')]
        elif f == 'other path':
            e = event(code, 'ViterbiPathOther', encode(h, good))
        h.quiet('an event never raises an exception', c.handle_event, e)
        if f == 'good' and counts:
            h.cover('counted')
            expect(h, want, kind, good)
        else:
            h.cover('ignored')
    compare(h, finish(h, c), want, 'a malformed path counts nothing')


@harness(group='c', cover=['done'], bounds='the two models, together and alone: every counter of a model can be configured by its '
         'template, and only those')
def templates(h):
    plain_logs(h)
    which = h.choice('model', ['both', 'packets', 'streams'])
    conf = {'both': MODEL, 'packets': {'packet_model': PACKET}, 'streams': {'stream_model': STREAM}}[which]
    t = TrafficModel(deepcopy(conf))
    mine = [n for n in sorted(LABELS) if which == 'both' or n.startswith(KINDS[which][3])]

    def template(n):
        if '_START_' in n:
            return n.split('_')[0] + '_START_<STATE>'
        if n.count('_'):
            return n.split('_')[0] + ('_<SRCSTATE>_<DSTSTATE>' if 'TransitionCount' in n else '_<STATE>_<OBS>')
        return n
    h.check(set(t.get_all_counter_labels()) == set(mine), 'the counters of a model')
    all_templates = sorted(set([template(n) for n in mine]))
    keep = h.choice('template', all_templates)
    drop = h.flag('all but it')
    chosen = [x for x in all_templates if (x == keep) != drop]
    sigma = dict([(x, {'sensitivity': h.real('sensitivity', 0, 100), 'estimated_value': 0.0}) for x in chosen])
    noise = t.get_noise_init_config({'counters': sigma})
    bins = t.get_bins_init_config({'counters': sigma})
    want = [n for n in mine if template(n) in chosen]
    h.check(noise is not None and set(noise) == set(want), 'noise for the counters of the chosen templates')
    h.check(set(bins) == set(want) and all([bins[n]['bins'] == [[0.0, INF]] for n in bins]), 'one bin for each')
    for n in noise or []:
        h.check(noise[n]['sensitivity'] == sigma[template(n)]['sensitivity'], 'the noise of its template', n)
    h.check(t.get_noise_init_config({'counters': {'NoSuchCount': {}}}) is None, 'an unknown template is an error')
    h.cover('done')
