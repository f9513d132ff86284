# -*- coding: utf-8 -*-
'C35 lists that overlap'
import hashlib
from hx import harness
from common import plain_logs
from symdom import name, is_suffix, equal
import privcount.match as M

SHAPES = [[[1], [2]], [[2], [1]], [[2], [2]], [[3], [1, 2]], [[2, 1], [2]], [[1], [2], [1]], [[3], [2], [1]]]
MORE = [[[2, 3], [2, 1]], [[1, 2], [1, 2]], [[2], [2], [2]], [[3], [3], [2]], [[2, 2], [3]]]


def lists_of(h, shape):
    both = [[name(h, 'list%d' % i, n, cases=True) for n in s] for (i, s) in enumerate(shape)]
    return [[b[0] for b in l] for l in both], [[b[1] for b in l] for l in both]


def shapes(h):
    return h.choice('shape', SHAPES if h.tier == 'quick' else SHAPES + MORE)


def start(h):
    plain_logs(h)
    h.patch(M, 'json_serialise', lambda x: '')


@harness(cover=['first', 'later', 'none', 'overlap'], bounds='two or three lists of one or two names of one to three components, any texts, which may be '
         'equal or ends of each other, and any name to find')
def suffixes(h):
    start(h)
    (lists, ids) = lists_of(h, shapes(h))
    tree = {}
    for (i, l) in enumerate(lists):
        (t, dups) = h.quiet('prepare', M.suffix_match_prepare_collection, l, separator='.', existing_suffixes=tree, collection_tag=i)
        h.check(t is tree, 'one structure for all lists')
    (host, hid) = name(h, 'host', h.choice('parts', [1, 2, 3]), cases=True)
    got = h.quiet('match', M.suffix_match, tree, host, separator='.')
    # the shortest of the names counts, and of the same names the first
    hits = [(len(d), i) for (i, l) in enumerate(ids) for d in l if is_suffix(h, d, hid)]
    want = min(hits)[1] if hits else None
    h.check(got == want and (got is None) == (want is None), 'a name belongs to the list with its shortest end')
    h.observe('list', want)
    if len(hits) > 1:
        h.cover('overlap')
    h.cover('none' if want is None else 'first' if want == 0 else 'later')


@harness(cover=['first', 'later', 'none', 'overlap'], bounds='two or three lists of one or two names, of any texts and in upper and lower case, which '
         'may be equal, and any name to find')
def exact(h):
    start(h)
    (lists, ids) = lists_of(h, shapes(h))
    sets = []
    for l in lists:
        got = h.quiet('prepare', M.exact_match_prepare_collection, l, existing_exacts=sets)
        h.check(got is sets[-1], 'the prepared list is added')
    (host, hid) = name(h, 'host', h.choice('parts', [1, 2, 3]), cases=True)
    want = [i for (i, l) in enumerate(ids) for d in l if equal(h, d, hid)]
    got = [i for (i, s) in enumerate(sets) if h.quiet('match', M.exact_match, s, host)]
    h.check(got == want[:1], 'a name belongs to the first list that has it')
    h.check(len(sets) == len(lists), 'every list is kept')
    if len(want) > 1:
        h.cover('overlap')
    h.cover('none' if not want else 'first' if want[0] == 0 else 'later')


def spelled(ids):
    return '.'.join('c%d' % i for i in ids)


def onion(i):
    return 'abcdefghijklmno' + 'pqrstuvwxyz234567'[i]


def md5(x):
    return hashlib.md5(x + '.onion').hexdigest()


@harness(group='b', cover=['plain', 'digest', 'both', 'none'], bounds='two lists of up to two onion addresses, plain or as digests, and an address '
         'or a digest to find')
def onion_addresses(h):
    start(h)
    lists = []
    for i in range(2):
        l = []
        for j in range([1, 2][i]):
            a = onion(h.choice('address', [0, 1, 2] if i else [0, 1]))
            l.append({'plain': a, 'upper': a.upper(), 'digest': md5(a)}[h.choice('form', ['plain', 'upper', 'digest'])])
        lists.append(l)
    sets = []
    for l in lists:
        h.quiet('prepare', M.exact_match_prepare_collection, l, existing_exacts=sets, match_onion_md5=True)
    a = onion(h.choice('wanted', [0, 1, 3]))
    asked = a.upper() if h.flag('capitals') else a
    for digests in (True, False):
        forms = lambda l: [x.lower() for x in l]
        got = [i for (i, s) in enumerate(sets) if h.quiet('match', M.exact_match, s, asked, match_onion_md5=digests)]
        plain = [i for (i, l) in enumerate(lists) if a in forms(l)][:1]
        dig = [i for (i, l) in enumerate(lists) if md5(a) in forms(l)][:1]
        h.check(got == sorted(set(plain + dig) if digests else plain), 'an address is found plain, and as a digest if asked for')
        h.cover('both' if plain and dig else 'plain' if plain else 'digest' if dig else 'none')
    h.check([i for (i, s) in enumerate(sets) if M.exact_match(s, md5(a))] == dig, 'a digest is found as a digest')


@harness(group='b', cover=['numbers'], bounds='lists of AS numbers and texts in any order')
def other_items(h):
    start(h)
    items = [h.choice('item', [7, 'US', 'us', 13335]) for i in range(3)]
    s = h.quiet('prepare', M.exact_match_prepare_collection, items)
    x = h.choice('wanted', [7, '7', 'Us', 13335, None, ''])
    low = lambda o: o.lower() if isinstance(o, str) else o
    h.check(h.quiet('match', M.exact_match, s, x) == (low(x) in [low(i) for i in items]), 'numbers are numbers, and texts match in any case')
    h.check(M.exact_match(None, x) is False and M.suffix_match(None, 'a', '.') is None, 'nothing is in no list')
    h.cover('numbers')
