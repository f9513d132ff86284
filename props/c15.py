# -*- coding: utf-8 -*-
'C15 which domain list a stream is counted for'
import re
from hx import harness
from common import INF, values
from events import names, collector, finish, compare
from nodes import stream_event
from symdom import Dom, name, is_suffix, equal
import privcount.data_collector as D
import privcount.match as M

DOMAIN = names(lambda n: n.startswith('ExitDomain'))
NAME = re.compile('^ExitDomain(No|)(Exact|Suffix)MatchWebInitialStream(.*)$')


def bins(n, nlists):
    if n.endswith('List'):
        return [[float(i), float(i + 1)] for i in range(nlists)] + [[float(nlists), INF]]
    return [[-INF, -2000.0], [-2000.0, INF]]


def no_address(h):
    'a name is not an address: the parser of addresses sees only texts'
    f = D.validate_ip_address
    h.patch(D, 'validate_ip_address', lambda x: f(x) if isinstance(x, (str, unicode)) and not isinstance(x, Dom) else None)
    h.patch(M, 'json_serialise', lambda x: '')


def lists_of(h, shape):
    'lists of names, none of which is the end of another'
    lists, ids = [], []
    for i, s in enumerate(shape):
        both = [name(h, 'list%d' % i, n) for n in s]
        lists.append([b[0] for b in both])
        ids.append([b[1] for b in both])
    flat = [x for l in ids for x in l]
    for i in range(len(flat)):
        for j in range(len(flat)):
            if i != j:
                h.assume(h.Not(is_suffix(h, flat[i], flat[j])))
    return lists, ids


def tree(lists):
    t = {}
    for i, l in enumerate(lists):
        M.suffix_match_prepare_collection(l, separator='.', existing_suffixes=t, collection_tag=i)
    return t


def first(h, conds):
    'the index of the first condition that holds, len(conds) if there is none'
    for i, c in enumerate(conds):
        if c:
            return i
    return len(conds)


WHICH = {'exact': lambda n: 'Exact' in n, 'suffix': lambda n: 'Suffix' in n, 'both': lambda n: True,
         'some': lambda n: n.endswith('List')}
SHAPES = [[[2]], [[1, 2], [2]], [[2, 2], [1]], [[1], [3], [2]]]


@harness(cover=['exact 0', 'exact 1', 'suffix 0', 'suffix 1', 'none', 'list end'],
         bounds='one to three lists with one or two names, names of one to three components (any texts) in upper and lower '
         'case, any sizes; dots around the host name for suffixes; exact counters, suffix counters, or both')
def lists_are_matched(h):
    no_address(h)
    shape = h.choice('shape', SHAPES)
    which = h.choice('which', sorted(WHICH))
    keep = [n for n in DOMAIN if WHICH[which](n)]
    lists, ids = lists_of(h, shape)
    # a name may end with the dot of the root, which only suffixes ignore
    host, hid = name(h, 'host', h.choice('parts', [1, 2, 3]), cases=True, dots=which == 'suffix')
    c = collector(h, dict([(n, bins(n, len(lists))) for n in keep]), domain_lists=lists, domain_suffixes=tree(lists))
    r, w = h.int('read', 1, 2 ** 40), h.int('written', 1, 2 ** 40)
    e = stream_event(port='443', read=h.text(r), written=h.text(w))
    e[9] = host
    h.check(c.handle_event(e), 'a good event is handled')
    exact = first(h, [h.Or([equal(h, d, hid) for d in l]) for l in ids])
    suffix = first(h, [h.Or([is_suffix(h, d, hid) for d in l]) for l in ids])
    h.cover('exact %d' % exact if exact < len(ids) else ('suffix %d' % suffix if suffix < len(ids) else 'none'))
    want = {}
    for n in keep:
        (no, how, kind) = NAME.match(n).groups()
        k = exact if how == 'Exact' else suffix
        if kind.endswith('List'):
            v = {'CountList': 1, 'ByteCountList': r + w, 'InboundByteCountList': r, 'OutboundByteCountList': w}[kind]
            want[n] = [v if i == k else 0 for i in range(len(ids) + 1)]
        else:
            want[n] = [0, 1 if (k == 0) == (no == '') else 0]
    compare(h, finish(h, c), want, 'a stream is counted for the list that contains its name')
    h.observe('bins', [exact, suffix])
    h.cover('list end')


@harness(group='b', cover=['web', 'other'], bounds='every combination of port, position, literal address and name, one list')
def only_initial_web_names(h):
    no_address(h)
    c = collector(h, dict([(n, bins(n, 1)) for n in DOMAIN]), domain_lists=[['example.com']],
                  domain_suffixes=tree([['example.com']]))
    port = h.int('port', 0, 65535)
    number = h.int('number', 0, 2 ** 31)
    host = h.choice('host', ['example.com', 'www.example.com', 'Example.COM', 'notexample.com', 'com', '1.2.3.4',
                             '2001:db8::1', ''])
    h.check(c.handle_event(stream_event(port=h.text(port), host=host, number=h.text(number))), 'handled')
    want = {}
    if h.And(h.Or(port == 80, port == 443), number == 1, host not in ('1.2.3.4', '2001:db8::1')):
        for n in DOMAIN:
            (no, how, kind) = NAME.match(n).groups()
            hit = host.lower() == 'example.com' or (how == 'Suffix' and host == 'www.example.com')
            if kind.endswith('List'):
                v = {'CountList': 1, 'ByteCountList': 150, 'InboundByteCountList': 100, 'OutboundByteCountList': 50}[kind]
                want[n] = [v, 0] if hit else [0, v]
            else:
                want[n] = [0, 1 if hit == (no == '') else 0]
        h.cover('web')
    else:
        h.cover('other')
    compare(h, finish(h, c), want, 'only the first stream of a circuit, to a name, on a web port')
