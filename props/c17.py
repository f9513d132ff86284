# -*- coding: utf-8 -*-
'C17 what a connection counts when it closes'
import re
from hx import harness
from common import INF, values
from events import names, collector, finish, compare

NAME = re.compile('^(Entry|NonEntry)(RelayOnAddress|NoRelayOnAddress|)Connection(CountryMatch|CountryNoMatch|ASMatch|ASNoMatch|)'
                  '(Inbound|Outbound|)(Byte|Circuit|LifeTime|Overlap|)(CountList|Count|Histogram|)$')
ALL = names(lambda n: NAME.match(n))
PARTS = dict([(n, NAME.match(n).groups()) for n in ALL])

COUNTRIES = [['au', 'NZ'], ['us', '!!']]
AS = {'lists': [[10], [20, 21]], 'prefix_maps': {'4': '1.2.0.0/16\t10\n1.2.3.0/24\t21\n9.0.0.0/8\t30', '6': '2001:db8::/32\t20'}}
# address: list of its network
ADDRESSES = [('1.2.9.9', 0), ('1.2.3.4', 1), ('9.9.9.9', 2), ('8.8.8.8', 2), ('2001:db8::1', 1), ('::1', 2)]
CODES = [('au', 0), ('nz', 0), ('US', 1), ('de', 2), ('??', 2), (None, 1)]
EDGE = {'Byte': 1000.0, 'Circuit': 10.0, 'LifeTime': 60.0, 'Overlap': 2.0}


def bins(n):
    p = PARTS[n]
    if p[5] == 'CountList':
        return [[0.0, 1.0], [1.0, 2.0], [2.0, INF]]
    if p[5] == 'Count':
        return [[0.0, INF]]
    return [[-INF, EDGE[p[4]]], [EDGE[p[4]], INF]]


def event(client, ip, **kw):
    f = {'EventTimestamp': '100.5', 'CreatedTimestamp': '50.25', 'ChannelId': '1', 'RemoteIsClientFlag': client,
         'RemoteIPAddress': ip, 'RemoteIPAddressConnectionCount': '1', 'PeerIPAddressConsensusRelayCount': '0'}
    f.update(kw)
    return ['PRIVCOUNT_CONNECTION_CLOSE'] + ['%s=%s' % (k, f[k]) for k in sorted(f) if f[k] is not None]


def expect(h, client, relay, country, asn, amount, above):
    '''
    amount: {(direction, what): number}, above: {(direction, what): whether it is in the upper bin of the histograms}
    '''
    want = {}
    for n in ALL:
        (pos, shared, match, direction, what, kind) = PARTS[n]
        if (pos == 'Entry') != client or (shared and (shared == 'RelayOnAddress') != relay):
            continue
        k = country if match.startswith('Country') else asn
        if kind in ('Histogram', '') and match and match.endswith('NoMatch') != (k != 0):
            continue
        if kind == 'Count':
            want[n] = [amount[direction, what] if what else 1]
        elif kind == 'CountList':
            want[n] = [(amount[direction, what] if what else 1) if i == k else 0 for i in range(3)]
        else:
            u = above[direction, what]
            want[n] = [h.Ite(u, 0, 1), h.Ite(u, 1, 0)]
    return want


PLAIN = {('', 'Byte'): 0, ('Inbound', 'Byte'): 0, ('Outbound', 'Byte'): 0, ('', 'Circuit'): 0, ('Inbound', 'Circuit'): 0,
         ('Outbound', 'Circuit'): 0}


def collect(h):
    return collector(h, dict([(n, bins(n)) for n in ALL]), country_lists=COUNTRIES, as_data=AS)


@harness(cover=['relay', 'no relay', 'list 0', 'list 1', 'list 2'], bounds='clients and relays, any number of relays at the '
         'address, six country codes (none is read as !!), six addresses; all %d connection counters' % len(ALL))
def categories(h):
    c = collect(h)
    client = h.choice('client', ['0', '1'])
    (ip, asn) = h.choice('ip', ADDRESSES)
    (code, country) = h.choice('country', CODES)
    relays = h.int('relays', 0, 100)
    h.check(c.handle_event(event(client, ip, RemoteCountryCode=code, PeerIPAddressConsensusRelayCount=h.text(relays))),
            'a good event is handled')
    counts = finish(h, c)
    relay = bool(relays > 0)
    h.cover('relay' if relay else 'no relay')
    h.cover('list %d' % country)
    above = dict([(k, False) for k in PLAIN])
    above['', 'LifeTime'] = above['', 'Overlap'] = False
    compare(h, counts, expect(h, client == '1', relay, country, asn, PLAIN, above),
            'a connection is counted exactly by the counters whose name describes it')
    h.observe('n', [values(counts, n)[0] for n in ALL][:20])


@harness(group='b', cover=['done'], bounds='any numbers of bytes and circuits below 2^60 or none given, any times and numbers of '
         'connections, for clients and relays in the first, second and no list')
def amounts(h):
    c = collect(h)
    (client, ip, asn, code, country) = h.choice('lists', [('1', '1.2.9.9', 0, 'us', 1), ('0', '2001:db8::1', 1, 'de', 2),
                                                          ('1', '8.8.8.8', 2, 'au', 0)])
    kw = {}
    amount, above = {}, {}
    given = h.choice('given', ['all', 'bytes', 'circuits'])
    for what in ('Byte', 'Circuit'):
        for d in ('Inbound', 'Outbound'):
            amount[d, what] = 0
            if given in ('all', what.lower() + 's'):
                amount[d, what] = h.int(d + what, 0, 2 ** 60)
                kw['%s%sCount' % (d, what)] = h.text(amount[d, what])
        amount['', what] = amount['Inbound', what] + amount['Outbound', what]
    start, end = h.real('start', 0, 2 ** 40), h.real('end', 0, 2 ** 40)
    overlap = h.int('overlap', 0, 2 ** 17)
    kw.update(CreatedTimestamp=h.text(start), EventTimestamp=h.text(end), RemoteIPAddressConnectionCount=h.text(overlap))
    h.check(c.handle_event(event(client, ip, RemoteCountryCode=code, **kw)), 'a good event is handled')
    counts = finish(h, c)
    for k in amount:
        above[k] = amount[k] >= EDGE[k[1]]
    above['', 'LifeTime'] = end - start >= 60
    above['', 'Overlap'] = overlap >= 2
    compare(h, counts, expect(h, client == '1', False, country, asn, amount, above), 'a connection counts its amounts')
    h.cover('done')
    h.observe('b', values(counts, 'EntryConnectionByteCount'))


@harness(group='c', cover=['done'], bounds='two (thorough: three) connections of clients and relays with any sizes')
def connections_add_up(h):
    keep = ['EntryConnectionCount', 'EntryConnectionByteCount', 'NonEntryConnectionByteCount',
            'EntryConnectionASMatchOutboundByteCountList', 'EntryRelayOnAddressConnectionCount']
    c = collector(h, dict([(n, bins(n)) for n in keep]), country_lists=COUNTRIES, as_data=AS)
    want = dict([(n, [0] * len(bins(n))) for n in keep])
    for i in range(2 if h.tier == 'quick' else 3):
        client = h.choice('client', ['0', '1'])
        (ip, asn) = h.choice('ip', ADDRESSES[:2] if h.tier == 'quick' else ADDRESSES[:3])
        relays = h.choice('relays', [0, 3])
        a, b = h.int('in', 0, 2 ** 60), h.int('out', 0, 2 ** 60)
        c.handle_event(event(client, ip, InboundByteCount=h.text(a), OutboundByteCount=h.text(b),
                             PeerIPAddressConsensusRelayCount=str(relays)))
        if client == '1':
            want['EntryConnectionCount'][0] += 1
            want['EntryConnectionByteCount'][0] += a + b
            want['EntryConnectionASMatchOutboundByteCountList'][asn] += b
            if relays:
                want['EntryRelayOnAddressConnectionCount'][0] += 1
        else:
            want['NonEntryConnectionByteCount'][0] += a + b
    compare(h, finish(h, c), want)
    h.cover('done')
