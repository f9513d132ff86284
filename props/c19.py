# -*- coding: utf-8 -*-
'C19 malformed events never stop a data collector, and count nothing'
import re
from hx import harness
from common import INF, values
from events import collector, finish, compare
from nodes import stream_event

# field: (type, mandatory, least, most)
CIRCUIT = {'EventTimestamp': ('float', True, 0, None)}
for d in ('Next', 'Previous'):
    for f in ('ChannelId', 'CircuitId'):
        CIRCUIT[d + f] = ('int', False, 0, None)
for f in ('Origin', 'Entry', 'Mid', 'End', 'Exit', 'Dir', 'HSDir', 'Intro', 'ClientIntroLegacy', 'Rend', 'HSClientSide',
          'MarkedForClose'):
    CIRCUIT['Is%sFlag' % f] = ('int', False, 0, 1)
CIRCUIT.update({'HasReceivedCreateCellFlag': ('int', False, 0, 1), 'OnionHandshakeType': ('int', False, 0, 2),
                'HiddenServiceVersionNumber': ('int', False, 2, 3), 'FailureReasonString': ('str', False, 1, 50),
                'ExitStreamCount': ('int', False, 1, None)})
CELL = dict(CIRCUIT)
CELL.update({'IsSentFlag': ('int', True, 0, 1), 'CellCircuitId': ('int', True, 0, None), 'CellCommandString': ('str', True, 1, 50),
             'IsOutboundFlag': ('int', False, 0, 1), 'RelayCellPayloadByteCount': ('int', False, 0, None),
             'RelayCellStreamId': ('int', False, 0, None), 'RelayCellCommandString': ('str', False, 1, 50),
             'IsRecognizedFlag': ('int', False, 0, 1), 'WasRelayCryptSuccessfulFlag': ('int', False, 0, 1)})
CLOSE = dict(CIRCUIT)
CLOSE.update({'CreatedTimestamp': ('float', True, 0, None), 'IsLegacyCircuitEndEventFlag': ('int', True, 0, 1),
              'StateString': ('str', True, 1, 50), 'PurposeCode': ('int', True, 1, 20), 'PurposeString': ('str', False, 1, 50),
              'HSStateString': ('str', False, 1, 50)})
for p in ('IntroClientSink', 'RendSplice'):
    for f in [x for x in CIRCUIT if x != 'EventTimestamp']:
        CLOSE[p + f] = (CIRCUIT[f][0], False) + CIRCUIT[f][2:]
for p in ('Previous', 'Next'):
    CLOSE[p + 'NodeIPAddress'] = ('ip', False, None, None)
    CLOSE[p + 'NodeFingerprint'] = ('str', False, 40, 40)
    CLOSE[p + 'NodeRelayFlagList'] = ('list', False, 1, 20)
for d in ('Inbound', 'Outbound'):
    for f in ('SentCell', 'ReceivedCell', 'ExitCell', 'ExitByte', 'DirByte'):
        CLOSE['%s%sCount' % (d, f)] = ('int', False, 0, None)
CONNECTION = {'EventTimestamp': ('float', True, 0, None), 'CreatedTimestamp': ('float', True, 0, None),
              'ChannelId': ('int', True, 0, None), 'RemoteIsClientFlag': ('int', True, 0, 1),
              'RemoteIPAddress': ('ip', True, None, None), 'RemoteIPAddressConnectionCount': ('int', True, 0, 2 ** 17),
              'PeerIPAddressConsensusRelayCount': ('int', True, 0, 100), 'PeerIPAddress': ('ip', False, None, None),
              'InboundByteCount': ('int', False, 0, None), 'OutboundByteCount': ('int', False, 0, None),
              'InboundCircuitCount': ('int', False, 0, None), 'OutboundCircuitCount': ('int', False, 0, None),
              'RemoteCountryCode': ('str', False, 2, 2)}
HSDIR = {'EventTimestamp': ('float', True, 0, None), 'HiddenServiceVersionNumber': ('int', True, 2, 3),
         'CacheReasonString': ('str', True, 1, 50), 'HasExistingCacheEntryFlag': ('int', False, 0, 1),
         'DescriptorIdBase32String': ('str', False, 32, None)}
V2 = {'IntroPointCount': ('int', False, 0, 10), 'RequiresClientAuthFlag': ('int', False, 0, 1),
      'DescriptorCreationTime': ('float', False, 0, None), 'OnionAddress': ('str', False, 16, 16),
      'EncodedIntroPointByteCount': ('int', False, 0, 40960), 'EncodedDescriptorByteCount': ('int', False, 0, 40960)}
V3 = {'RevisionNumber': ('int', False, 0, None), 'BlindedEd25519PublicKeyBase64String': ('str', False, 43, 43),
      'EncodedIntroPointByteCount': ('int', False, 0, 2 ** 20), 'EncodedDescriptorByteCount': ('int', False, 0, 2 ** 20)}
STORE2 = dict(HSDIR, WasAddedToCacheFlag=('int', True, 0, 1), **V2)
STORE3 = dict(HSDIR, WasAddedToCacheFlag=('int', True, 0, 1), **V3)
FETCH = {'CacheQueryByteCount': ('int', True, 0, None), 'HasCacheEntryFlag': ('int', False, 0, 1)}
FETCH2 = dict(HSDIR, CacheLastServedTime=('int', False, 0, None), **dict(V2, **FETCH))
FETCH3 = dict(HSDIR, CacheCreatedTime=('int', False, 0, None), **dict(V3, **FETCH))

# event: code, fields, a good event, a counter that every good event increments
KINDS = {
    'cell': ('PRIVCOUNT_CIRCUIT_CELL', CELL, {'EventTimestamp': '5.5', 'IsSentFlag': '1', 'CellCircuitId': '0',
                                              'CellCommandString': 'RELAY'}, None),
    'circuit': ('PRIVCOUNT_CIRCUIT_CLOSE', CLOSE, {'EventTimestamp': '5.5', 'CreatedTimestamp': '3.5', 'StateString': 'open',
                                                   'IsLegacyCircuitEndEventFlag': '0', 'PurposeCode': '5', 'IsEndFlag': '1'},
                'EndCircuitCount'),
    'legacy': ('PRIVCOUNT_CIRCUIT_CLOSE', CLOSE, {'EventTimestamp': '5.5', 'CreatedTimestamp': '3.5', 'StateString': 'open',
                                                  'IsLegacyCircuitEndEventFlag': '1', 'PurposeCode': '5', 'IsEndFlag': '1',
                                                  'IsExitFlag': '1', 'PreviousChannelId': '1', 'PreviousCircuitId': '2',
                                                  'InboundExitByteCount': '3', 'OutboundExitByteCount': '4'},
               'EndCircuitCount'),
    'connection': ('PRIVCOUNT_CONNECTION_CLOSE', CONNECTION,
                   {'EventTimestamp': '5.5', 'CreatedTimestamp': '3.5', 'ChannelId': '1', 'RemoteIsClientFlag': '1',
                    'RemoteIPAddress': '1.2.3.4', 'RemoteIPAddressConnectionCount': '1',
                    'PeerIPAddressConsensusRelayCount': '0'}, 'EntryConnectionCount'),
    'store 2': ('PRIVCOUNT_HSDIR_CACHE_STORE', STORE2, {'EventTimestamp': '5.5', 'HiddenServiceVersionNumber': '2',
                                                        'CacheReasonString': 'new', 'WasAddedToCacheFlag': '1'}, 'HSDirStoreCount'),
    'store 3': ('PRIVCOUNT_HSDIR_CACHE_STORE', STORE3, {'EventTimestamp': '5.5', 'HiddenServiceVersionNumber': '3',
                                                        'CacheReasonString': 'new', 'WasAddedToCacheFlag': '1'}, 'HSDirStoreCount'),
    'fetch 2': ('PRIVCOUNT_HSDIR_CACHE_FETCH', FETCH2, {'EventTimestamp': '5.5', 'HiddenServiceVersionNumber': '2',
                                                        'CacheReasonString': 'new', 'CacheQueryByteCount': '1'}, 'HSDirFetchCount'),
    'fetch 3': ('PRIVCOUNT_HSDIR_CACHE_FETCH', FETCH3, {'EventTimestamp': '5.5', 'HiddenServiceVersionNumber': '3',
                                                        'CacheReasonString': 'new', 'CacheQueryByteCount': '1'}, 'HSDirFetchCount')}
# a value of one of these changes what is counted
CHANGES = {'circuit': ['IsEndFlag'], 'legacy': ['IsEndFlag'], 'connection': ['RemoteIsClientFlag']}

COUNTERS = {'EndCircuitCount': 0, 'EndFailureCircuitCount': 0, 'EndCircuitLifeTime': 1, 'EndCircuitInboundCellCount': 0,
            'EndCircuitReasonCountList': 1, 'Intro2CircuitCount': 0, 'ExitCircuitStreamHistogram': 1,
            'EntryConnectionCount': 0, 'EntryConnectionByteCount': 0, 'EntryConnectionLifeTime': 1,
            'EntryConnectionCountryMatchCountList': 1, 'EntryConnectionOverlapHistogram': 1,
            'HSDirStoreCount': 0, 'HSDir2StoreIntroPointHistogram': 1, 'HSDir2StoreUploadDelayTime': 1,
            'HSDirStoreDescriptorByteCount': 0, 'HSDir3StoreRevisionHistogram': 1, 'HSDirFetchCount': 0,
            'HSDir2FetchOnionAddressCountList': 1, 'HSDirFetchReasonCountList': 1,
            'ExitStreamCount': 0, 'ExitStreamByteCount': 0, 'ExitStreamLifeTime': 1}
BINS = dict([(n, [[-INF, 3.0], [3.0, INF]] if COUNTERS[n] else [[0.0, INF]]) for n in COUNTERS])

TEXTS = ['', 'x', '1.5', '-1', '3', '4096', '+2', ' 2', '1 2', 'nan', '-inf', '1e999', '0x10', '1,2,3', '1.2.3.4', '::1', '1.2.3.400',
         'a' * 16, 'a' * 40, 'a' * 43, 'a' * 51, ','.join(['f'] * 21), '\xc3\xa9', '\xff\xfe', '%s%d', '{0}']


def ok_text(kind, least, most, text):
    'whether a text is a value of that kind; None for texts that Python reads in a way we do not judge'
    if '\xff' in text or '\xc3' in text:
        if kind in ('int', 'float', 'ip'):
            return False
    if kind == 'int':
        if not re.match('^[+-]?[0-9]+$', text.strip()):
            return False
        v = int(text)
    elif kind == 'float':
        if not re.match('^[+-]?[0-9]+([.][0-9]+)?$', text.strip()):
            return False
        v = float(text)
    elif kind == 'ip':
        return text in ('1.2.3.4', '::1')
    elif kind == 'list':
        v = len(text.split(',')) if text else 0
    else:
        v = len(text)
    return (least is None or v >= least) and (most is None or v <= most)


def line(code, f):
    return [code] + ['%s=%s' % (k, f[k]) for k in sorted(f)]


def fields(h, names_of):
    kind = h.choice('event', names_of)
    (code, spec, good, generic) = KINDS[kind]
    c = collector(h, BINS)
    f = dict(good)
    k = h.choice('field', sorted(spec))
    (typ, mandatory, least, most) = spec[k]
    how = h.choice('how', ['missing', 'text', 'number'])
    if how == 'missing':
        f.pop(k, None)
        valid = not mandatory
    elif how == 'text':
        f[k] = h.choice('text', TEXTS)
        valid = ok_text(typ, least, most, f[k]) and ' ' not in f[k]
    else:
        if typ == 'float':
            v = h.real('value', -2 ** 70, 2 ** 70)
        elif typ == 'int':
            # channels and circuits are looked up by their number
            far = 4 if k in ('PreviousChannelId', 'PreviousCircuitId') and kind == 'legacy' else 2 ** 70
            v = h.int('value', -far, far)
        else:
            return h.cover('rejected')
        f[k] = h.text(v)
        valid = h.And(least is None or v >= least, most is None or v <= most)
    h.check(h.quiet('an event never raises an exception', c.handle_event, line(code, f)) is True,
            'a malformed event does not end the connection')
    c.handle_event(stream_event())
    counts = finish(h, c)
    extra = {'ExitStreamCount': [1], 'ExitStreamByteCount': [150], 'ExitStreamLifeTime': [1, 0]}
    if not valid:
        h.cover('rejected')
        compare(h, counts, extra, 'a malformed event counts nothing')
    elif generic is not None and k not in CHANGES.get(kind, []) and \
            not (k == 'HiddenServiceVersionNumber' and kind[0] in 'sf'):
        h.cover('accepted')
        h.check(values(counts, generic)[0] == 1, 'a well-formed event is counted', k)
    h.check(values(counts, 'ExitStreamCount')[0] == 1, 'the next event is counted')


@harness(group='a', cover=['rejected', 'accepted'], bounds='cell and circuit events, each field missing, any of %d texts, or any '
         'number in +-2^70 (of a channel or circuit that is looked up, in +-4)' % len(TEXTS))
def circuit_fields(h):
    fields(h, ['circuit'])


@harness(group='b', cover=['rejected', 'accepted'], bounds='as circuit_fields, for circuits with the exit flag, and cell events')
def legacy_circuit_fields(h):
    fields(h, ['legacy', 'cell'])


@harness(group='c', cover=['rejected', 'accepted'], bounds='as circuit_fields, for connections and descriptors')
def other_fields(h):
    fields(h, ['connection', 'store 2', 'store 3', 'fetch 2', 'fetch 3'])


SHAPES = [[], ['='], ['=x'], ['x'], ['EventTimestamp'], [''], ['', ''], ['a=b=c'], ['a b=c'], ['EventTimestamp=5.5', 'EventTimestamp=5.5'], ['x=', 'x='], ['x=', 'x=1'], ['x=1', 'x='],
          ['x=1', 'y=1', 'x=2'],
          ['\0=1'], ['a=\r\n'], ['\xff=\xff']]


@harness(group='d', cover=['done'], bounds='every tagged event with %d broken shapes, alone and added to a good event' % len(SHAPES))
def shapes(h):
    kind = h.choice('event', sorted(KINDS))
    (code, spec, good, generic) = KINDS[kind]
    c = collector(h, BINS)
    extra = h.choice('shape', SHAPES)
    whole = h.choice('whole', [False, True])
    e = (line(code, good) if whole else [code]) + extra
    h.check(h.quiet('an event never raises an exception', c.handle_event, e) is True, 'a malformed event does not end the connection')
    want = {}
    if whole and all([x in ('', '\xff=\xff') for x in extra]) and generic:
        want = None
    counts = finish(h, c)
    if want is None:
        h.check(values(counts, generic)[0] == 1, 'a well-formed event is counted')
    else:
        compare(h, counts, {}, 'a malformed event counts nothing')
    h.cover('done')


GOOD_STREAM = ['PRIVCOUNT_STREAM_ENDED', '1', '2', '3', '80', '100', '50', '1.5', '2.5', 'example.com', '1.2.3.4', '1']


@harness(group='d', cover=['good', 'bad'], bounds='stream events with any field any of %d texts or any number (of channels and circuits in +-4, '
         'of ports in +-100), or with fields missing or added' % len(TEXTS))
def streams(h):
    c = collector(h, BINS)
    e = list(GOOD_STREAM)
    how = h.choice('how', ['text', 'number', 'short', 'long'])
    good = False
    if how == 'short':
        e = e[:h.size('length', 0, 11)]
    elif how == 'long':
        e = e + ['1'] * h.size('more', 1, 2)
    else:
        i = h.size('field', 1, 11)
        if how == 'text':
            e[i] = h.choice('text', TEXTS)
            if i in (9, 10):
                good = True
            else:
                good = ok_text('float' if i in (7, 8) else 'int', 0 if i in (5, 6) else None, None, e[i])
        elif i not in (9, 10):
            # channels, circuits and ports are looked up by their number
            far = 4 if i in (1, 2) else 100 if i == 4 else 2 ** 70
            v = h.real('value', -far, far) if i in (7, 8) else h.int('value', -far, far)
            e[i] = h.text(v)
            good = v >= 0 if i in (5, 6) else True
        else:
            good = True
    kept = h.quiet('an event never raises an exception', c.handle_event, e)
    counts = finish(h, c)
    if good:
        h.cover('good')
        h.check(kept is True, 'a well-formed event does not end the connection')
        h.check(values(counts, 'ExitStreamCount')[0] == 1, 'a well-formed event is counted')
    else:
        h.cover('bad')
        compare(h, counts, {}, 'a malformed event counts nothing')


CODES = ['', 'X', 'PRIVCOUNT_X', 'PRIVCOUNT_STREAM_BYTES_TRANSFERRED', 'PRIVCOUNT_CIRCUIT_ENDED', 'PRIVCOUNT_CONNECTION_ENDED',
         'PRIVCOUNT_VITERBI_PACKETS', 'PRIVCOUNT_VITERBI_STREAMS', 'PRIVCOUNT_DNS_RESOLVED', '\xff']


@harness(group='d', cover=['done'], bounds='unknown and uncounted events with up to thirteen items, any number or text in one')
def other_events(h):
    c = collector(h, BINS)
    code = h.choice('code', CODES)
    n = h.choice('items', [0, 1, 5, 6, 12, 13])
    e = [code] + ['1'] * n
    if n:
        how = h.choice('how', ['text', 'number', 'real'])
        i = h.choice('item', sorted(set([1, n])))
        e[i] = h.choice('text', TEXTS) if how == 'text' else h.text(h.int('value', -2 ** 70, 2 ** 70) if how == 'number' else
                                                                  h.real('value', -2 ** 70, 2 ** 70))
    kept = h.quiet('an event never raises an exception', c.handle_event, e)
    if code != 'PRIVCOUNT_STREAM_BYTES_TRANSFERRED' and 'VITERBI' not in code:
        h.check(kept is True, 'an unknown event does not end the connection', '%s %d' % (code, n))
    compare(h, finish(h, c), {}, 'an unknown event counts nothing')
    h.cover('done')
