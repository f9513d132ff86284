# -*- coding: utf-8 -*-
'C18 what a descriptor upload or download counts'
import hashlib
import re
from hx import harness
from common import INF, values
from events import names, collector, finish, compare

NAME = re.compile('^HSDir(2|3|)(Store|Fetch)(Add|Reject|)(Cached|Uncached|)(ClientAuth|NoClientAuth|)(Count|DescriptorByteCount|'
                  'DescriptorByteHistogram|IntroByteCount|IntroByteHistogram|IntroPointHistogram|UploadDelayTime|'
                  'RevisionHistogram|ReasonCountList|OnionAddressCountList)$')
ALL = names(lambda n: NAME.match(n))
PARTS = dict([(n, NAME.match(n).groups()) for n in ALL])

STORE = [['Add_New', 'add_other'], ['reject_old']]
FETCH = [['found'], ['missing']]
ONION = ['abcdefghijklmnop', 'qrstuvwxyz234567', '2222222222222222']
ONIONS = [[ONION[0]], [hashlib.md5(ONION[1] + '.onion').hexdigest()]]
EDGE = {'DescriptorByteHistogram': 1000.0, 'IntroByteHistogram': 500.0, 'IntroPointHistogram': 3.0, 'UploadDelayTime': 3600.0,
        'RevisionHistogram': 5.0}


def bins(n):
    k = PARTS[n][-1]
    if k.endswith('CountList'):
        return [[0.0, 1.0], [1.0, 2.0], [2.0, INF]]
    if k.endswith('Count'):
        return [[0.0, INF]]
    return [[-INF, EDGE[k]], [EDGE[k], INF]]


def event(what, **kw):
    f = {'EventTimestamp': '100.5'}
    if what == 'Fetch':
        f['CacheQueryByteCount'] = '10'
    f.update(kw)
    return [{'Store': 'PRIVCOUNT_HSDIR_CACHE_STORE', 'Fetch': 'PRIVCOUNT_HSDIR_CACHE_FETCH'}[what]] + \
        ['%s=%s' % (k, f[k]) for k in sorted(f) if f[k] is not None]


def expect(h, keep, d):
    'd: the descriptor'
    want = {}
    for n in keep:
        (version, what, added, cached, auth, kind) = PARTS[n]
        if what != d['what'] or (version and version != d['version']) or (added and (added == 'Add') != d['added']):
            continue
        if (cached and (cached == 'Cached') != d['cached']) or (auth and (d['auth'] is None or
                                                                          (auth == 'ClientAuth') != d['auth'])):
            continue
        if kind == 'Count':
            want[n] = [1]
        elif d.get(kind) is not None:
            v = d[kind]
            if kind.endswith('CountList'):
                want[n] = [1 if i == v else 0 for i in range(3)]
            elif kind.endswith('Count'):
                want[n] = [v]
            else:
                u = v >= EDGE[kind]
                want[n] = [h.Ite(u, 0, 1), h.Ite(u, 1, 0)]
    return want


def collect(h, keep=ALL):
    return collector(h, dict([(n, bins(n)) for n in keep]), hsdir_store_lists=STORE, hsdir_fetch_lists=FETCH,
                     onion_address_lists=ONIONS)


def flag(x):
    return None if x is None else '1' if x else '0'


REASONS = {'Store': [('ADD_NEW', 0), ('reject_old', 1), ('found', 2)], 'Fetch': [('found', 0), ('Missing', 1), ('add_new', 2)]}


@harness(cover=['Store', 'Fetch', '2', '3'], bounds='uploads and downloads with every combination of version, client '
         'authorisation, cached, added and reason; all %d descriptor counters' % len(ALL))
def categories(h):
    c = collect(h)
    what = h.choice('what', ['Store', 'Fetch'])
    version = h.choice('version', ['2', '3'])
    auth = h.choice('auth', [None, False, True]) if version == '2' else None
    cached = h.choice('cached', [None, False, True])
    added = h.choice('added', [False, True]) if what == 'Store' else None
    (reason, k) = h.choice('reason', REASONS[what])
    (onion, o) = (None, None)
    if version == '2':
        (onion, o) = h.choice('onion', [(ONION[0], 0), (ONION[1].upper(), 1), (ONION[2], 2)])
    h.check(c.handle_event(event(what, HiddenServiceVersionNumber=version, RequiresClientAuthFlag=flag(auth),
                                 HasExistingCacheEntryFlag=flag(cached) if what == 'Store' else None,
                                 HasCacheEntryFlag=flag(cached) if what == 'Fetch' else None,
                                 WasAddedToCacheFlag=flag(added), CacheReasonString=reason, OnionAddress=onion)),
            'a good event is handled')
    h.cover(what)
    h.cover(version)
    counts = finish(h, c)
    compare(h, counts, expect(h, ALL, {'what': what, 'version': version, 'added': added, 'cached': bool(cached), 'auth': auth,
                                       'ReasonCountList': k, 'OnionAddressCountList': o}),
            'a descriptor is counted exactly by the counters whose name describes it')
    h.observe('n', [values(counts, n)[0] for n in ALL][:30])


@harness(group='b', cover=['counted', 'ignored'], bounds='any sizes, introduction points, revisions and times, each given or not')
def amounts(h):
    c = collect(h)
    what = h.choice('what', ['Store', 'Fetch'])
    version = h.choice('version', ['2', '3'])
    d = {'what': what, 'version': version, 'added': True if what == 'Store' else None, 'cached': True,
         'auth': None if version == '3' else False, 'ReasonCountList': 0}
    kw = {'HiddenServiceVersionNumber': version, 'RequiresClientAuthFlag': flag(d['auth']),
          'HasExistingCacheEntryFlag': '1' if what == 'Store' else None, 'HasCacheEntryFlag': '1' if what == 'Fetch' else None,
          'WasAddedToCacheFlag': flag(d['added']), 'CacheReasonString': REASONS[what][0][0]}
    given = h.choice('given', ['all', 'descriptor', 'intro', 'none'])
    good = True
    limit = 40960 if version == '2' else 2 ** 20
    if given in ('all', 'descriptor'):
        v = h.int('descriptor', 0, 2 ** 21)
        kw['EncodedDescriptorByteCount'] = h.text(v)
        d['DescriptorByteCount'] = d['DescriptorByteHistogram'] = v
        good = h.And(good, v <= limit)
    if given in ('all', 'intro'):
        v = h.int('intro', 0, 2 ** 21)
        kw['EncodedIntroPointByteCount'] = h.text(v)
        d['IntroByteCount'] = d['IntroByteHistogram'] = v
        good = h.And(good, v <= limit)
        if given == 'all':
            good = h.And(good, v <= d['DescriptorByteCount'])
    if version == '2' and given != 'none':
        v = h.int('points', 0, 20)
        kw['IntroPointCount'] = h.text(v)
        d['IntroPointHistogram'] = v
        good = h.And(good, v <= 10)
        if what == 'Store':
            (t, t0) = (h.real('time', 0, 2 ** 40), h.real('created', 0, 2 ** 40))
            kw['EventTimestamp'], kw['DescriptorCreationTime'] = h.text(t), h.text(t0)
            d['UploadDelayTime'] = t - t0
    if version == '3' and given != 'none':
        v = h.int('revision', 0, 2 ** 40)
        kw['RevisionNumber'] = h.text(v)
        d['RevisionHistogram'] = v
    h.check(c.handle_event(event(what, **kw)), 'an event is handled or ignored')
    counts = finish(h, c)
    if good:
        h.cover('counted')
        compare(h, counts, expect(h, ALL, d), 'a descriptor counts its amounts')
    else:
        h.cover('ignored')
        compare(h, counts, {}, 'a descriptor that cannot be is not counted')
    h.observe('n', [values(counts, n)[0] for n in ALL][:30])


FOREIGN = {'2': [('RevisionNumber', '3'), ('DescriptorLifetime', '10800'), ('BlindedEd25519PublicKeyBase64String', 'a' * 43)],
           '3': [('IntroPointCount', '3'), ('RequiresClientAuthFlag', '1'), ('DescriptorCreationTime', '3.5'),
                 ('OnionAddress', ONION[0]), ('SupportedProtocolBitfield', '0xc')]}


@harness(group='c', cover=['2', '3'], bounds='one field that belongs to the other version')
def fields_of_the_other_version(h):
    c = collect(h)
    what = h.choice('what', ['Store', 'Fetch'])
    version = h.choice('version', ['2', '3'])
    (k, v) = h.choice('field', FOREIGN[version])
    kw = {'HiddenServiceVersionNumber': version, 'CacheReasonString': 'found',
          'WasAddedToCacheFlag': '1' if what == 'Store' else None, k: v}
    h.check(c.handle_event(event(what, **kw)), 'an event is handled or ignored')
    compare(h, finish(h, c), {}, 'a descriptor that cannot be is not counted')
    h.cover(version)
