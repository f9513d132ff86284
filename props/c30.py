# -*- coding: utf-8 -*-
'C30 when a round starts, and with whom'
from hx import harness
from server import tally_server, status, NOISE, T
from copy import deepcopy

TYPES = ['DataCollector', 'ShareKeeper']


def member(h, ts, i, kind, states=('idle', 'active'), age=None):
    'a client that was last heard of some time ago'
    uid = '%s%d' % (kind[0], i)
    st = h.choice('state', list(states))
    rtt = h.real('rtt', 0, 64)
    ts.clients[uid] = status(kind, uid, h.now - (h.real('age', 0, 4096) if age is None else age), st, rtt=rtt, time=0.0,
                             clock_skew=h.real('skew', 0, 64))
    return uid


def heard(ts, now, c):
    'seven check-in periods, and its own round trip'
    return now - c['alive'] <= 7 * ts.config['checkin_period'] + c['rtt'] + 1.0


@harness(cover=['started', 'too few collectors', 'too few keepers', 'silent'],
         bounds='up to 3 collectors and 2 keepers, each idle or active, heard of at any time in the past, with any round-trip time; any '
         'thresholds of 1 to 3')
def enough_clients(h):
    h.now = 10000.0
    ts = tally_server(h, dc_threshold=h.int('dc threshold', 1, 3), sk_threshold=h.int('sk threshold', 1, 3),
                      checkin_period=h.real('checkin', 1, 600))
    (nd, nk) = h.choice('clients', [(1, 1), (2, 1), (1, 2), (3, 1)] if h.tier == 'quick' else
                        [(a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2)])
    uids = [(member(h, ts, i, 'DataCollector'), 0) for i in range(nd)] + [(member(h, ts, i, 'ShareKeeper'), 1) for i in range(nk)]
    idle = [[], []]
    live = []
    for (u, k) in uids:
        if heard(ts, h.now, ts.clients[u]):
            live.append(u)
            if ts.clients[u]['state'] == 'idle':
                idle[k].append(u)
    (td, tk) = (ts.config['dc_threshold'], ts.config['sk_threshold'])
    want = bool(h.And(len(idle[0]) >= td, len(idle[1]) >= tk))
    h.quiet('the event loop', ts.refresh_loop)
    p = ts.collection_phase
    h.check((p is not None) == want, 'a round starts exactly when enough clients are ready')
    if p is not None:
        h.check(sorted(p.dc_uids) == sorted(idle[0]) and sorted(p.sk_uids) == sorted(idle[1]), 'with all clients that are ready, and only those')
        h.check(p.get_start_ts() == h.now, 'it starts now')
        h.cover('started')
        for (u, k) in uids:
            got = [ts.get_stop_config(u), ts.get_start_config(u)]
            h.check(got[0] is None, 'nobody is stopped')
            h.check((got[1] is not None) == (k == 0 and u in idle[0]), 'its collectors are started')
            if got[1] is not None:
                wait = [ts.clients[x]['rtt'] + ts.clients[x]['clock_skew'] for x in idle[0] + idle[1]]
                h.check(h.And([got[1]['defer_time'] >= ts.config['checkin_period'] + w for w in wait]),
                        'the collectors wait for the slowest of the clients')
                h.check(sorted(got[1]['sharekeepers']) == sorted(idle[1]), 'the collectors blind for every keeper of the round')
    else:
        h.cover('too few collectors' if len(idle[0]) < td else 'too few keepers')
        h.check(all(ts.get_start_config(u) is None for (u, k) in uids), 'nobody is started')
    if len(live) < len(uids):
        h.cover('silent')
    h.check(sorted(ts.clients) == sorted(live), 'clients that are silent for seven check-ins are dropped, and no others')


REASONS = ['now', 'no more rounds', 'start time', 'delay']


@harness(group='b', cover=REASONS, bounds='any number of completed rounds and configured rounds, start time, delay, noise, '
         'round-trip times, and times')
def time_and_number(h):
    h.now = h.real('start', 1, 2 ** 20)
    cont = h.choice('continue', [True, False, 'n'])
    if cont == 'n':
        cont = h.int('rounds', 0, 8)
    (delay, tol) = (h.real('delay', 0, 2 ** 20), h.real('tolerance', 0, 16))
    done = h.choice('completed', [0, 1, 2])
    ts = tally_server(h, delay_period=delay, sigma_decrease_tolerance=tol, always_delay=h.flag('always'), **{'continue': cont})
    ts.num_completed_collection_phases = done
    (old, new) = (h.real('old sigma', 0, 4096), h.real('new sigma', 0, 4096))
    end = h.now
    for (s, n) in ((old, 'old'), (new, 'new')):
        c = deepcopy(NOISE)
        c['counters']['ExitStreamCount']['sigma'] = s
        if n == 'old' and done:
            ts.collection_delay.set_delay_for_stop(True, c, end - 1, end, delay, always_delay=ts.config['always_delay'], tolerance=tol)
        ts.config['noise'] = c
    rtt = 0
    h.now = h.now + h.real('wait', 0, 2 ** 21)
    for k in TYPES:
        u = member(h, ts, 0, k, ['idle'], 0)
        rtt = h.Max(rtt, ts.clients[u]['rtt'])
    after = ts.config['start_after_time'] = h.real('after', 0, 2 ** 21)
    if cont is True:
        more = True
    elif cont is False:
        more = done == 0
    else:
        more = done < cont
    waited = True
    if done:
        lower = h.Or(ts.config['always_delay'], old - new > tol)
        waited = h.now >= end + h.Ite(lower, delay + rtt + 1.0, 0)
    before = h.now
    h.quiet('the event loop', ts.refresh_loop)
    h.check(h.Iff(ts.collection_phase is not None, h.And(more, waited, before >= after)),
            'a round starts when the rounds, the delay and the start time permit it')
    if ts.collection_phase is not None:
        h.cover('now')
    else:
        h.cover('no more rounds' if not more else 'start time' if before < after else 'delay')
