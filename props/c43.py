# -*- coding: utf-8 -*-
'C43 what the tally server knows about its clients'
from hx import harness
from server import tally_server, status, T
from nodes import public
from twisted.internet import reactor

VERSIONS = {'2.0.0': True, '1.0.2 (git-1)': True, '1.0.0': False, '1.0.1 (git-2)': False, '1.0.10': True}
ESTABLISH, INTERVAL = 10.0, 3600.0


@harness(group='a', cover=['new', 'kept', 'refused', 'changed', 'fingerprint'],
         bounds='three statuses of two nodes, at any times; each of any version and state, with a fingerprint, another or none')
def statuses(h):
    h.now = h.real('t0', 0, 2 ** 30)
    ts = tally_server(h)
    known = {}
    for i in range(3):
        h.now = h.now + h.real('wait %d' % i, 0, 2 ** 20)
        uid = h.choice('node %d' % i, ['A', 'B'] if i < 2 or h.tier == 'thorough' else ['A'])
        kind = 'DataCollector' if uid == 'A' or i == 0 else h.choice('type', ['DataCollector', 'ShareKeeper'])
        if uid == 'B':
            kind = known[uid]['type'] if uid in known else kind
        version = h.choice('version %d' % i, sorted(VERSIONS) if i == 0 or h.tier == 'thorough' else ['2.0.0', '1.0.0'][:i])
        s = status(kind, uid, h.now, h.choice('state %d' % i, ['idle', 'active']), rtt=h.real('rtt %d' % i, 0, 100), privcount_version=version)
        if kind == 'DataCollector':
            fp = h.choice('fingerprint %d' % i, [None, 'F' * 40, 'E' * 40][:3 if i else 2])
            if fp is not None:
                s['fingerprint'] = fp
        s['x%d' % i] = i
        given = dict(s)
        h.quiet('no exceptions', ts.set_client_status, uid, s)
        if kind == 'DataCollector' and not VERSIONS[version]:
            h.cover('refused')
        else:
            old = known.get(uid)
            new = dict(old or {})
            new.update(given)
            if old is None:
                new['time'] = given['alive']
                h.cover('new')
            else:
                new['time'] = old['time'] if old['state'] == given['state'] else given['alive']
                h.cover('kept' if old['state'] == given['state'] else 'changed')
                if 'fingerprint' in old:
                    new['fingerprint'] = old['fingerprint']
                    h.cover('fingerprint')
            known[uid] = new
        h.check(sorted(ts.clients) == sorted(known), 'the nodes whose versions add noise, and no others')
        for u in known:
            h.check(sorted(ts.clients[u]) == sorted(known[u]), 'all that a node ever said is known')
            for k in sorted(known[u]):
                label = {'time': 'since when it is in its state', 'fingerprint': 'the first fingerprint is kept'}.get(k, 'what it said last is known')
                h.check(ts.clients[u][k] == known[u][k], label, k)


@harness(group='b', cover=['idle', 'active', 'control', 'no control', 'events', 'no events', 'late', 'in time', 'round', 'no round'],
         bounds='a collector and another node, in any state, heard of at any time, with any last event and round trips; in a round that began at any time, or none')
def overview(h):
    logs = []
    h.now = h.real('now', 2 ** 20, 2 ** 21)
    ts = tally_server(h, checkin_period=h.real('checkin', 1, 600), **{'continue': True})
    h.on_log = lambda level, msg, a: logs.append((level, msg))
    padding = h.real('padding', 0, 1000)
    start = None
    if h.flag('in a round'):
        start = h.now - h.real('running', 0, 2 ** 19)

        class Phase(object):
            clock_padding = padding
            lost = []

            def get_start_ts(self):
                return start

            def is_participating(self, uid):
                return True

            def lost_client(self, uid):
                self.lost.append(uid)
        ts.collection_phase = Phase()
        del Phase.lost[:]
        h.cover('round')
    else:
        h.cover('no round')
    want = dict(dcs_idle=0, dcs_active=0, sks_idle=0, sks_active=0, dcs_control=0, dcs_event=0)
    dead, slow = [], []
    warn_control = warn_event = 0
    checkin = ts.config['checkin_period']
    for uid in ('A', 'B'):
        kind = 'DataCollector' if uid == 'A' else h.choice('type', ['ShareKeeper', 'DataCollector'])
        state = h.choice('state ' + uid, ['idle', 'active', 'starting'])
        s = status(kind, uid, h.now - h.real('age ' + uid, 0, 2 ** 13), state, rtt=h.real('rtt ' + uid, 0, 100), time=0.0)
        ts.clients[uid] = s
        rtt = s['rtt'] + 1.0
        short = 'dcs' if kind == 'DataCollector' else 'sks'
        if state != 'starting':
            want['%s_%s' % (short, state)] += 1
            h.cover(state)
        if kind == 'DataCollector':
            ok = h.flag('controls Tor ' + uid)
            if ok:
                s['tor_privcount_version'] = '1.1'
                if state == 'active':
                    want['dcs_control'] += 1
                    h.cover('control')
            else:
                h.cover('no control')
                if start is not None and h.now - (start + padding) > ESTABLISH + checkin + rtt:
                    warn_control += 1
            last = None
            if h.flag('has events ' + uid):
                last = s['last_event_time'] = h.now - h.real('last event ' + uid, 0, 2 ** 19)
            recent = True
            if start is not None:
                since = last if last is not None else start + padding
                recent = bool(h.now - since <= INTERVAL + 2 * checkin + rtt)
            if not recent:
                warn_event += 1
            if ok and state == 'active':
                if recent:
                    want['dcs_event'] += 1
                    h.cover('events')
                else:
                    h.cover('no events')
        age = h.now - s['alive']
        if age > 7 * checkin + rtt:
            dead.append(uid)
        if age > 3 * checkin + rtt:
            slow.append(uid)
            h.cover('late')
        else:
            h.cover('in time')
    st = h.quiet('no exceptions', ts.get_status)
    for k in sorted(want):
        h.check(st[k] == want[k], 'the numbers of nodes in each state', k)
    h.check(st['dcs_total'] == want['dcs_idle'] + want['dcs_active'] and st['sks_total'] == want['sks_idle'] + want['sks_active'], 'their sums')
    h.check(st['state'] == ('active' if start is not None else 'idle'), 'whether a round runs')
    h.check(st['time'] == (start if start is not None else ts.idle_time), 'since when')
    h.check(st['dcs_required'] == 1 and st['sks_required'] == 1 and st['completed_phases'] == 0, 'what is required')
    h.check(('expected_end_time' in st) == (start is not None), 'its end is expected')
    if start is not None:
        h.check(st['expected_end_time'] == start + ts.config['collect_period'], 'after the period')
    del logs[:]
    h.quiet('no exceptions', ts.clear_dead_clients)
    h.check(sorted(ts.clients) == sorted(set('AB') - set(dead)), 'silent nodes are dropped')
    if start is not None:
        h.check(sorted(ts.collection_phase.lost) == sorted(dead), 'the round is told of them, and of no others')
    h.check(len([m for (l, m) in logs if l == 'warning' and m.startswith('last checkin')]) == len(slow), 'a node that is late is reported')
    h.check(len([m for (l, m) in logs if l == 'warning' and m.startswith('control connection')]) == warn_control, 'a node that has no Tor is reported')
    h.check(len([m for (l, m) in logs if ' for client ' in m and not m.startswith('last checkin') and not m.startswith('control connection')]) == warn_event,
            'a node that gets no events is reported')


@harness(group='a', cover=['now', 'delay', 'start time'], bounds='any delays, start times, round trips and noise, after a round that ended at any time')
def next_round(h):
    h.now = h.real('end', 1, 2 ** 20)
    end = h.now
    ts = tally_server(h, delay_period=h.real('delay', 0, 2 ** 20), always_delay=h.flag('always'), start_after_time=h.real('after', 0, 2 ** 21))
    rtt = 1.0
    for uid in ('A', 'B'):
        if h.flag('knows ' + uid):
            ts.clients[uid] = status('DataCollector', uid, h.now, rtt=h.real('rtt ' + uid, 0, 100), time=0.0)
            rtt = h.Max(rtt, ts.clients[uid]['rtt'] + 1.0)
    done = h.flag('a round before')
    if done:
        ts.collection_delay.set_delay_for_stop(True, ts.config['noise'], end - 1, end, ts.config['delay_period'], always_delay=ts.config['always_delay'])
    h.now = h.now + h.real('wait', 0, 2 ** 21)
    st = h.quiet('no exceptions', ts.get_status)
    delay = end + ts.config['delay_period'] + rtt if done and ts.config['always_delay'] else 0
    due = h.Max(delay, ts.config['start_after_time'])
    if st['delay_reason'] == 'clients are ready':
        h.check(h.now >= due, 'nothing but clients is waited for')
        h.cover('now')
    else:
        h.check(st['delay_until'] == due, 'when the next round may begin')
        h.check(h.now < due, 'it is waited for')
        if st['delay_reason'] == 'noise change delay':
            h.check(delay > ts.config['start_after_time'], 'why')
            h.cover('delay')
        else:
            h.check(st['delay_reason'] == 'configured start time' and delay <= ts.config['start_after_time'], 'why')
            h.cover('start time')
