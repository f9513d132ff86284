# -*- coding: utf-8 -*-
'C28 events are asked of Tor, and reach the counters, exactly while a round runs'
import json
from hx import harness
from nodes import aggregator
from twisted.internet import reactor, task
from wire import Base, Transport, connect, deliver, quiet_world
import privcount.counter as CT
import privcount.protocol as P

FP = '0123456789ABCDEFabcdef0123456789ABCDEF01'
STREAM, CIRCUIT, HSDIR = 'PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CIRCUIT_CLOSE', 'PRIVCOUNT_HSDIR_CACHE_STORE'
NEEDS = {'ExitStreamCount': set([STREAM]), 'HSDir2StoreCount': set([HSDIR]), 'ZeroCount': set()}


class Factory(Base):
    'an aggregator'
    setconf = True
    rate = 1.0
    cells = -1
    fingerprint = FP
    accepts = True

    def answer(self, name, a):
        return {'get_use_setconf': self.setconf, 'get_circuit_sample_rate': self.rate, 'get_max_cell_events_per_circuit': self.cells,
                'get_fingerprint': self.fingerprint, 'get_control_password': None, 'handle_event': self.accepts}.get(name, True)


def discovered(h, f, collect=None, upto=None):
    'a client that knows about its relay'
    stops = quiet_world(h)
    p = connect(P.TorControlClientProtocol, f)
    if collect is not None:
        p.startCollection(collect)
    lines = ['250-PROTOCOLINFO 1', '250-AUTH METHODS=NULL', '250 OK', '250 OK'] + ['250 OK'] * 2 + [
        '250 Nickname=relay', '250 ORPort=9001', '250 DirPort', '250 GeoIPFile', '250 GeoIPv6File=x', '250-version=0.3', '250 OK',
        '250-address=1.2.3.4', '250 OK', '250-privcount-version=1.1', '250 OK', '250-fingerprint=' + FP]
    for l in lines[:upto]:
        deliver(h, p, l)
    return stops, p


def since(p):
    l = p.transport.lines()
    del p.transport.sent[:]
    return l


def events_of(line):
    w = line.split(' ')
    return set([x for x in w[1:] if x])


def expect_on(h, p, f, lines, wanted, model=None, again=False):
    'what is sent to start a collection'
    kinds = [l.split(' ')[0] for l in lines]
    h.check(kinds[-1:] == ['SETEVENTS'] and events_of(lines[-1]) == wanted, 'the events that the counters need are asked for', str(lines[-1:]))
    h.check(kinds.count('SETEVENTS') == 1, 'once')
    conf = [l.split(' ', 1)[1].split('=') for l in lines if l.startswith('SETCONF ')]
    if f.setconf:
        keys = [k for (k, v) in conf]
        values = dict(conf)
        h.check(keys[:1] == ['__ReloadTorrcOnSIGHUP'] and values['__ReloadTorrcOnSIGHUP'] == '0', 'the settings are kept when Tor reads its config again')
        h.check(keys[-1:] == ['EnablePrivCount'] and values['EnablePrivCount'] == '1', 'the events are switched on, after the other settings')
        if f.rate == 1.0:
            h.check('PrivCountCircuitSampleRate' not in values, 'no sampling')
        else:
            h.check('PrivCountCircuitSampleRate' in values, 'the sample rate is set')
            if 'PrivCountCircuitSampleRate' in values:
                h.check(h.near(h.value_of(values['PrivCountCircuitSampleRate']), f.rate), 'the sample rate of the round')
            h.cover('sampled')
        if f.cells < 0:
            h.check('PrivCountMaxCellEventsPerCircuit' not in values, 'all cells')
        else:
            h.check('PrivCountMaxCellEventsPerCircuit' in values, 'the number of cells is set')
            if 'PrivCountMaxCellEventsPerCircuit' in values:
                h.check(h.value_of(values['PrivCountMaxCellEventsPerCircuit']) == f.cells, 'the number of cells of the round')
            h.cover('limited')
        h.check(len(conf) == len(values) and set(values) <= set(['__ReloadTorrcOnSIGHUP', 'EnablePrivCount', 'PrivCountCircuitSampleRate',
                                                              'PrivCountMaxCellEventsPerCircuit']), 'nothing else is set')
    else:
        h.check(not conf, 'nothing is set when that is not allowed')
        h.cover('not allowed')
    h.check(kinds.count('GETCONF') == 1 and 'GETCONF EnablePrivCount' in lines, 'it is checked that the events are switched on')
    if conf and f.setconf:
        h.check(lines.index('GETCONF EnablePrivCount') > lines.index('SETCONF EnablePrivCount=1'), 'after they were')
    models = [l for l in lines if l.startswith('SET_TMODEL')]
    if model is None:
        h.check(not models, 'no traffic model')
    else:
        h.check(len(models) == 1 and models[0].startswith('SET_TMODEL TRUE ') and
                json.loads(models[0].split(' ', 2)[2].replace(';', ',')) == model, 'the traffic model is sent, before the events')
        h.cover('model')
    h.check(p.state == 'processing', 'it is processing')


def expect_off(h, p, f, lines, state='waiting'):
    'what is sent to end it'
    h.check(lines[:1] == ['SETEVENTS'], 'no more events, first of all')
    conf = [l.split(' ', 1)[1].split('=') for l in lines if l.startswith('SETCONF ')]
    if f.setconf:
        values = dict(conf)
        h.check(values.get('EnablePrivCount') == '0' and values.get('__ReloadTorrcOnSIGHUP') == '1', 'the settings are undone')
        h.check(('PrivCountCircuitSampleRate' in values) == h.fix(f.rate != 1.0) if h.sym else ('PrivCountCircuitSampleRate' in values) == (f.rate != 1.0),
                'the sample rate is undone if it was set')
        h.check(values.get('PrivCountCircuitSampleRate', '1.0') == '1.0', 'no sampling')
        h.check(values.get('PrivCountMaxCellEventsPerCircuit', '-1') == '-1', 'all cells')
        if f.cells >= 0:
            h.check('PrivCountMaxCellEventsPerCircuit' in values, 'the number of cells is undone')
        h.check(conf[-1:] == [['__ReloadTorrcOnSIGHUP', '1']], 'at last Tor may read its config again')
    else:
        h.check(not conf, 'nothing is set when that is not allowed')
    h.check('SET_TMODEL FALSE' in lines, 'no traffic model')
    h.check(not [l for l in lines if l.startswith('GET')], 'nothing is asked')
    h.check(p.state == state, 'it is waiting')


@harness(group='a', cover=['sampled', 'limited', 'not allowed', 'model', 'again'], bounds='any sample rate in [0, 1] and number of cells within +-2^31; '
         'allowed to set options or not; three sets of counters and three of events; with a traffic model or not; one or two rounds')
def settings(h):
    f = Factory()
    f.setconf = h.flag('use setconf')
    f.rate = h.real('sample rate', 0, 1)
    f.cells = h.int('cells', -2 ** 31, 2 ** 31)
    early = h.flag('started before the connection')
    model = h.choice('model', [None, {'state_space': ['a', 'b'], 'x': [1.5, {'y': 2}]}])
    stops = quiet_world(h)
    p = connect(P.TorControlClientProtocol, f)
    counters = h.choice('counters', [['ExitStreamCount'], ['HSDir2StoreCount', 'ExitStreamCount', 'ZeroCount'], None])
    extra = h.choice('events', [None, [CIRCUIT.lower()], ['UNKNOWN', CIRCUIT]])
    wanted = set().union(*[NEEDS[c] for c in counters or []]) | (set([CIRCUIT]) if extra else set())
    if early:
        since(p)
        p.startCollection(counters, extra, model)
        h.check(not since(p), 'nothing is said before it is connected')
    for l in ['250-AUTH METHODS=NULL', '250 OK']:
        deliver(h, p, l)
    since(p)
    deliver(h, p, '250 OK')
    sent = since(p)
    h.check(sent[:1] == ['SETEVENTS'] and 'SETCONF EnablePrivCount=1' not in sent, 'at first there are no events')
    asked = set([l for l in sent if l.startswith('GET')])
    h.check(asked == set(['GETCONF Nickname', 'GETCONF ORPort', 'GETCONF DirPort', 'GETCONF GeoIPFile', 'GETCONF GeoIPv6File',
                          'GETINFO version', 'GETINFO address', 'GETINFO privcount-version', 'GETINFO fingerprint']), 'it asks about the relay')
    h.check(sent[-1] == 'GETINFO fingerprint', 'the fingerprint comes last')
    if not early:
        deliver(h, p, '250-fingerprint=' + FP)
        h.check(since(p) == ['GETINFO ns/id/' + FP] and p.state == 'waiting', 'it waits for a round')
        p.startCollection(counters, extra, model)
        sent = since(p)
    else:
        deliver(h, p, '250-fingerprint=' + FP)
        sent = since(p)
        h.check(sent[:1] == ['GETINFO ns/id/' + FP], 'the flags')
        sent = sent[1:]
    h.check(('set_fingerprint', FP) in f.calls, 'the fingerprint')
    expect_on(h, p, f, sent, wanted, model)
    p.stopCollection()
    expect_off(h, p, f, since(p))
    if h.flag('another round'):
        p.startCollection(['HSDir2StoreCount'])
        expect_on(h, p, f, since(p), set([HSDIR]))
        h.cover('again')


ACTIONS = ['start', 'start other', 'stop', 'wanted', 'unwanted', 'unknown', 'empty', 'rejected', 'flags', 'no flags', 'ok', 'error', 'on', 'off',
           'lost', 'other', 'hour', 'text']


@harness(group='b', cover=['counted', 'closed', 'ignored', 'flags'], bounds='three (thorough: four) of eighteen kinds of actions and lines, in any order, by a '
         'connection that is waiting or processing')
def order(h):
    f = Factory()
    early = h.flag('started')
    stops, p = discovered(h, f, ['ExitStreamCount'] if early else None)
    h.check(p.state == ('processing' if early else 'waiting'), 'ready')
    wanted = set([STREAM]) if early else None
    closed = False
    steps = 3 if h.tier == 'quick' else 4
    for i in range(steps):
        # the details vary in the last step
        def pick(name, seq):
            return h.choice(name, seq) if i == steps - 1 else seq[0]
        since(p)
        del f.calls[:]
        f.accepts = True
        what = h.choice('action', ACTIONS if not closed else ['start', 'stop', 'hour', 'nothing more'])
        if what == 'nothing more':
            break
        (expected, close) = ([], False)
        if what.startswith('start'):
            wanted = set([STREAM]) if what == 'start' else set([HSDIR, CIRCUIT])
            h.quiet('starting does not raise', p.startCollection, ['ExitStreamCount'] if what == 'start' else ['HSDir2StoreCount'],
                    None if what == 'start' else [CIRCUIT])
            if not closed:
                expect_on(h, p, f, since(p), wanted)
            else:
                h.check(not since(p), 'nothing is sent after the end')
            continue
        elif what == 'stop':
            wanted = None
            h.quiet('stopping does not raise', p.stopCollection)
            if not closed:
                expect_off(h, p, f, since(p))
            else:
                h.check(not since(p), 'nothing is sent after the end')
            continue
        elif what == 'hour':
            for l in task.loops:
                if l.running:
                    l.fire()
            h.check(since(p) == ([] if closed else ['GETINFO ns/id/' + FP]), 'the flags are asked for again while connected')
            continue
        elif what == 'lost':
            class Reason(object):
                def getErrorMessage(self):
                    return 'Connection was closed cleanly'
            p.connectionLost(Reason())
            p.transport.loseConnection()
            close = True
        else:
            name = {'wanted': STREAM, 'rejected': STREAM, 'unwanted': CIRCUIT, 'unknown': 'PRIVCOUNT_NEW_EVENT', 'empty': STREAM}.get(what)
            if name is not None:
                f.accepts = what != 'rejected'
                text = pick('fields', ['1 2 3', 'a=b c="d"', '650 OK']) if what != 'empty' else ''
                line = ('650 %s %s' % (name, text)).strip() if text else '650 ' + name
                if wanted is not None and name in wanted and text:
                    expected = [('handle_event', [name] + text.split(' '))]
                    close = what == 'rejected'
                deliver(h, p, line)
            elif what == 'flags':
                (a, b) = (pick('event between', [True, False]), 's Exit Fast Guard')
                for l in ['250+ns/id/%s=' % FP, 'r relay x y', b]:
                    deliver(h, p, l)
                if a and wanted is not None and STREAM in wanted:
                    deliver(h, p, '650 %s 1 2' % STREAM)
                    expected = [('handle_event', [STREAM, '1', '2'])]
                for l in ['w Bandwidth=5', 'p reject 1-65535', '.', '250 OK']:
                    deliver(h, p, l)
                h.check([x for x in f.calls if x[0] == 'set_flag_list'] == [('set_flag_list', 'Exit Fast Guard')], 'the flags')
                h.cover('flags')
            elif what == 'no flags':
                deliver(h, p, pick('how', ['250-ns/id/%s=' % FP, '552 Unrecognized key "ns/id/%s"' % FP]))
                h.check([x for x in f.calls if x[0] == 'set_flag_list'] == [('set_flag_list', '')], 'no flags')
            elif what == 'ok':
                deliver(h, p, '250 OK')
            elif what == 'error':
                deliver(h, p, '552 Unrecognized event "x"')
                close = True
            elif what == 'on':
                deliver(h, p, '250 EnablePrivCount=1')
            elif what == 'off':
                deliver(h, p, '250 EnablePrivCount=' + pick('off', ['0', '', '11']))
                # the answer matters if events were to be on
                close = wanted is not None
            elif what == 'other':
                deliver(h, p, pick('line', ['650 BW 1 2', '', '451 busy']))
                close = True
            elif what == 'text':
                # outside an entry these lines mean nothing
                deliver(h, p, pick('line', ['s Exit', '.']))
                close = True
        got = [x for x in f.calls if x[0] == 'handle_event']
        h.check(got == expected, 'the events that are wanted reach the counters, and no others', '%s %s' % (got, expected))
        if expected:
            h.cover('counted')
        elif what in ('wanted', 'unwanted', 'unknown', 'empty'):
            h.cover('ignored')
        if close:
            closed = True
            if what != 'lost':
                sent = since(p)
                h.check(sent[-1:] == ['QUIT'], 'the connection is closed')
                expect_off(h, p, f, sent[:-1], 'disconnected')
            h.check(p.transport.disconnecting and p.state == 'disconnected', 'the connection is closed')
            h.check(not [l for l in task.loops if l.running], 'nothing is left running')
            h.cover('closed')
        else:
            h.check(not p.transport.disconnecting and p.state == ('waiting' if wanted is None else 'processing'), 'the connection is kept', p.state)
    h.check(not stops, 'the process is not stopped')


DISCOVER = ['250 Nickname=relay', '250 Nickname', '250 ORPort=9001', '250-ORPort=[::1]:5', '250 ORPort', '250 DirPort=9030', '250-DirPort=1',
            '250 DirPort', '250 GeoIPFile=/a b', '250 GeoIPFile', '250 GeoIPv6File=/c', '250 GeoIPv6File', '250-version=0.3 (git-x)',
            '250-address=1.2.3.4', '551 Address unknown', '250-privcount-version=1.1.0', '250 OK', '552 Unrecognized option: x',
            '552 Unrecognized key "privcount-version"', '551 Not running in server mode', '552 x', '650 %s 1 2' % STREAM, '250+ns/id/x', 's Exit',
            '650 BW 1', '551 Other']
SETS = {'250 Nickname=relay': ('set_nickname', 'relay'), '250 Nickname': ('set_nickname', ''), '250 ORPort=9001': ('set_orport', '9001'),
        '250-ORPort=[::1]:5': ('set_orport', '[::1]:5'), '250 DirPort=9030': ('set_dirport', '9030'), '250-DirPort=1': ('set_dirport', '1'),
        '250 GeoIPFile=/a b': ('set_geoip_file', '/a b'), '250 GeoIPFile': ('set_geoip_file', ''), '250 GeoIPv6File=/c': ('set_geoipv6_file', '/c'),
        '250 GeoIPv6File': ('set_geoipv6_file', ''), '250-version=0.3 (git-x)': ('set_tor_version', '0.3 (git-x)'),
        '250-address=1.2.3.4': ('set_address', '1.2.3.4'), '250-privcount-version=1.1.0': ('set_tor_privcount_version', '1.1.0')}
KEEP = ('250 ORPort', '250 DirPort', '551 Address unknown', '250 OK', '250+ns/id/x', '650 %s 1 2' % STREAM)


@harness(group='a', cover=['set', 'closed', 'kept'], bounds='two (thorough: three) answers of twenty-six kinds, then the fingerprint')
def discovery(h):
    f = Factory()
    stops, p = discovered(h, f, ['ExitStreamCount'], upto=4)
    h.check(p.state == 'discovering', 'it asks')
    for i in range(2 if h.tier == 'quick' else 3):
        del f.calls[:]
        l = h.choice('line', DISCOVER)
        deliver(h, p, l)
        got = [x for x in f.calls if x[0].startswith('set_') or x[0] == 'handle_event']
        if l in SETS:
            h.check(got == [SETS[l]], 'an answer is noted as it is', '%s %s' % (l, got))
            h.cover('set')
        else:
            h.check(not got, 'nothing else is noted', '%s %s' % (l, got))
        if l in SETS or l in KEEP:
            h.check(p.state == 'discovering' and not p.transport.disconnecting, 'it goes on', l)
            h.cover('kept')
        else:
            h.check(p.state == 'disconnected' and p.transport.disconnecting, 'it is not a relay with PrivCount', l)
            h.cover('closed')
            break
    else:
        del f.calls[:]
        since(p)
        deliver(h, p, '250-fingerprint=' + FP)
        h.check([x for x in f.calls if x[0].startswith('set_')] == [('set_fingerprint', FP)], 'the fingerprint')
        sent = since(p)
        expect_on(h, p, f, sent[1:], set([STREAM]))


@harness(group='a', cover=['reconnected', 'rate'], bounds='a round of an aggregator, the connection lost and made again; any sample rate in [0, 1]; with a traffic model')
def reconnect(h):
    stops = quiet_world(h)
    rate = h.real('sample rate', 0, 1)
    a = aggregator(h, {'ExitStreamCount': {'bins': [[0.0, float('inf')]], 'sigma': 1.0}, 'HSDir2StoreCount': {'bins': [[0.0, float('inf')]], 'sigma': 1.0}},
                   circuit_sample_rate=rate, use_setconf=True)
    a.traffic_model_config = {'state_space': ['s'], 'y': 0.5}
    a.start()
    h.check(len([c for c in reactor.calls if c[0] == 'connectTCP']) == 1, 'it connects to the control port')

    class Reason(object):
        def getErrorMessage(self):
            return 'Connection was closed cleanly'
    for i in range(3):
        p = a.buildProtocol(None)
        p.makeConnection(Transport())
        for l in ['250-AUTH METHODS=NULL', '250 OK', '250 OK']:
            deliver(h, p, l)
        since(p)
        deliver(h, p, '250-fingerprint=' + FP)
        sent = since(p)
        f = Factory()
        f.rate = rate
        expect_on(h, p, f, sent[1:], set([STREAM, HSDIR]), a.traffic_model_config)
        h.check(a.protocol is p, 'the latest connection')
        if i < 2:
            p.connectionLost(Reason())
            h.check(p.state == 'disconnected', 'lost')
            h.cover('reconnected')
    h.check(len(a.secure_counters.counters) == 2, 'the counters are kept')
    a.stop()
    h.check(p.transport.disconnecting and not [l for l in task.loops if l.running], 'the end of the round')
    h.cover('rate')
