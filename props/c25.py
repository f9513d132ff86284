# -*- coding: utf-8 -*-
'C25 what is said on a valid connection reaches the node it is for'
import json
from hx import harness
from wire import Client, Server, connect, deliver, quiet_world, secret
from twisted.internet import task
import privcount.protocol as P


def session(h, **kw):
    'a server and a client that completed the handshake'
    stops = quiet_world(h)
    (sf, cf) = (Server(secret('k1')), Client(secret('k1')))
    (s, c) = (connect(P.PrivCountServerProtocol, sf), connect(P.PrivCountClientProtocol, cf))
    for (x, y, i) in ((s, c, 0), (c, s, 0), (s, c, 1), (c, s, 1)):
        deliver(h, y, x.transport.lines()[i])
    h.check(s.is_valid_connection and c.is_valid_connection, 'both know the secret')
    return stops, sf, cf, s, c


def fresh(*ends):
    'forget what was sent and done'
    for p in ends:
        del p.transport.sent[:]
        del p.factory.calls[:]


def words(line):
    x = line.split(' ', 1)
    return (x[0], x[1] if len(x) > 1 else '')


def done(f, *names):
    return [x for x in f.calls if x[0] in names]


@harness(group='a', cover=['stop', 'start', 'checkin'], bounds='a status with any number in it and any times; a round to stop or to start, or none')
def status(h):
    (stops, sf, cf, s, c) = session(h)
    (sent,) = s.transport.lines()[-1:]
    h.check(words(sent)[0] == 'STATUS', 'the server says its status')
    t0 = 1000
    wait, skew = h.real('wait', 0, 1000), h.real('skew', -5000, 5000)
    h.now = t0 + wait
    number = h.int('number', -2 ** 62, 2 ** 62)
    sf.stop = {'round': number} if h.flag('to stop') else None
    sf.start = {'counters': [number]} if h.flag('to start') else None
    fresh(s, c)
    theirs = {'name': 'node', 'number': number}
    deliver(h, s, 'STATUS %s %s' % (h.text(t0 + wait / 2 + skew), json.dumps(theirs)))
    h.check(s.is_valid_connection and not s.transport.disconnecting and not stops, 'a good status is accepted')
    got = done(sf, 'set_client_status')
    h.check(len(got) == 1, 'the status is noted once')
    for (n, uid, st) in got:
        h.check(uid == 'node' and st['name'] == 'node', 'by the name of the client')
        h.check(st['number'] == number, 'what the client says is kept')
        h.check(st['alive'] == h.now, 'it is alive now')
        h.check(st['rtt'] == wait, 'the time of the round trip')
        h.check(st['clock_skew'] == abs(skew), 'the difference of the clocks')
        h.check(st['client_address'] == '10.0.0.1:2001' and st['tally_server_address'] == '10.0.0.2:2002', 'the addresses')
    lines = s.transport.lines()
    h.check(len(lines) == 1, 'one answer')
    (kind, payload) = words(lines[0])
    if sf.stop is not None:
        h.check(kind == 'STOP', 'a round that is to stop comes first')
        h.check(json.loads(payload)['round'] == number, 'the stop command is sent as it is')
        h.check(not done(sf, 'get_start_config'), 'nothing is started then')
        h.cover('stop')
    elif sf.start is not None:
        h.check(kind == 'START', 'a round that is to start')
        h.check(json.loads(payload)['counters'][0] == number, 'the start command is sent as it is')
        h.cover('start')
    else:
        h.check(kind == 'CHECKIN' and payload == '60', 'otherwise the client is to come back')
        h.cover('checkin')
    h.check([x[1:] for x in sf.calls if x[0] in ('get_stop_config', 'get_start_config')] ==
            [('node',)] * (1 if sf.stop is not None else 2), 'asked for this client')
    # a second status in the same connection has no round trip to measure
    fresh(s)
    deliver(h, s, 'STATUS %s %s' % (h.text(t0), json.dumps(theirs)))
    for (n, uid, st) in done(sf, 'set_client_status'):
        h.check(st['rtt'] == 0 and st['clock_skew'] == 0, 'only an answer measures')


@harness(group='b', cover=['success', 'failure'], bounds='start and stop commands and results with any numbers and nested structure')
def commands(h):
    (stops, sf, cf, s, c) = session(h)
    deliver(h, s, 'STATUS 1000 {"name":"node"}')
    what = h.choice('what', ['start', 'stop'])
    a, b = h.int('a', -2 ** 70, 2 ** 70), h.real('b', -1000, 1000)
    conf = {'counters': {'X Y': {'bins': [[b, 1.0]]}}, 'n': a, 's': '"\\ \n'}
    fresh(s, c)
    getattr(s, 'send_%s_event' % what)(conf)
    ok = h.flag('success')
    result = {'counts': [[a, {'x y': b}]], 'e': []} if ok else None
    setattr(cf, what, result)
    for l in s.transport.lines():
        deliver(h, c, l)
    got = done(cf, 'do_start', 'do_stop')
    h.check([x[0] for x in got] == ['do_' + what], 'the client does it once')
    for (n, x) in got:
        h.check(set(x) == set(conf) and x['n'] == a and x['counters']['X Y']['bins'][0][0] == b and x['s'] == conf['s'],
                'the command arrives as it was sent')
    h.check(c.is_valid_connection and len(c.transport.lines()) == 1, 'it answers')
    fresh(s)
    for l in c.transport.lines():
        deliver(h, s, l)
    got = done(sf, 'set_start_result', 'set_stop_result')
    h.check([x[0] for x in got] == ['set_%s_result' % what], 'the server notes the result once')
    for (n, uid, x) in got:
        h.check(uid == 'node', 'of the client it talked to')
        if ok:
            h.check(x is not None and x['counts'][0][0] == a and x['counts'][0][1]['x y'] == b and x['e'] == [], 'the result arrives as it was sent')
            h.cover('success')
        else:
            h.check(x is None, 'a failure has no result')
            h.cover('failure')
    h.check([words(l)[0] for l in s.transport.lines()] == ['STATUS'], 'then the server goes on with its status')
    h.check(s.is_valid_connection and not stops, 'the connection is kept')


OTHERS = ['FAIL', 'FAIL {}', 'FAILURE {"a":1}', 'S {}', 'STARTED {}', 'SUCCESSFUL {}', 'success {}', 'SUCCESS', '', '{}', '{} {}']


@harness(group='b', cover=['start', 'stop'], bounds='eleven answers to a start or a stop command that are no success')
def failures(h):
    'only a success is a success'
    (stops, sf, cf, s, c) = session(h)
    deliver(h, s, 'STATUS 1000 {"name":"node"}')
    what = h.choice('what', ['start', 'stop'])
    fresh(s)
    deliver(h, s, '%s %s' % (what.upper(), h.choice('answer', OTHERS)))
    got = done(sf, 'set_start_result', 'set_stop_result')
    h.check([x[0] for x in got] in ([], ['set_%s_result' % what]), 'the result of what was asked')
    for x in got:
        h.check(x[1] == 'node' and x[2] is None, 'a node that does not say that it succeeded did not', str(x))
    h.check(not stops, 'the process goes on')
    h.cover(what)


@harness(group='b', cover=['done'], bounds='a status of the server with any number; the status of the client is the answer')
def client_status(h):
    (stops, sf, cf, s, c) = session(h)
    a = h.int('a', -2 ** 70, 2 ** 70)
    fresh(s, c)
    h.now = h.real('now', 0, 2 ** 40)
    deliver(h, c, 'STATUS %s %s' % (h.text(h.real('t', 0, 2 ** 40)), json.dumps({'n': a})))
    got = done(cf, 'set_server_status')
    h.check(len(got) == 1 and got[0][1]['n'] == a, 'the status is noted')
    lines = c.transport.lines()
    h.check(len(lines) == 1 and words(lines[0])[0] == 'STATUS', 'the client answers with its status')
    (t, st) = words(words(lines[0])[1])
    h.check(h.value_of(t) == h.now if h.sym else abs(float(t) - h.now) < 0.1 * max(1, abs(h.now) * 1e-8), 'at the time of its clock')
    h.check(json.loads(st)['name'] == 'node', 'the status of the client')
    h.check(c.is_valid_connection and not stops, 'the connection is kept')
    h.cover('done')


@harness(group='b', cover=['first', 'again'], bounds='any checkin period from 0 to 2^31; with and without a task that runs already')
def checkin(h):
    (stops, sf, cf, s, c) = session(h)
    period = h.int('period', 0, 2 ** 31)
    old = None
    if h.flag('running'):
        old = task.LoopingCall(lambda: None)
        old.start(9, now=False)
        if h.flag('stopped'):
            old.stop()
    ran = []
    cf.do_checkin = lambda: ran.append(1)
    cf.task = old
    cf.get_checkin_task = lambda: cf.task
    cf.set_checkin_task = lambda t: setattr(cf, 'task', t)
    fresh(s, c)
    deliver(h, c, 'CHECKIN %s' % h.text(period))
    h.check(not stops, 'the process goes on')
    if old is not None:
        h.check(not old.running, 'the old task is stopped')
        h.cover('again')
    else:
        h.cover('first')
    h.check(cf.task is not None and cf.task is not old and cf.task.running, 'the client will come back')
    h.check(cf.task.interval == period, 'after the period')
    h.check(not ran, 'not at once')
    cf.task.fire()
    h.check(ran == [1], 'with a new connection')
    h.check(c.transport.lines() == ['CHECKIN SUCCESS'], 'the server is told')
    h.check(c.transport.disconnecting, 'the connection is closed')
    h.check(cf.calls.count(('stopTrying',)) == 1, 'and not made again at once')
    # and the server
    deliver(h, s, 'CHECKIN SUCCESS')
    h.check(s.transport.disconnecting and not stops, 'the server closes it, too')


GOOD = {'server': ['STATUS 1.0 {"name":"n"}', 'START SUCCESS {}', 'START FAIL', 'STOP SUCCESS {}', 'STOP FAIL', 'CHECKIN SUCCESS'],
        'client': ['STATUS 1.0 {}', 'START {}', 'STOP {}', 'CHECKIN 5']}
# neither understood nor answered: the connection ends
UNKNOWN = {'server': ['', 'x', 'QUIT', 'STATUS', 'STATUS 1.0', 'STATUSX 1.0 {"name":"n"}', 'STARTX FAIL', 'STOPX FAIL', 'status 1.0 {"name":"n"}', ' STATUS 1.0 {}'],
           'client': ['', 'x', 'QUIT', 'STATUS', 'STATUS 1.0', 'STATUSX 1.0 {}', 'CHECKIN', 'CHECKIN 1 2', 'CHECKINX 5', 'checkin 5']}
# errors of a peer that knows the secret: the process ends
BROKEN = {'server': ['STATUS 1.0 {', 'STATUS 1.0 {}', 'STATUS 1.0 []', 'START SUCCESS {', 'STOP SUCCESS x'],
          'client': ['STATUS x {}', 'STATUS 1.0 {', 'START {', 'STOP', 'CHECKIN x', 'CHECKIN -1']}


@harness(group='a', cover=['good', 'unknown', 'broken', 'not valid'], bounds='every message in a listed good, unknown or broken form, to a server or a client, '
         'before the handshake, after it and after the connection ended')
def messages(h):
    (stops, sf, cf, s, c) = session(h)
    side = h.choice('side', ['server', 'client'])
    p = {'server': s, 'client': c}[side]
    f = p.factory
    valid = h.flag('valid')
    if not valid:
        if h.flag('ended'):
            p.protocol_failed()
            p.transport.disconnecting = False
        else:
            p = connect(P.PrivCountServerProtocol if side == 'server' else P.PrivCountClientProtocol, f)
    f.get_checkin_task = lambda: None
    fresh(p)
    kind = h.choice('kind', ['good', 'unknown', 'broken'])
    line = h.choice('line', {'good': GOOD, 'unknown': UNKNOWN, 'broken': BROKEN}[kind][side])
    deliver(h, p, line)
    if not valid:
        h.check(not [x for x in f.calls if x[0] not in ('get_secret_handshake_path',)] and not p.transport.sent, 'nothing is done for strangers')
        h.check(p.transport.disconnecting and not stops, 'the connection is closed')
        h.cover('not valid')
    elif kind == 'good':
        h.check(not stops, 'the process goes on')
        h.check(p.transport.disconnecting == line.startswith('CHECKIN'), 'only a checkin ends the connection')
        h.cover('good')
    elif kind == 'unknown':
        h.check(p.transport.disconnecting and not p.is_valid_connection and not p.transport.sent, 'the connection ends')
        h.check(not stops, 'the process goes on')
        h.check(not [x for x in f.calls if x[0] not in ('get_secret_handshake_path',)], 'nothing is done')
        h.cover('unknown')
    else:
        h.check(p.transport.disconnecting and not p.is_valid_connection, 'the connection ends')
        h.check(stops == [1], 'an error in a message stops the process')
        h.check(not done(f, 'do_start', 'do_stop', 'set_start_result', 'set_stop_result', 'set_server_status', 'set_client_status')
                or line == 'STATUS 1.0 []', 'nothing is done')
        h.cover('broken')


@harness(group='a', cover=['done'], bounds='an exception in any callback of a node')
def errors(h):
    (stops, sf, cf, s, c) = session(h)
    (p, line, name) = h.choice('callback', [
        (s, GOOD['server'][0], 'set_client_status'), (s, GOOD['server'][0], 'get_stop_config'), (s, GOOD['server'][1], 'set_start_result'),
        (s, GOOD['server'][3], 'set_stop_result'), (c, GOOD['client'][0], 'set_server_status'), (c, GOOD['client'][1], 'do_start'),
        (c, GOOD['client'][2], 'do_stop'), (c, GOOD['client'][3], 'set_checkin_task')])
    if name == 'set_checkin_task':
        p.factory.get_checkin_task = lambda: None
    fresh(p)

    def fails(*a):
        raise h.choice('error', [ValueError('x'), AssertionError('x'), KeyError('x')])
    setattr(p.factory, name, fails)
    h.quiet('the exception is handled', deliver, h, p, line)
    h.check(p.transport.disconnecting and not p.is_valid_connection, 'the connection ends')
    h.check(stops == [1], 'an error in a node stops the process')
    h.check(not [l for l in p.transport.lines() if 'SUCCESS' in l], 'success is not reported')
    h.cover('done')
