# -*- coding: utf-8 -*-
'C45 clients come back, and the server waits for them'
from copy import deepcopy
from hx import harness
from common import plain_logs, Rng
from nodes import data_collector, share_keeper, digest, write, reset, scratch, start_config
from wire import Server, Transport, connect, quiet_world, relay, secret
from twisted.internet import reactor, task
from privcount.counter import SecureCounters, counter_modulus
import privcount.protocol as P
import privcount.data_collector as D
import privcount.share_keeper as S
import privcount.tally_server as T


class Yaml(object):
    conf = None

    def load(self, f):
        return deepcopy(self.conf)


class Reason(object):
    def getErrorMessage(self):
        return 'gone'


def node(h, kind, port, key='k1'):
    'a node that reads its configuration, and a way to change it'
    y = Yaml()
    M = D if kind == 'collector' else S
    h.patch(M, 'yaml', y)
    path = write('client45', '')

    def conf(port):
        c = {'tally_server_info': {'ip': '10.1.2.3', 'port': port}, 'secret_handshake': secret(key)}
        if M is D:
            c.update({'name': 'one', 'event_source': {'ip': '127.0.0.1', 'port': 20003}, 'share_keepers': {digest('k1'): 'x'}})
        else:
            c['key'] = write('sk45.key', 'PRIVATE-KEY k1')
        y.conf = {'data_collector' if M is D else 'share_keeper': c}
    conf(port)
    return (D.DataCollector if M is D else S.ShareKeeper)(path), conf, y


def connections():
    return [x for x in reactor.calls if x[0] in ('connectSSL', 'connectTCP', 'connectUNIX')]


def retries():
    return [c[1] for c in reactor.calls if c[0] == 'callLater' and c[1].active()]


def running():
    return [l for l in task.loops if l.running]


STEPS = ['checked in', 'failed', 'lost', 'lost later', 'another secret', 'time']


@harness(cover=STEPS + ['in a round', 'collector', 'keeper', 'tried again', 'new port'], wall=400,
         bounds='three events: connections that succeed, fail, or are lost at any point, and times to check in; in a round or not; any periods and ports')
def comes_back(h):
    stops = quiet_world(h)
    kind = h.choice('kind', ['collector', 'keeper'])
    h.cover(kind)
    port = h.int('port', 1, 65535)
    (n, conf, y) = node(h, kind, port)
    h.quiet('a node starts', n.run)
    h.check([x[0] for x in reactor.calls] == ['connectSSL', 'run'], 'the node connects and runs')
    if h.flag('in a round'):
        h.rng = Rng(h, below=counter_modulus())
        if kind == 'collector':
            h.quiet('a round starts', n.do_start, start_config(['k1']))
        if kind == 'keeper':
            n.keystore = SecureCounters({'ExitStreamCount': {'bins': [[0.0, float('inf')]], 'sigma': 4.0}}, counter_modulus(), require_generate_noise=False)
        h.check(n.get_status()['state'] == 'active', 'a round has started')
        h.cover('in a round')
    trying, interval, seen = True, None, 1
    for i in range(3):
        # what the last attempt was
        cs = connections()
        h.check(len(cs) == seen, 'one connection for each check-in')
        (a, connector) = (cs[-1][1], cs[-1][3])
        h.check(a[0] == '10.1.2.3' and a[1] == port, 'to the server that is configured')
        h.check(a[2] is n, 'by the node itself')
        h.check(bool(n.continueTrying) == trying, 'a node tries until it has checked in', i)
        step = h.choice('step', [s for s in STEPS if (s == 'time') <= (interval is not None) and (trying or s == 'time')])
        h.cover(step)
        before = len(retries())
        if step == 'time':
            if h.flag('moved'):
                port = h.int('new port', 1, 65535)
                conf(port)
                h.cover('new port')
            for l in running():
                h.quiet('a check-in', l.fire)
            trying = True
            seen += 1
            continue
        if step == 'failed':
            h.quiet('a connection fails', n.clientConnectionFailed, connector, Reason())
        else:
            sf = Server(secret('another' if step == 'another secret' else 'k1'))
            period = h.int('period', 1, 2 ** 31)
            sf.answer = lambda name, a: {'get_status': server_status(), 'get_checkin_period': period}.get(name)
            s = connect(P.PrivCountServerProtocol, sf)
            c = n.buildProtocol(None)
            h.check(isinstance(c, P.PrivCountClientProtocol), 'a client speaks as a client')
            c.makeConnection(Transport())
            relay(h, s, c, h.choice('lines', [0, 3, 6]) if step == 'lost later' else 1 if step == 'lost' else 20)
            if step == 'checked in':
                interval = period
                trying = False
            h.check(c.transport.disconnecting == (step in ('checked in', 'another secret')), 'the client ends the connection when it is done', step)
            h.quiet('the end', c.connectionLost, Reason())
            h.quiet('the end', n.clientConnectionLost, connector, Reason())
        h.check(len(retries()) == before + (1 if trying else 0), 'a node tries again exactly if it has not checked in', step)
        if trying:
            h.cover('tried again')
            r = retries()[-1]
            m = len(reactor.calls)
            r.f(*r.a, **r.kw)
            h.check(reactor.calls[m:] == [('connect', connector)], 'to the same server')
        ls = running()
        if interval is None:
            h.check(not ls, 'nothing is scheduled before a check-in')
        else:
            h.check(len(ls) == 1, 'one task for check-ins')
            h.check(ls[0].interval == interval, 'with the period of the server')
        h.observe('trying', trying)
    h.check(not stops, 'a node goes on')


def server_status():
    st = {'state': 'idle', 'time': 0, 'privcount_version': '1', 'delay_until': 0, 'continue': True, 'completed_phases': 0}
    for k in ('dcs', 'sks'):
        for x in ('total', 'required', 'active', 'idle', 'control', 'event'):
            st['%s_%s' % (k, x)] = 0
    return st


@harness(group='b', cover=['collector', 'keeper', 'tally server', 'bad', 'good'], bounds='a configuration that is good or not, any port and period')
def begins(h):
    'a node runs only with a configuration'
    quiet_world(h)
    kind = h.choice('kind', ['collector', 'keeper', 'tally server'])
    h.cover(kind)
    good = h.flag('good')
    h.cover('good' if good else 'bad')
    port = h.int('port', 1, 65535)
    if kind != 'tally server':
        (n, conf, y) = node(h, kind, port)
        h.patch(D if kind == 'collector' else S, 'log_error', lambda: None)
        if not good:
            y.conf = {'x': 1} if h.flag('empty') else {'data_collector': {}, 'share_keeper': {}}
        h.quiet('a node starts', n.run)
        h.check(bool([x for x in reactor.calls if x[0] in ('run', 'connectSSL')]) == good, 'a node runs only with a configuration')
        return
    y = Yaml()
    h.patch(T, 'yaml', y)
    h.patch(T, 'log_error', lambda: None)
    period = h.int('event period', 1, 50)
    (key, cert) = (write('ts45.key', 'PRIVATE-KEY ts'), write('ts45.cert', 'CERT'))
    y.conf = {'counters': {'ExitStreamCount': {'bins': [[0.0, float('inf')]], 'sigma': 4.0}},
              'tally_server': {'results': scratch(), 'listen_port': port, 'sk_threshold': 1, 'dc_threshold': 1, 'event_period': period, 'key': key, 'cert': cert,
                               'collect_period': 100, 'noise_weight': {'*': 1.0}, 'secret_handshake': secret('k1')}}
    if not good:
        del y.conf['tally_server']['results']
        del y.conf['tally_server']['listen_port']
    n = T.TallyServer(write('config45', ''))
    h.quiet('a server starts', n.run)
    ls = running()
    if not good:
        h.check(not reactor.calls and not ls, 'a server without a configuration does not run')
        return
    h.check([x[0] for x in reactor.calls] == ['listenSSL', 'run'], 'the server listens, with encryption, and runs')
    a = reactor.calls[0][1]
    h.check(a[0] == port and a[1] is n, 'at its port')
    h.check(a[2].a == (key, cert), 'with its own key and certificate')
    h.check(len(ls) == 1 and ls[0].f == n.refresh_loop, 'it looks after the rounds')
    h.check(ls[0].interval == period, 'with its period')
    p = n.buildProtocol(None)
    h.check(isinstance(p, P.PrivCountServerProtocol) and p.factory is n, 'a server speaks as a server')


@harness(group='b', cover=['last is gone', 'others'], bounds='two connections of clients at the server, which end in any order')
def connections_are_independent(h):
    'every connection has a state of its own'
    quiet_world(h)
    y = Yaml()
    h.patch(T, 'yaml', y)
    n = T.TallyServer(write('config45', ''))
    n.config = {'secret_handshake': secret('k1')}
    ps = [n.buildProtocol(None) for i in range(2)]
    h.check(ps[0] is not ps[1], 'a new end for every connection')
    for p in ps:
        p.makeConnection(Transport())
    h.check(ps[0].transport.lines() != ps[1].transport.lines(), 'with challenges of their own')
    (gone, left) = (ps[0], ps[1]) if h.flag('first') else (ps[1], ps[0])
    cookie = left.server_cookie
    h.quiet('the end', gone.connectionLost, Reason())
    h.check(left.server_cookie == cookie and not left.transport.disconnecting and gone.server_cookie is None, 'one end does not touch the other')
    h.cover('others')
    h.quiet('the end', left.connectionLost, Reason())
    h.check(left.server_cookie is None and not left.is_valid_connection, 'nothing is left of a connection')
    h.cover('last is gone')
