# -*- coding: utf-8 -*-
'what the demonstrations share: nodes and connections without a network, quiet logs'
import atexit
import base64
import hashlib
import logging
import os
import shutil
import sys
import tempfile

sys.setrecursionlimit(10000)
logging.disable(logging.CRITICAL)
INF = float('inf')
SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)
FP = 'A' * 40

import privcount.counter as C
import privcount.data_collector as D
import privcount.share_keeper as S
import privcount.protocol as P
from privcount.crypto import get_public_digest_string
from twisted.internet import reactor, task


def write(name, text):
    path = os.path.join(SCRATCH, name)
    f = open(path, 'wb')
    f.write(text)
    f.close()
    return path


def no_noise():
    C.noise = lambda sigma, sum_of_sq, p: 0.0


def aggregator(bins, **kw):
    conf = dict([(n, {'bins': [list(b) for b in bins[n]], 'sigma': 1.0}) for n in bins])
    conf['ZeroCount'] = {'bins': [[0.0, INF]], 'sigma': 1.0}
    a = dict(traffic_model_config=None, sk_uids=[], noise_weight={'*': 1.0}, modulus=2 ** 70,
             tor_control_port={'ip': '127.0.0.1', 'port': 9051}, rotate_period=600, use_setconf=True,
             max_cell_events_per_circuit=-1, circuit_sample_rate=1.0, domain_lists=[], domain_suffixes={},
             country_lists=[], as_data={}, hsdir_store_lists=[], hsdir_fetch_lists=[], circuit_failure_lists=[],
             onion_address_lists=[])
    a.update(kw)
    return D.Aggregator(conf, **a)


def counts(a):
    'the counts at the end of the round, as {counter: [count of each bin]}'
    if a.get_fingerprint() is None:
        a.set_fingerprint(FP)
    c = a.stop()
    return dict([(n, [int(b[2]) for b in c[n]['bins']]) for n in c])


def stream(port=80, read=100, written=50, start=1.0, end=2.0, host='example.com', ip='1.2.3.4', number=1, chan=1, circ=2):
    return ['PRIVCOUNT_STREAM_ENDED', str(chan), str(circ), '3', str(port), str(read), str(written), str(start),
            str(end), host, ip, str(number)]


class Address(object):
    host, port = '10.0.0.1', 2001


class Transport(object):
    def __init__(self):
        self.sent = []
        self.disconnecting = False

    def writeSequence(self, seq):
        self.write(''.join(seq))

    def write(self, data):
        if not self.disconnecting:
            self.sent.append(data)

    def loseConnection(self):
        self.disconnecting = True

    abortConnection = loseConnection

    def getPeer(self):
        return Address()

    getHost = getPeer

    def lines(self):
        return ''.join(self.sent).split('\r\n')[:-1]


class Factory(object):
    'answers and records what a connection asks of its node'
    def __init__(self, **answers):
        self.answers = answers
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a):
            self.calls.append((name,) + a)
            return self.answers.get(name)
        return f


STOPS = []
for m in list(sys.modules.values()):
    if m is not None and 'stop_reactor' in getattr(m, '__dict__', {}):
        m.stop_reactor = lambda code=0: STOPS.append(code)


def secret(name):
    return write(name + '.handshake', base64.b64encode(hashlib.sha256(name).digest()))


def connect(cls, factory):
    p = cls(factory)
    p.makeConnection(Transport())
    return p


def deliver(p, line):
    if not p.transport.disconnecting:
        p.dataReceived(line + '\r\n')


def relay(s, c, most=20):
    done = {id(s): 0, id(c): 0}
    n, moved = 0, True
    while moved and n < most:
        moved = False
        for (x, y) in ((s, c), (c, s)):
            lines = x.transport.lines()
            while done[id(x)] < len(lines) and n < most:
                l = lines[done[id(x)]]
                done[id(x)] += 1
                n += 1
                moved = True
                deliver(y, l)
    return n


def public(name):
    return 'PUBLIC-KEY ' + name


def digest(name):
    return get_public_digest_string(public(name), is_private_key=False)


def keeper_map(names):
    return dict([(digest(n), base64.b64encode(public(n))) for n in names])


def start_config(names, counters=None, sigma=4.0):
    counters = counters or {'ExitStreamCount': [[0.0, INF]]}
    return {
        'counters': dict([(k, {'bins': [list(b) for b in counters[k]]}) for k in counters]),
        'noise': {'counters': dict([(k, {'sigma': sigma}) for k in counters])},
        'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 60,
        'sharekeepers': keeper_map(names), 'defer_time': 5.0}


def data_collector(names, name='dc1', **kw):
    dc = D.DataCollector('/nonexistent')
    dc.config = {'name': name, 'delay_period': 0.0, 'always_delay': False, 'sigma_decrease_tolerance': 0.001,
                 'share_keepers': [digest(n) for n in names], 'event_source': {'ip': '127.0.0.1', 'port': 9051},
                 'rotate_period': 600, 'use_setconf': True, 'tally_server_info': {'ip': '127.0.0.1', 'port': 20001}}
    dc.config.update(kw)
    return dc


def share_keeper(name):
    sk = S.ShareKeeper('/nonexistent')
    sk.config = {'name': digest(name), 'key': write(name + '.pem', 'PRIVATE-KEY %s\n' % name), 'delay_period': 0.0,
                 'always_delay': False, 'sigma_decrease_tolerance': 0.001,
                 'tally_server_info': {'ip': '127.0.0.1', 'port': 20001}}
    return sk


def same(got, want, what):
    if got != want:
        print 'FAILED: %s: %r, expected %r' % (what, got, want)
        sys.exit(1)
    print 'ok: %s: %r' % (what, got)


def true(cond, what):
    same(bool(cond), True, what)


def tally_server(**kw):
    'a tally server with a configuration as refresh_config() leaves it'
    import privcount.tally_server as T
    c = {'name': 'ts', 'counters': {'ExitStreamCount': {'bins': [[0.0, INF]]}, 'ZeroCount': {'bins': [[0.0, INF]]}},
         'noise': {'counters': {'ExitStreamCount': {'sigma': 4.0}, 'ZeroCount': {'sigma': 2.0}}}, 'noise_weight': {'*': 1.0},
         'dc_threshold': 1, 'sk_threshold': 1, 'collect_period': 100, 'event_period': 60, 'checkin_period': 10,
         'continue': True, 'delay_period': 0.0, 'always_delay': False, 'sigma_decrease_tolerance': 0.001,
         'start_after_time': 0.0, 'listen_port': 20001, 'max_cell_events_per_circuit': -1, 'circuit_sample_rate': 1.0,
         'results': SCRATCH, 'cert': '/x/c', 'key': '/x/k', 'secret_handshake': '/x/h', 'state': '/x/s',
         'domain_exacts': [], 'domain_suffixes': {}, 'country_exacts': [], 'as_data': {'lists': []},
         'hsdir_store_exacts': [], 'hsdir_fetch_exacts': [], 'circuit_failure_exacts': [], 'onion_address_exacts': []}
    c.update(kw)
    ts = T.TallyServer('/nonexistent')
    ts.config = c
    ts.refresh_config = lambda: None
    return ts


def status(kind, uid, now, state='idle', **kw):
    s = {'type': kind, 'name': uid, 'state': state, 'alive': now, 'rtt': 0.0, 'clock_skew': 0.0,
         'privcount_version': '2.0.0', 'client_address': '10.0.0.1'}
    if kind == 'ShareKeeper':
        s['public_key'] = public(uid)
    s.update(kw)
    return s
