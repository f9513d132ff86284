# -*- coding: utf-8 -*-
'connections for the protocol harnesses'
import hashlib
import sys

from common import plain_logs
from nodes import reset, write
import privcount.protocol as P

CRLF = '\r\n'


class Address(object):
    def __init__(self, host, port):
        self.host, self.port = host, port


class Transport(object):
    'records what is sent; in order with what else happens, if given a log'
    def __init__(self):
        self.sent = []
        self.disconnecting = False
        self.lost = 0

    def writeSequence(self, seq):
        self.write(''.join(seq))

    def write(self, data):
        if not self.disconnecting:
            self.sent.append(data)

    def loseConnection(self):
        self.disconnecting = True
        self.lost += 1

    abortConnection = loseConnection

    def getPeer(self):
        return Address('10.0.0.1', 2001)

    def getHost(self):
        return Address('10.0.0.2', 2002)

    def lines(self):
        'the complete lines sent so far'
        return ''.join(self.sent).split(CRLF)[:-1]


class Stops(list):
    'the calls that stop the process'
    def __init__(self, h):
        list.__init__(self)
        for name in list(sys.modules):
            m = sys.modules[name]
            if m is not None and name.startswith('privcount.') and 'stop_reactor' in m.__dict__:
                h.patch(m, 'stop_reactor', self.stop)

    def stop(self, code=0):
        self.append(code)


class Entropy(object):
    'the random bytes of the operating system: no two alike'
    def __init__(self):
        self.n = 0

    def __call__(self, n):
        self.n += 1
        out, i = '', 0
        while len(out) < n:
            out += hashlib.sha256('%d %d' % (self.n, i)).digest()
            i += 1
        return out[:n]


def quiet_world(h):
    reset()
    plain_logs(h)
    h.urandom = Entropy()
    return Stops(h)


class Base(object):
    'what a factory must provide; every call is recorded'
    def __init__(self, secret=None):
        self.secret = secret
        self.calls = []

    def get_secret_handshake_path(self):
        return self.secret

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a):
            self.calls.append((name,) + a)
            return self.answer(name, a)
        return f

    def answer(self, name, a):
        return None


class Server(Base):
    start = None
    stop = None

    def answer(self, name, a):
        return {'get_status': {'server': 'status'}, 'get_stop_config': self.stop, 'get_start_config': self.start,
                'get_checkin_period': 60}.get(name)


class Client(Base):
    start = None
    stop = None

    def answer(self, name, a):
        return {'get_status': {'name': 'node', 'type': 'DataCollector'}, 'do_start': self.start, 'do_stop': self.stop}.get(name)


def secret(name):
    'a file with a secret of its own'
    import base64
    return write(name + '.handshake', base64.b64encode(hashlib.sha256(name).digest()))


def connect(cls, factory):
    p = cls(factory)
    p.makeConnection(Transport())
    return p


def deliver(h, p, line):
    'the lines of an attacker or of the other end; the network only delivers lines to open connections'
    if not p.transport.disconnecting:
        p.dataReceived(line + CRLF)


def relay(h, s, c, most=20):
    'pass on the lines of both; returns how many were passed'
    done = {id(s): 0, id(c): 0}
    n = 0
    moved = True
    while moved and n < most:
        moved = False
        for (x, y) in ((s, c), (c, s)):
            lines = x.transport.lines()
            while done[id(x)] < len(lines) and n < most:
                l = lines[done[id(x)]]
                done[id(x)] += 1
                n += 1
                moved = True
                deliver(h, y, l)
    return n
