# -*- coding: utf-8 -*-
'C23 both ends of a connection prove that they know the secret'
import hashlib
import hmac
from base64 import b64encode, b64decode
from hx import harness
from wire import Client, Server, connect, deliver, quiet_world, relay, secret
import privcount.protocol as P

VERSION, TYPE = 'PRIVCOUNT-100', 'HMAC-SHA256'
STAGES = ['HANDSHAKE1-SERVER-COOKIE', 'HANDSHAKE2-CLIENT-COOKIE-HMAC', 'HANDSHAKE3-SERVER-HMAC', 'HANDSHAKE4-CLIENT-VERIFY']
ROLES = ['SERVER', 'CLIENT', 'SERVER', 'CLIENT']
OTHER = ['STATUS 1.0 {"name":"x"}', 'START {}', 'START SUCCESS {}', 'STOP {}', 'STOP SUCCESS {}', 'CHECKIN 5', 'CHECKIN SUCCESS', '', 'x']


def mac(key, stage, s, c):
    'what the protocol defines'
    d = '%s %s %s %s' % (STAGES[stage - 1], VERSION, ROLES[stage - 1], TYPE) + s + c
    return hmac.new(hashlib.sha256(key).digest(), d, hashlib.sha256).digest()


def parts(line):
    'the stage and the arguments of a handshake line'
    x = line.split(' ')
    return (x[0], x[4:])


class World(object):
    'a server and maybe a client, and the attacker between them'
    def __init__(self, h, client_key=None, server_key='k1', talk=False):
        self.h = h
        self.stops = quiet_world(h)
        self.sf, self.server = Server(secret(server_key)), None
        self.server_key, self.client_key = server_key, client_key
        self.server = connect(P.PrivCountServerProtocol, self.sf)
        self.cf = self.client = None
        if client_key is not None:
            self.cf = Client(secret(client_key))
            self.client = connect(P.PrivCountClientProtocol, self.cf)
        self.ends = [x for x in (self.server, self.client) if x is not None]
        self.own = hashlib.sha256('own cookie').digest()
        self.cookies = [self.own]
        self.macs = []

    def learn(self):
        'what the attacker has seen'
        for p in self.ends:
            for l in p.transport.lines():
                if not l.startswith('HANDSHAKE'):
                    continue
                (stage, args) = parts(l)
                for a in args:
                    if a in ('SUCCESS', 'FAIL'):
                        continue
                    v = b64decode(a)
                    x = self.cookies if a == args[0] and not stage.startswith('HANDSHAKE3') else self.macs
                    if v not in x:
                        x.append(v)

    def seen(self, stage=None):
        'what the attacker can say: every argument of a handshake line, or those that suit the stage'
        self.learn()
        forged = [mac("own key", n, a, b) for n in (2, 3) for a in self.cookies[-2:] for b in self.cookies[:1]]
        ms = self.macs + forged + ['\0' * 32]
        one = ['', 'SUCCESS', 'FAIL'] + [b64encode(x) for x in self.cookies + ms] + ['SUCCESS SUCCESS', 'x']
        two = ['%s %s' % (b64encode(c), b64encode(m)) for c in self.cookies for m in ms]
        if stage is not None:
            return [['FAIL'] + [b64encode(x) for x in self.cookies], two, [b64encode(x) for x in ms + self.cookies[-1:]], ['SUCCESS', 'FAIL']][stage]
        return one + two

    def check(self):
        'whoever is convinced talked to someone who knows the secret, about the same cookies'
        (h, s, c) = (self.h, self.server, self.client)
        (sent_by_client, sent_by_server) = ([l for l in (c.transport.lines() if c else []) if l.startswith(STAGES[1])],
                                            [l for l in s.transport.lines() if l.startswith(STAGES[2])])
        key = hashlib.sha256(self.server_key).digest()
        if s in self.was_valid:
            pass
        elif s.is_valid_connection and not s.client_cookie:
            h.check(False, 'the server is only convinced by a client that knows the secret')
        elif s.is_valid_connection:
            h.cover('server convinced')
            good = [l for l in sent_by_client if self.client_key == self.server_key and
                    parts(l)[1] == [b64encode(s.client_cookie), b64encode(mac(self.client_key, 2, s.server_cookie, s.client_cookie))]]
            h.check(good, 'the server is only convinced by a client that knows the secret')
        if c is not None and c.is_valid_connection and c not in self.was_valid:
            h.cover('client convinced')
            good = [l for l in sent_by_server if self.client_key == self.server_key and
                    parts(l)[1] == [b64encode(mac(self.server_key, 3, c.server_cookie, c.client_cookie))]]
            h.check(good, 'the client is only convinced by a server that knows the secret')
        for (p, f) in ((s, self.sf), (c, self.cf)):
            if p is None:
                continue
            if not p.is_valid_connection:
                says = [l for l in p.transport.lines() if not l.startswith('HANDSHAKE')]
                if p not in self.was_valid:
                    h.check(not says, 'before the handshake nothing else is said', str(says[:1]))
                    h.check(not [x for x in f.calls if x[0] not in ('resetDelay', 'stopTrying')],
                            'before the handshake nothing else is done', str(f.calls[:1]))
            elif p not in self.was_valid:
                self.was_valid.append(p)
            for l in p.transport.lines():
                h.check(b64encode(key) not in l and key not in l, 'the secret is never sent')
    was_valid = ()


def attack(h, w, steps, suitable=False):
    'suitable: only what suits the end and the stage is sent'
    w.was_valid = []
    w.check()
    for i in range(steps):
        ends = [p for p in w.ends if not p.transport.disconnecting]
        if not ends:
            break
        p = h.choice('to', ends)
        stages = range(len(STAGES) + 1)
        if suitable:
            stages = [1, 3] if p is w.server else [0, 2]
        kind = h.choice('stage', stages)
        if kind == len(STAGES):
            line = h.choice('line', OTHER)
        else:
            line = '%s %s %s %s %s' % (STAGES[kind], VERSION, ROLES[kind], TYPE, h.choice('arguments', w.seen(kind if suitable else None)))
        h.call(deliver, h, p, line)
        w.check()
        if w.stops:
            # documented: a line that cannot be decoded stops the process
            h.cover('stopped')
            break
    h.cover('done')


@harness(group='a', cover=['done'], bounds='an attacker without the secret and a server: two lines (thorough: three), each any '
         'handshake stage with any combination of the cookies and codes seen or made, or any other message')
def server_alone(h):
    attack(h, World(h), 2 if h.tier == 'quick' else 3)


@harness(group='a', cover=['done'], bounds='as server_alone, for a client')
def client_alone(h):
    w = World(h, 'k1')
    w.ends = [w.client]
    attack(h, w, 2 if h.tier == 'quick' else 3)


MIDDLE = 'four lines (thorough: five) to either end, in any order, each a handshake line that suits the end, with any suitable cookie and code'


@harness(group='b', cover=['done'], bounds='an attacker between a client and a server with different secrets: ' + MIDDLE)
def different_secrets(h):
    attack(h, World(h, 'k2'), 4 if h.tier == 'quick' else 5, True)


@harness(group='c', cover=['done', 'server convinced', 'client convinced'], bounds='an attacker between a client and a server with the same secret: ' + MIDDLE)
def in_the_middle(h):
    attack(h, World(h, 'k1'), 4 if h.tier == 'quick' else 5, True)


@harness(group='d', cover=['done', 'replayed'], bounds='an attacker who has seen a complete session of client and server connects to either with what it '
         'has seen: two lines')
def replays(h):
    w = World(h, 'k1')
    w.was_valid = []
    (a, b) = (connect(P.PrivCountServerProtocol, w.sf), connect(P.PrivCountClientProtocol, w.cf))
    relay(h, a, b, 4)
    h.check(a.is_valid_connection and b.is_valid_connection, 'both ends of an honest session are convinced')
    for p in (a, b):
        old = w.ends
        w.ends = [p]
        w.learn()
        w.ends = old
    h.cover('replayed')
    del w.sf.calls[:]
    del w.cf.calls[:]
    w.ends = [h.choice('end', w.ends)]
    attack(h, w, 2)
    h.check(not w.ends[0].is_valid_connection, 'what was said in an old session convinces nobody')


@harness(group='d', cover=['agreed', 'refused'], bounds='a client and a server with the same or different secrets, the lines passed on unchanged, '
         'whole or cut anywhere into two deliveries')
def honest(h):
    same = h.flag('same secret')
    w = World(h, 'k1' if same else 'k2')
    w.was_valid = []
    (s, c) = (w.server, w.client)
    relay(h, s, c, 4)
    w.check()
    if same:
        h.check(s.is_valid_connection and c.is_valid_connection, 'both ends know the secret')
        h.check(s.transport.lines()[-1].startswith('STATUS '), 'the server goes on with its status')
        h.check(len(set([s.server_cookie, s.client_cookie])) == 2 and (s.server_cookie, s.client_cookie) == (c.server_cookie, c.client_cookie),
                'both agree on the cookies')
        h.check(w.cf.calls.count(('resetDelay',)) == 1, 'the next connection does not wait')
        h.cover('agreed')
    else:
        h.check(not s.is_valid_connection and not c.is_valid_connection, 'different secrets')
        h.check(s.transport.disconnecting and c.transport.disconnecting, 'the connection is closed')
        h.cover('refused')
    h.check(not w.stops, 'the process goes on')


VARIANTS = ['version', 'no version', 'role', 'type', 'lower case', 'more', 'less', 'prefix', 'suffix', 'other stage']


@harness(group='d', cover=['refused'], bounds='an honest session of which one handshake line is changed in its stage, version, role, type or '
         'number of parts')
def altered_lines(h):
    w = World(h, 'k1')
    w.was_valid = []
    (s, c) = (w.server, w.client)
    at = h.size('altered', 0, 3)
    for i in range(at):
        (x, y) = ((s, c), (c, s))[i % 2]
        # lines one and three of an honest session come from the server
        deliver(h, y, x.transport.lines()[i // 2])
    (x, y) = ((s, c), (c, s))[at % 2]
    line = x.transport.lines()[at // 2]
    v = h.choice('variant', VARIANTS)
    p = line.split(' ')
    if v == 'version':
        p[1] = h.choice('as', ['PRIVCOUNT-99', 'PRIVCOUNT-1000', 'PRIVCOUNT', 'privcount-100'])
    elif v == 'no version':
        del p[1]
    elif v == 'role':
        p[2] = {'SERVER': 'CLIENT', 'CLIENT': 'SERVER'}[p[2]]
    elif v == 'type':
        p[3] = 'HMAC-SHA512'
    elif v == 'lower case':
        p[h.choice('part', [0, 1, 2, 3])] = p[0].lower()
    elif v == 'more':
        p.append(p[-1])
    elif v == 'less':
        p.pop()
    elif v == 'prefix':
        p[0] = p[0][:-1]
    elif v == 'suffix':
        p[0] = p[0] + 'X'
    elif v == 'other stage':
        p[0] = STAGES[(at + h.size('by', 1, 3)) % 4]
    before = (s.is_valid_connection, c.is_valid_connection)
    h.call(deliver, h, y, ' '.join(p))
    h.check(not y.is_valid_connection, 'an altered line convinces nobody')
    # nor does it help to go on as if nothing had happened
    for l in x.transport.lines():
        h.call(deliver, h, y, l)
    h.check(not y.is_valid_connection, 'an altered line ends the handshake')
    h.check(y.transport.disconnecting, 'the connection is closed')
    h.cover('refused')


@harness(group='d', cover=['accepted', 'of another size', 'of the server', 'of the client', 'hmac'],
         bounds='cookies and codes of 0 to 66 bytes on a connection whose other end knows the secret')
def sizes(h):
    'only cookies and codes of the defined size'
    quiet_world(h)
    what = h.choice('what', ['server', 'client', 'hmac'])
    n = h.size('bytes', 0, 66)
    raw = (hashlib.sha512('cookie').digest() * 2)[:n]
    good = n == 32
    key = secret('k1')
    if what == 'server':
        c = connect(P.PrivCountClientProtocol, Client(key))
        h.call(deliver, h, c, '%s %s SERVER %s %s' % (STAGES[0], VERSION, TYPE, b64encode(raw)))
        says = [l for l in c.transport.lines() if parts(l)[1] and parts(l)[1][0] != 'FAIL']
        h.check(bool(says) == good, 'a client answers to cookies of 32 bytes only', n)
        h.check(good or not c.is_valid_connection, 'nobody is convinced')
        h.cover('of the server')
    else:
        s = connect(P.PrivCountServerProtocol, Server(key))
        cookie = raw if what == 'client' else hashlib.sha256('own').digest()
        code = mac('k1', 2, s.server_cookie, cookie)
        if what == 'hmac':
            code = (code + raw)[:n]
        h.call(deliver, h, s, '%s %s CLIENT %s %s %s' % (STAGES[1], VERSION, TYPE, b64encode(cookie), b64encode(code)))
        says = [l for l in s.transport.lines() if l.startswith(STAGES[2]) and parts(l)[1][:1] != ['FAIL']]
        h.check(bool(says) == good, 'a server answers to cookies and codes of 32 bytes only', n)
        h.cover('of the client' if what == 'client' else 'hmac')
    h.cover('accepted' if good else 'of another size')
