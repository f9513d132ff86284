# -*- coding: utf-8 -*-
'C26 authentication on the control port'
import hashlib
import hmac
import os
from binascii import hexlify, unhexlify
from hx import harness
from nodes import scratch, write
from wire import Base, connect, deliver, quiet_world, relay
import privcount.protocol as P

SERVER = 'Tor safe cookie authentication server-to-controller hash'
CLIENT = 'Tor safe cookie authentication controller-to-server hash'
COOKIE = hashlib.sha256('the cookie').digest()
PASSWORD = 'correct horse battery staple'


def mac(key, cookie, cn, sn):
    return hmac.new(key, cookie + cn + sn, hashlib.sha256).digest()


class Factory(Base):
    'a collector, or the injector'
    password = None
    cookie = None

    def answer(self, name, a):
        return {'get_control_password': self.password, 'get_control_cookie_file': self.cookie, 'get_use_setconf': False,
                'get_fingerprint': None}.get(name, True)


def quoted(path):
    return '"%s"' % path.replace('\\', '\\\\').replace('"', '\\"')


COOKIES = ['right', 'none', 'missing', '0', '31', '33', '64', 'other']


def cookie_file(kind):
    if kind == 'none':
        return None
    if kind == 'missing':
        return os.path.join(scratch(), 'no such cookie')
    data = {'right': COOKIE, 'other': hashlib.sha256('another').digest()}.get(kind)
    if data is None:
        data = (COOKIE * 2)[:int(kind)]
    return write('cookie ' + kind, data)


PASSWORDS = [None, 'missing', 0, 7, 8, 9, 1023, 1024, 1025]


def password_file(n):
    if n is None:
        return None
    if n == 'missing':
        return os.path.join(scratch(), 'no such password')
    return write('password %d' % n, ('p" \\' * 300)[:n])


def client(h, password=None):
    stops = quiet_world(h)
    f = Factory()
    f.password = password
    p = connect(P.TorControlClientProtocol, f)
    h.check(p.transport.lines() == ['PROTOCOLINFO 1'], 'it asks how to authenticate')
    return stops, f, p


def learned(f):
    return [x for x in f.calls if x[0].startswith('set_') and x[0] != 'set_tor_version' or x[0] == 'handle_event']


METHODS = ['', 'NULL', 'SAFECOOKIE', 'HASHEDPASSWORD', 'COOKIE', 'COOKIE,SAFECOOKIE', 'COOKIE,SAFECOOKIE,HASHEDPASSWORD',
           'HASHEDPASSWORD,SAFECOOKIE', 'NULL,HASHEDPASSWORD', 'NULL,SAFECOOKIE', 'COOKIE,NULL']


@harness(group='a', cover=['cookie', 'password', 'null', 'nothing'], bounds='eleven lists of methods; six cookie files; nine password files')
def methods(h):
    ms = h.choice('methods', METHODS)
    ck = h.choice('cookie', ['right', 'none', 'missing', '31'])
    pw = h.choice('password', PASSWORDS)
    (path, pwpath) = (cookie_file(ck), password_file(pw))
    (stops, f, p) = client(h, pwpath)
    deliver(h, p, '250-PROTOCOLINFO 1')
    deliver(h, p, '250-AUTH METHODS=' + ms + (' COOKIEFILE=' + quoted(path) if path else h.choice('no cookie', ['', ' COOKIEFILE=""'])))
    deliver(h, p, '250-VERSION Tor="0.2.8.9"')
    h.check(('set_tor_version', '0.2.8.9') in f.calls, 'the version of Tor')
    del p.transport.sent[:]
    (_, e) = h.call(deliver, h, p, '250 OK')
    sent = p.transport.lines()
    usable = pw in (8, 9, 1023, 1024)
    has = ms.split(',')
    if 'SAFECOOKIE' in has and path:
        h.check(len(sent) == 1 and sent[0].startswith('AUTHCHALLENGE SAFECOOKIE ') and len(unhexlify(sent[0].split(' ')[2])) == 32,
                'a cookie is preferred, with a challenge')
        h.check(unhexlify(sent[0].split(' ')[2]) != COOKIE, 'the cookie itself is not sent')
        h.cover('cookie')
    elif 'HASHEDPASSWORD' in has and usable:
        h.check(len(sent) == 1 and sent[0].startswith('AUTHENTICATE '), 'then the password')
        text = open(pwpath).read()
        for l in sent:
            h.check(P.TorControlProtocol.decodeControllerString(l.split(' ', 1)[1]) == text, 'the password as it is in the file')
        h.cover('password')
    elif 'NULL' in has:
        h.check(sent == ['AUTHENTICATE'], 'no authentication if it is offered, and there is nothing better')
        h.cover('null')
    else:
        h.check(not sent, 'nothing to authenticate with')
        h.check(p.state not in ('authenticating', 'discovering', 'waiting', 'processing'), 'and nothing happens')
        h.cover('nothing')
    if sent:
        h.check(e is None, 'no exception')
    h.check(not learned(f), 'nothing is believed before')


HASHES = ['right', 'client key', 'other cookie', 'swapped nonces', 'other client nonce', 'short', 'long', 'zero', 'odd', 'none']
NONCES = ['right', 'short', 'long', 'none', 'odd']


@harness(group='a', cover=['proved', 'refused', 'too late'], bounds='ten hashes and five nonces for each of eight cookie files')
def challenge(h):
    ck = h.choice('cookie', [x for x in COOKIES if x != 'none'])
    path = cookie_file(ck)
    (stops, f, p) = client(h)
    deliver(h, p, '250-AUTH METHODS=COOKIE,SAFECOOKIE COOKIEFILE=' + quoted(path))
    deliver(h, p, '250 OK')
    cn = unhexlify(p.transport.lines()[-1].split(' ')[2])
    del p.transport.sent[:]
    nk = h.choice('nonce', NONCES)
    sn = hashlib.sha256('server nonce').digest()
    (nonce, what) = (sn, h.choice('hash', HASHES))
    theirs = COOKIE if ck in ('right', 'missing', 'other') else open(path).read()
    if nk != 'right':
        nonce = {'short': sn[:31], 'long': sn + 'x', 'none': '', 'odd': sn}[nk]
    right = mac(SERVER, theirs, cn, nonce)
    code = {'right': right, 'client key': mac(CLIENT, theirs, cn, nonce), 'other cookie': mac(SERVER, 'x' * 32, cn, nonce),
            'swapped nonces': mac(SERVER, theirs, nonce, cn), 'other client nonce': mac(SERVER, theirs, 'x' * 32, nonce),
            'short': right[:31], 'long': right + 'x', 'zero': '\0' * 32, 'odd': right, 'none': ''}[what]
    (a, b) = (hexlify(code), hexlify(nonce))
    if what == 'odd':
        a = a[:-1] + 'g'
    if nk == 'odd':
        b = b[:-1] + 'g'
    (_, e) = h.call(deliver, h, p, '250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (a, b))
    sent = [l for l in p.transport.lines() if l.startswith('AUTHENTICATE')]
    good = ck == 'right' and what == 'right' and nk == 'right'
    if good:
        h.check(e is None and sent == ['AUTHENTICATE ' + hexlify(mac(CLIENT, COOKIE, cn, sn))], 'a server that proves that it knows the cookie')
        h.cover('proved')
    else:
        h.check(not sent, 'nothing is proved to a server that does not know the cookie', '%s %s %s' % (ck, what, nk))
        h.cover('refused')
    # whatever follows, only an authenticated server is believed
    for l in h.choice('then', [['250 OK'], ['250-fingerprint=' + 'A' * 40, '250 OK'], ['650 PRIVCOUNT_STREAM_ENDED x', '250 OK']]):
        h.call(deliver, h, p, l)
        if not good:
            h.check(not learned(f), 'nothing is believed')
            h.check(p.state not in ('discovering', 'waiting', 'processing'), 'nothing goes on')
            h.check(not [x for x in p.transport.lines() if x.startswith(('GET', 'AUTHENTICATE'))], 'nothing is asked')
            h.cover('too late')
    if good:
        h.check(p.state == 'discovering' or p.transport.disconnecting, 'the server accepts')
    h.check(not learned(f), 'nothing was said yet')


LINES = ['250 OK', '250-AUTH METHODS=NULL', '250-AUTH METHODS=SAFECOOKIE COOKIEFILE=', 'challenge', 'wrong challenge', '250-fingerprint=' + 'A' * 40,
         '250 Nickname=x', '650 PRIVCOUNT_STREAM_ENDED x', '250+ns/id/x', 's Exit', '552 Unrecognized option', '250 EnablePrivCount=0']


@harness(group='b', cover=['authenticated', 'never'], bounds='four (thorough: five) lines of twelve kinds, in any order')
def order(h):
    path = cookie_file('right')
    (stops, f, p) = client(h)
    accepted = False
    for i in range(4 if h.tier == 'quick' else 5):
        if p.transport.disconnecting or accepted:
            break
        l = h.choice('line', LINES)
        if l.endswith('COOKIEFILE='):
            l += quoted(path)
        if l.endswith('challenge'):
            sn = hashlib.sha256('server nonce %d' % i).digest()
            code = mac(SERVER if l == 'challenge' else CLIENT, COOKIE, p.client_nonce or '', sn)
            l = '250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (hexlify(code), hexlify(sn))
        before = len([x for x in p.transport.lines() if x.startswith('AUTHENTICATE')])
        n = len(p.transport.lines())
        (_, e) = h.call(deliver, h, p, l)
        if e is not None:
            # the network closes a connection that raises
            p.transport.loseConnection()
            break
        if before and l == '250 OK':
            accepted = True
        h.check(len([x for x in p.transport.lines() if x.startswith('AUTHENTICATE')]) <= 1, 'a proof is given once, for one challenge')
        told = [x for x in learned(f)]
        if not accepted:
            h.check(not told, 'nothing is believed before the server accepted', str(told))
            h.check(p.state not in ('discovering', 'waiting', 'processing'), 'nothing goes on before the server accepted')
            for x in p.transport.lines()[n:]:
                h.check(x.startswith(('AUTH', 'QUIT', 'SETEVENTS', 'SET_TMODEL FALSE')), 'nothing is asked before', x)
    h.cover('authenticated' if accepted else 'never')


def server(h, password, cookie):
    stops = quiet_world(h)
    f = Factory()
    f.password = password
    f.cookie = cookie
    return stops, f, connect(P.TorControlServerProtocol, f)


SAY = ['PROTOCOLINFO 1', 'AUTHCHALLENGE SAFECOOKIE ', 'AUTHCHALLENGE SAFECOOKIE', 'AUTHCHALLENGE COOKIE ', 'AUTHCHALLENGE SAFECOOKIE xx',
       'hash', 'server hash', 'hash of an old nonce', 'hash without cookie', 'password', 'quoted password', 'wrong password', 'part of the password',
       'AUTHENTICATE', 'AUTHENTICATE ""', 'AUTHENTICATE x', 'GETINFO version', 'SETEVENTS PRIVCOUNT_STREAM_ENDED', '']


@harness(group='c', cover=['accepted', 'refused'], bounds='four (thorough: five) commands of nineteen kinds to the injector\'s control port; with a cookie file or '
         'not, with a password file or not')
def injector(h):
    cookie = h.choice('cookie file', [None, os.path.join(scratch(), 'injector cookie'), os.path.join(scratch(), 'no such directory', 'cookie')])
    pw = h.choice('password', [None, PASSWORD])
    (stops, f, p) = server(h, write('injector password', pw) if pw else None, cookie)
    (cn, nonces) = ('client nonce', [])
    for i in range(4 if h.tier == 'quick' else 5):
        if p.transport.disconnecting:
            break
        l = what = h.choice('say', SAY)
        (ck, sn) = (p.cookie_string or '\0' * 32, p.server_nonce or '\0' * 32)
        right = False
        if what == 'AUTHCHALLENGE SAFECOOKIE ':
            l += hexlify(cn)
        elif what == 'hash':
            l = 'AUTHENTICATE ' + hexlify(mac(CLIENT, ck, cn, sn))
            right = p.cookie_string is not None and p.server_nonce is not None and p.client_nonce == cn
        elif what == 'server hash':
            l = 'AUTHENTICATE ' + hexlify(mac(SERVER, ck, cn, sn))
        elif what == 'hash of an old nonce':
            l = 'AUTHENTICATE ' + hexlify(mac(CLIENT, ck, cn, nonces[-2] if len(nonces) > 1 else 'x' * 32))
        elif what == 'hash without cookie':
            l = 'AUTHENTICATE ' + hexlify(mac(CLIENT, '', cn, sn))
        elif what == 'password':
            l = 'AUTHENTICATE ' + hexlify(PASSWORD)
            right = pw is not None
        elif what == 'quoted password':
            l = 'AUTHENTICATE ' + quoted(PASSWORD)
            right = pw is not None
        elif what == 'wrong password':
            l = 'AUTHENTICATE ' + hexlify(PASSWORD + 'x')
        elif what == 'part of the password':
            l = 'AUTHENTICATE ' + hexlify(PASSWORD[:8])
        if cookie is None and pw is None and l.startswith('AUTHENTICATE'):
            # nothing is configured: there is nothing to protect
            right = l not in ('AUTHENTICATE x',)
        n = len(p.transport.lines())
        h.quiet('commands do not raise exceptions', deliver, h, p, l)
        if what == 'AUTHCHALLENGE SAFECOOKIE ' and not p.transport.disconnecting and not p.authenticated:
            (x,) = p.transport.lines()[n:]
            args = x.split(' ')
            s = unhexlify(args[3].split('=')[1])
            h.check(len(s) == 32 and s not in nonces, 'a fresh nonce')
            h.check(args[2] == 'SERVERHASH=' + hexlify(mac(SERVER, ck, cn, s)), 'the server proves that it knows the cookie')
            nonces.append(s)
        for x in p.transport.lines():
            h.check(hexlify(ck) not in x and ck not in x, 'the cookie is not sent')
        if right:
            h.check(p.authenticated, 'who knows the cookie or the password is let in', what)
            h.cover('accepted')
            break
        h.check(not p.authenticated, 'nobody else is let in', what)
        h.check(not [x for x in f.calls if x[0] == 'start_injecting'], 'nothing is sent to anybody else')
        h.check(not [x for x in p.transport.lines() if x.startswith('250-version')], 'nothing is told to anybody else')
        h.cover('refused')


@harness(group='d', cover=['agree', 'disagree'], bounds='a collector and the injector: with the same or different passwords, or the injector\'s cookie')
def together(h):
    how = h.choice('how', ['cookie', 'password', 'both', 'neither', 'wrong password'])
    cookie = os.path.join(scratch(), 'injector cookie') if how in ('cookie', 'both') else None
    pw = write('injector password', PASSWORD) if how in ('password', 'both', 'wrong password') else None
    (stops, f, s) = server(h, pw, cookie)
    g = Factory()
    g.password = write('other password', PASSWORD + '!') if how == 'wrong password' else pw
    c = connect(P.TorControlClientProtocol, g)
    h.quiet('no exceptions', relay, h, s, c, 16)
    if how == 'wrong password':
        h.check(not s.authenticated and c.state != 'discovering', 'a wrong password')
        h.cover('disagree')
    else:
        h.check(s.authenticated and c.state not in ('protocolinfo', 'authchallenge', 'authenticating'), 'they agree')
        h.cover('agree')
