# -*- coding: utf-8 -*-
'C24 lines that are too long end the connection'
from hx import harness
from wire import Client, Server, Transport, connect, deliver, quiet_world, secret, CRLF
import privcount.protocol as P

SHORT, LONG = 200, 200 * 1024 * 1024


class Line(str):
    'a line of any length; what it begins with is known'
    def sx_len(self):
        return self.length

    def __len__(self):
        return self.length


def line(text, length):
    l = Line(text)
    l.length = length
    return l


def ends(h):
    'a server or a client, before or after the handshake, with the events it handled'
    stops = quiet_world(h)
    kind = h.choice('end', ['server', 'client'])
    f = (Server if kind == 'server' else Client)(secret('k1'))
    p = connect(P.PrivCountServerProtocol if kind == 'server' else P.PrivCountClientProtocol, f)
    valid = h.flag('valid')
    if valid:
        p.client_cookie = p.server_cookie = 'x' * 32
        p.handshake_succeeded()
    h.check(p.MAX_LENGTH == (LONG if valid else SHORT), 'the longest line before and after the handshake')
    del f.calls[:]
    del p.transport.sent[:]
    warned = []
    h.on_log = lambda level, msg, a: warned.append(msg) if level == 'warning' else None
    return stops, f, p, valid, warned


@harness(cover=['accepted', 'refused'], bounds='a line of any length up to 2^40 that begins like a message, received by a server or client '
         'before or after the handshake, complete or cut off')
def received(h):
    (stops, f, p, valid, warned) = ends(h)
    n = h.int('length', 0, 2 ** 40)
    text = h.choice('text', ['STATUS 1.0 {"name":"x"}', 'HANDSHAKE4-CLIENT-VERIFY PRIVCOUNT-100 CLIENT HMAC-SHA256 SUCCESS', 'GET / HTTP/1.0', ''])
    cut = h.flag('cut off')
    limit = LONG if valid else SHORT
    l = line(text, n)
    if cut:
        h.call(p.lineLengthExceeded, l)
    else:
        h.call(p.lineReceived, l)
    long = cut or n > limit
    if long:
        h.check(p.transport.disconnecting, 'the connection is closed')
        h.check(not p.is_valid_connection, 'the connection is no longer valid')
        h.check(p.MAX_LENGTH == SHORT, 'the limit is low again')
        h.check(not [x for x in f.calls if x[0] not in ('resetDelay', 'get_secret_handshake_path')], 'the line is not acted upon', str(f.calls[:1]))
        h.check(not [s for s in p.transport.lines() if not s.startswith('HANDSHAKE')], 'nothing is answered')
        h.check(not stops, 'the other end cannot stop the process with a long line')
        h.cover('refused')
    else:
        h.check(p.is_valid_connection == (valid and (text.startswith('STATUS') or (text.startswith('HANDSHAKE4') and f.__class__ is Server))), 'a line of a length that is allowed')
        h.cover('accepted')
    # nobody can fill the log before the handshake
    loud = bool([w for w in warned if ' line of length ' in w])
    if not valid:
        h.check(not loud, 'no warnings about lines of strangers')
    else:
        h.check(loud == (True if cut or n > limit / 2 else False), 'a warning about lines that are almost too long')


@harness(cover=['sent', 'refused'], bounds='a line of any length up to 2^40 sent by a server or client before or after the handshake')
def sent(h):
    (stops, f, p, valid, warned) = ends(h)
    n = h.int('length', 0, 2 ** 40)
    limit = LONG if valid else SHORT
    p.sendLine(line('STATUS', n))
    safe = limit / 2 if valid else limit * 4 / 5
    loud = bool([w for w in warned if ' line of length ' in w])
    h.check(loud == (True if n > safe else False), 'a warning about lines that are almost too long')
    if n > limit:
        h.check(p.transport.disconnecting and not p.is_valid_connection, 'the connection is closed')
        h.check(stops == [1], 'a line of ours that is too long stops the process')
        h.cover('refused')
    else:
        h.check(not p.transport.disconnecting and p.is_valid_connection == valid, 'the connection is kept')
        h.check(not stops, 'the process goes on')
        h.check(p.transport.lines() == ['STATUS'], 'the line is sent')
        h.cover('sent')


@harness(cover=['closed', 'kept'], bounds='data of 0 to 1200 bytes without and with line ends, in up to three deliveries, to a client or server, at any '
         'point before the handshake succeeds')
def strangers(h):
    stops = quiet_world(h)
    (sf, cf) = (Server(secret('k1')), Client(secret('k1')))
    (s, c) = (connect(P.PrivCountServerProtocol, sf), connect(P.PrivCountClientProtocol, cf))
    (p, f) = h.choice('end', [(s, sf), (c, cf)])
    for (x, y) in [(s, c), (c, s), (s, c)][:h.choice('stage', [0, 1, 2] if p is s else [0, 1])]:
        deliver(h, y, x.transport.lines()[-1])
    h.check(not p.is_valid_connection and not p.transport.disconnecting, 'the handshake goes on')
    n = 0
    for i in range(h.size('deliveries', 1, 3)):
        k = h.choice('bytes', [0, 1, 99, 100, 101, 199, 200, 201, 400])
        n += k
        if not p.transport.disconnecting:
            p.dataReceived('x' * k)
        h.check(len(p._buffer) <= 2 * SHORT + 400, 'little is kept of a stranger')
    h.check(p.transport.disconnecting == (n > SHORT), 'a line without end is cut off')
    if not p.transport.disconnecting:
        p.dataReceived(CRLF)
        h.check(p.transport.disconnecting, 'what is not a handshake ends the connection')
        h.cover('kept')
    else:
        h.cover('closed')
    h.check(not [x for x in f.calls if x[0] != 'get_secret_handshake_path'] and not stops, 'nothing else happens')


@harness(cover=['long enough', 'cleared'], bounds='all handshake lines of an honest session; all ways in which a connection ends')
def handshake_lines_fit(h):
    quiet_world(h)
    (sf, cf) = (Server(secret('k1')), Client(secret('k1')))
    (s, c) = (connect(P.PrivCountServerProtocol, sf), connect(P.PrivCountClientProtocol, cf))
    warned = []
    h.on_log = lambda level, msg, a: warned.append(msg) if level == 'warning' else None
    for (x, y, i) in ((s, c, 0), (c, s, 0), (s, c, 1), (c, s, 1)):
        deliver(h, y, x.transport.lines()[i])
    h.check(s.is_valid_connection and c.is_valid_connection, 'handshake lines fit')
    h.check(not [w for w in warned if ' line of length ' in w], 'and are not nearly too long')
    h.cover('long enough')
    p = h.choice('end', [s, c])
    how = h.choice('how', ['protocol_failed', 'protocol_succeeded', 'handshake_failed', 'connectionLost'])
    if how == 'connectionLost':
        class Reason(object):
            def getErrorMessage(self):
                return 'x'
        p.connectionLost(Reason())
    else:
        getattr(p, how)()
        h.check(p.transport.disconnecting, 'the connection is closed')
    h.check(not p.is_valid_connection and p.MAX_LENGTH == SHORT, 'a connection that ended is not valid')
    h.check(p.client_cookie is None and p.server_cookie is None, 'its cookies are forgotten')
    h.cover('cleared')
