# -*- coding: utf-8 -*-
'C27 strings and lines of the control port'
from binascii import hexlify, unhexlify
from hx import harness
from wire import Base, connect, deliver, quiet_world
import privcount.protocol as P

T = P.TorControlProtocol


def string(h, name, alphabet, most):
    return ''.join([h.choice(name, alphabet) for _ in range(h.size(name + ' length', 0, most))])


def unquote(s):
    'the definition in the control port specification'
    (out, i) = ('', 1)
    while i < len(s) - 1:
        if s[i] == '\\':
            i += 1
        out += s[i]
        i += 1
    return out


@harness(group='a', cover=['quoted', 'hex'], bounds='strings of up to five (thorough: six) characters: \\, ", a space, letters that are hex and not, a byte above 127')
def strings(h):
    how = h.flag('hex')
    s = string(h, 'c', ['\\', '"', ' ', 'a', 'x', '\xff'] if h.tier == 'thorough' or how else ['\\', '"', ' ', 'a'], 6 if h.tier == 'thorough' and not how else 4 if how else 5)
    (e, x) = h.call(T.encodeControllerString, s, hex_encode=how)
    h.check(x is None, 'every string can be sent', repr(s))
    if x is not None:
        return
    if how:
        h.check(e == hexlify(s), 'in hex')
        h.check(T.decodeControllerString(e.upper()) == s, 'upper case hex')
        h.cover('hex')
    else:
        h.check(e[:1] == e[-1:] == '"' and unquote(e) == s, 'quoted as the specification says', repr(s))
        inner = e[1:-1]
        h.check(all([inner[i] != '"' or inner[i - 1:i] == '\\' for i in range(len(inner))]), 'the quotes end at the end', repr(s))
        h.cover('quoted')
    h.check(T.decodeControllerString(e) == s, 'it is read as it was written', repr(s))
    h.check(T.decodeControllerString(' %s \r' % e) == s, 'with white space around it', repr(s))


@harness(group='a', cover=['right', 'wrong', 'malformed'], bounds='nonces and hashes of any number of bytes around each limit; limits of up to 40 bytes in any relation')
def lengths(h):
    kind = h.choice('kind', ['client nonce', 'server nonce', 'client hash', 'server hash', 'any'])
    (lo, hi) = (0, 1024) if kind == 'client nonce' else (32, 32)
    sizes = [0, 1, 31, 32, 33, 64, 1023, 1024, 1025]
    n = h.choice('bytes', sizes)
    if kind == 'any':
        (lo, hi) = (h.int('least', 0, 2000), h.int('most', 0, 2000))
        h.assume(lo <= hi)
    b = ('\x00\x80\xffa"\\' * 200)[:n]
    f = {'client nonce': T.decodeClientNonce, 'server nonce': T.decodeServerNonce, 'client hash': T.decodeClientHash,
         'server hash': T.decodeServerHash, 'any': lambda x: T.decodeNonce(x, lo, hi)}[kind]
    t = hexlify(b)
    broken = h.choice('broken', ['', 'odd', 'letter']) if n else ''
    if broken:
        (r, e) = h.call(f, t[:-1] if broken == 'odd' else t[:-1] + 'g')
        h.check(r is None and isinstance(e, TypeError), 'what is not hex is refused')
        h.cover('malformed')
        return
    r = h.quiet('lengths do not raise exceptions', f, t)
    if h.And(lo <= n, n <= hi):
        h.check(r == b, 'a value of the right length is read as it is')
        h.cover('right')
    else:
        h.check(r is None, 'a value of the wrong length is refused')
        h.cover('wrong')


class Factory(Base):
    def answer(self, name, a):
        return None if name.startswith('get_control') else True


@harness(group='b', cover=['short', 'long'], bounds='a line of 300 bytes and every limit from 0 to 10^9, for both ends; sent and received')
def lines(h):
    end = h.choice('end', [P.TorControlClientProtocol, P.TorControlServerProtocol])
    stops = quiet_world(h)
    p = connect(end, Factory())
    limit = h.int('limit', 0, 10 ** 9)
    p.MAX_LENGTH = limit
    n = 300
    del p.transport.sent[:]
    if h.flag('sent'):
        h.quiet('no exception', p.sendLine, 'x' * n)
        h.check(p.transport.sent == ['x' * n + '\r\n'], 'the line is sent as it is')
    elif h.flag('partial'):
        # twisted counts differently, and sometimes has only a part of the line
        p.state = 'waiting'
        h.call(p.lineLengthExceeded, 'x' * h.choice('part', [1, n]))
        h.check(stops == [1], 'a line that twisted finds too long stops the process')
        return
    else:
        p.state = 'waiting'
        h.call(p.lineReceived, '250 ' + 'x' * (n - 4))
    if limit < n:
        h.check(len(stops) >= 1 and set(stops) == set([1]), 'a line that is too long stops the process')
        h.cover('long')
    else:
        h.check(not stops, 'other lines do not')
        h.cover('short')


@harness(group='b', cover=['done'], bounds='')
def limits(h):
    quiet_world(h)
    p = connect(P.TorControlClientProtocol, Factory())
    h.check(p.MAX_LENGTH == 200 * 1024 * 1024, 'the documented limit')
    seen = []
    h.patch(p, 'lineReceived', lambda l: seen.append(len(l)))
    for n in (2 ** 14 - 1, 2 ** 14, 2 ** 14 + 1, 2 ** 18):
        p.dataReceived('650 ' + 'x' * (n - 4) + '\r\n')
    h.check(seen == [2 ** 14 - 1, 2 ** 14, 2 ** 14 + 1, 2 ** 18], 'long events arrive in one piece')
    # nonces
    (a, b) = (T.generateClientNonce(), T.generateServerNonce())
    h.check(len(a) == len(b) == 32 and a != b, 'nonces are fresh and of the right length')
    h.check(T.decodeClientNonce(T.encodeClientNonce(a)) == a and T.decodeServerNonce(T.encodeServerNonce(b)) == b, 'they arrive')
    h.cover('done')
