# -*- coding: utf-8 -*-
'C40 the injector replays a log of events'
from hx import harness
from wire import Base, Transport, connect, deliver, quiet_world, relay
import privcount.inject as I
import privcount.protocol as P
from privcount.counter import get_valid_events
from twisted.internet import reactor

AFTER = 2000000000


class Log(object):
    'the file of events; how often each was opened and closed'
    def __init__(self, h, lines):
        self.lines = lines
        self.opened = self.closed = 0
        I.open = open
        h.patch(I, 'open', self.open)

    def open(self, *a):
        self.opened += 1
        self.i = 0
        return self

    def readline(self):
        self.i += 1
        return self.lines[self.i - 1] + '\n' if self.i <= len(self.lines) else ''

    def close(self):
        self.closed += 1


class Listener(object):
    stopped = 0

    def stopListening(self):
        self.stopped += 1


def fields(kind, start, end, i):
    'the text of an event of a log'
    if kind == 'bytes':
        return 'PRIVCOUNT_STREAM_BYTES_TRANSFERRED 1 2 %d 1 5 %s' % (i, end)
    if kind == 'stream':
        return 'PRIVCOUNT_STREAM_ENDED 1 2 %d 80 5 6 %s %s host%d 1.2.3.4 -' % (i, start, end, i)
    if kind == 'circuit':
        return 'PRIVCOUNT_CIRCUIT_ENDED 1 2 %d 4 5 6 %s %s 1.2.3.4 - 1.2.3.5 -' % (i, start, end)
    if kind == 'connection':
        return 'PRIVCOUNT_CONNECTION_ENDED %d %s %s 1.2.3.4 -' % (i, start, end)
    if kind == 'close':
        return 'PRIVCOUNT_CIRCUIT_CLOSE ChannelId=%d Empty= EventTimestamp=%s CreatedTimestamp=%s StateString=open' % (i, end, start)
    if kind == 'cell':
        return 'PRIVCOUNT_CIRCUIT_CELL EventTimestamp=%s CacheCreatedTime=33 ChannelId=%d' % (end, i)
    # lines that are no events
    return {'blank': '   ', 'short': 'PRIVCOUNT_STREAM_ENDED %d %s' % (i, end), 'twice': 'PRIVCOUNT_CIRCUIT_CELL A=%d A=1 EventTimestamp=%s' % (i, end),
            'NaN': 'PRIVCOUNT_CONNECTION_ENDED %d soon %s 1.2.3.4 -' % (i, end), 'later': 'PRIVCOUNT_CIRCUIT_CELL A=%d EventTimestamp=later' % i,
            'untimed': 'PRIVCOUNT_CIRCUIT_CELL A=%d' % i, 'other': 'HELLO %d' % i}[kind]


TWO = ('stream', 'circuit', 'connection', 'close')
EVENTS = ('bytes', 'cell') + TWO
OTHERS = ('blank', 'short', 'twice', 'untimed', 'other', 'NaN', 'later')
AT = {'bytes': (None, 6), 'stream': (7, 8), 'circuit': (7, 8), 'connection': (2, 3)}


def injector(h, lines, pause=False, before=0.0, after=float(2 ** 62)):
    log = Log(h, lines)
    f = I.PrivCountDataInjector('/nonexistent', pause, before, after)
    listener = Listener()
    f.set_listeners([listener])
    h.patch(I, 'time', lambda: h.now)
    p = f.buildProtocol(None)
    t = Transport()
    t.connected = True
    p.makeConnection(t)
    return f, p, log, listener


def tick(h, n=None):
    'the reactor runs its next call; returns how long it waited, or None'
    todo = [c for (k, c) in [x[:2] for x in reactor.calls] if k in ('deferLater', 'callLater') and not c.cancelled and not getattr(c, 'done', False)]
    if not todo:
        return None
    c = todo[0]
    for x in todo[1:]:
        if x.delay < c.delay:
            c = x
    c.done = True
    c.f(*c.a, **c.kw)
    return c.delay


def said(p):
    return [l[4:] for l in p.transport.lines() if l.startswith('650 ')]


def expect(h, sent, kind, text, start, end, now):
    'an event is sent as it is but for its times'
    a, b = sent.split(), text.split()
    h.check(len(a) == len(b), 'all of its fields are sent')
    if '=' in text:
        fa, fb = dict(x.split('=') for x in a[1:]), dict(x.split('=') for x in b[1:])
        h.check(a[0] == b[0] and set(fa) == set(fb), 'the same event with the same fields')
        times = ('CreatedTimestamp', 'EventTimestamp')
    else:
        fa, fb = dict(enumerate(a)), dict(enumerate(b))
        times = AT[kind]
    for k in fb:
        if k not in times:
            h.check(fa[k] == fb[k], 'fields other than its times are sent as they are')
    h.check(h.value_of(fa[times[1]]) == now, 'it ends now')
    if kind in TWO:
        h.check(h.near(h.value_of(fa[times[0]]), now - (end - start)), 'it lasts as long as it did')


def drawn(h, i, kinds):
    kind = h.choice('kind %d' % i, kinds)
    start, end = h.real('start %d' % i, 0, AFTER), h.real('end %d' % i, 1, AFTER)
    return kind, fields(kind, h.text(start), h.text(end), i), start, end


@harness(group='a', cover=['sent', 'pruned', 'paused', 'none sent'],
         bounds='logs of two events of any kinds and a line that is none before, between or after them; any times and window; with and without pauses')
def replay(h):
    stops = quiet_world(h)
    events = [drawn(h, i, EVENTS if i == 0 else ('stream', 'cell')) for i in range(2)]
    noise = h.choice('noise', (None,) + OTHERS)
    at = h.choice('at', (0, 1, 2)) if noise is not None else 0
    lines = [e[1] for e in events]
    odd = None
    if noise is not None:
        odd = fields(noise, None, h.text(h.real('noise time', 0, AFTER)), 9)
        lines.insert(at, odd)
    pause = h.flag('pause')
    before, after = h.real('before', 0, AFTER), h.real('after', 0, AFTER)
    (f, p, log, listener) = injector(h, lines, pause, before, after)
    h.now = h.real('now', 0, AFTER)
    f.start_injecting()
    h.check(listener.stopped == 1, 'others may not connect')
    h.check(not said(p), 'nothing is sent at once')
    waits, n = [], 0
    while len(waits) < 8:
        k = len(said(p))
        w = tick(h)
        if w is None:
            break
        waits.append(w)
    h.check(w is None and len(waits) <= 4, 'it ends')
    inside = [e for e in events if before <= e[3] and e[3] <= after]
    got = [s for s in said(p)]
    rest = [s for s in got if odd is None or s.split() != odd.split()]
    h.check(len(got) - len(rest) <= 1, 'a line that is no event is sent at most once, as it is')
    h.check(len(rest) == len(inside), 'the events of the window are sent, once, and no others')
    for (s, e) in zip(rest, inside):
        expect(h, s, e[0], e[1], e[2], e[3], h.now)
        h.cover('sent')
    if len(inside) < 2:
        h.cover('pruned')
    if not inside:
        h.cover('none sent')
    h.check(len(waits) == len(got) + 1, 'one wait for each of them, and one for the end')
    if pause and noise in (None, 'blank'):
        # the line before the first event that is sent, if it was not of the window, counts for the pauses too
        if len(inside) == 2:
            gap = events[1][3] - events[0][3]
            h.check(waits[1] == h.Max(gap, 0), 'the wait between two events')
            h.cover('paused')
        if inside and inside[0] is events[0]:
            h.check(waits[0] == 0, 'nothing to wait for before the first event')
    if not pause:
        for w in waits[:-1]:
            h.check(w == 0, 'no waits unless asked')
    h.check(log.opened == 1 and log.closed == 1, 'the log is read once')
    h.check(p.transport.disconnecting and len(stops) == 1, 'the connection is closed and the injector stops')
    h.check(p.transport.lost == 1, 'closed once')


COMMANDS = {'events': 'SETEVENTS PRIVCOUNT_STREAM_ENDED privcount_circuit_cell', 'unknown': 'SETEVENTS PRIVCOUNT_STREAM_ENDED PRIVCOUNT_X BW',
            'none': 'SETEVENTS', 'quit': 'QUIT', 'info': 'GETINFO version', 'blank': ''}


@harness(group='b', cover=['sent all', 'stopped early', 'never began', 'listening'],
         bounds='a log of two events; four (thorough: five) of: a request of a client (events, unknown events, no events, others), loss of the connection, the next call of the reactor')
def requests(h):
    stops = quiet_world(h)
    ends = [h.real('end %d' % i, 1, AFTER) for i in range(2)]
    (f, p, log, listener) = injector(h, [fields('stream', h.text(h.real('start %d' % i, 0, AFTER)), h.text(ends[i]), i) for i in range(2)], h.flag('pause'))
    h.now = h.real('now', 0, AFTER)
    deliver(h, p, 'AUTHENTICATE')
    h.check(p.transport.lines() == ['250 OK'], 'without cookie and password, anybody may connect')
    begun = stopped = False
    for i in range(5 if h.tier == 'thorough' else 4):
        what = h.choice('step %d' % i, ['tick'] + (['lost'] if p.transport.connected else []) +
                        ([] if p.transport.disconnecting or not p.transport.connected else [x for x in sorted(COMMANDS) if x != 'events' or not begun]))
        n, k = len(said(p)), len(p.transport.lines())
        answer = None
        if what == 'tick':
            tick(h)
            h.check(len(said(p)) <= n + (1 if begun and not stopped else 0), 'at most one event a call, and none when nobody asked')
        elif what == 'lost':
            p.transport.connected = False
            h.quiet('no exceptions', p.connectionLost, Reason())
            stopped = begun
        else:
            h.quiet('no exceptions', deliver, h, p, COMMANDS[what])
            lines = p.transport.lines()[k:]
            answer = {'events': '250 OK', 'unknown': '552', 'none': '250 OK', 'quit': '250', 'info': '250', 'blank': '510'}[what]
            h.check(lines and lines[-1].startswith(answer) or (what == 'quit' and not lines), 'an answer')
            h.check(what != 'unknown' or lines == ['552 Unrecognized event "BW"'], 'the event that is not known')
            h.check(len(said(p)) == n, 'events are sent later')
            if what == 'events':
                begun = True
            elif what in ('unknown', 'none', 'quit'):
                stopped = begun
            if what == 'quit':
                h.check(p.transport.disconnecting, 'the connection is closed')
        if not begun:
            h.check(not said(p) and not log.opened and not listener.stopped and not stops, 'it waits until events are asked for')
    while tick(h) is not None:
        pass
    if not begun:
        h.check(not said(p) and not stops, 'nothing is sent unless asked')
        h.cover('never began')
        h.cover('listening')
        return
    h.check(log.opened == 1 and log.closed == 1 and listener.stopped == 1, 'the log is read once')
    h.check(len(stops) == 1, 'it ends once')
    h.check(p.transport.disconnecting or not p.transport.connected, 'and closes the connection')
    got = said(p)
    h.check(len(got) == 2 or (stopped and len(got) < 2), 'all is sent unless stopped')
    for (i, s) in enumerate(got):
        h.check('host%d' % i in s.split() and s.split()[3] == str(i), 'in the order of the log')
    h.cover('sent all' if len(got) == 2 else 'stopped early')


class Reason(object):
    def getErrorMessage(self):
        return 'lost'


class Collector(Base):
    password = cookie = None

    def answer(self, name, a):
        return {'get_control_password': None, 'get_control_cookie_file': None, 'get_use_setconf': True,
                'get_flag_list': ['Exit', 'Fast'], 'get_max_cell_events_per_circuit': 10, 'get_circuit_sample_rate': 1.0}.get(name, True)


@harness(group='b', cover=['collected'], bounds='a collector at the injector, a log of two events of any kinds and times')
def collected(h):
    stops = quiet_world(h)
    events = [drawn(h, i, EVENTS) for i in range(2)]
    (f, s, log, listener) = injector(h, [e[1] for e in events])
    h.now = h.real('now', 0, AFTER)
    g = Collector()
    c = connect(P.TorControlClientProtocol, g)
    h.quiet('no exceptions', relay, h, s, c, 100)
    h.check(s.authenticated and not s.transport.disconnecting and not c.transport.disconnecting, 'they are connected')
    h.check(not log.opened, 'nothing is read yet')
    n = (len(s.transport.lines()), len(c.transport.lines()))
    asked = h.choice('asked', [['PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CIRCUIT_CELL'], sorted(get_valid_events())])
    wanted = [e for e in events if e[1].split()[0] in asked]
    h.quiet('no exceptions', c.startCollection, None, asked)
    for i in range(8):
        for (j, (x, y)) in enumerate(((s, c), (c, s))):
            for l in x.transport.lines()[n[j]:]:
                h.quiet('no exceptions', deliver, h, y, l)
            n = (len(x.transport.lines()), n[1]) if j == 0 else (n[0], len(x.transport.lines()))
        tick(h)
    h.check(len(said(s)) == 2, 'all is sent')
    got = [x[1] for x in g.calls if x[0] == 'handle_event']
    h.check(len(got) == len(wanted), 'all that was asked for is collected')
    for (x, e) in zip(got, wanted):
        expect(h, ' '.join(x), e[0], e[1], e[2], e[3], h.now)
        h.cover('collected')
    h.check(len(stops) == 1, 'the injector ends')
