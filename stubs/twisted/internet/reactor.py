
'the event loop: records what it is asked to do'
calls = []
stopped = [0]


def reset():
    del calls[:]
    stopped[0] = 0


class Call(object):
    def __init__(self, delay, f, a, kw):
        self.delay, self.f, self.a, self.kw = delay, f, a, kw
        self.cancelled = False

    def cancel(self):
        self.cancelled = True

    def active(self):
        return not self.cancelled


class Connector(object):
    def __init__(self, kind, a, kw):
        self.kind, self.a, self.kw = kind, a, kw
        self.disconnected = 0
        self.stopped = 0

    def disconnect(self):
        self.disconnected += 1

    def stopConnecting(self):
        self.stopped += 1

    def stopListening(self):
        self.stopped += 1

    def connect(self):
        calls.append(('connect', self))

    def getDestination(self):
        return self.a

    def getHost(self):
        return self.a


fail = [None]


def _rec(kind):
    def f(*a, **kw):
        if fail[0] is not None:
            fail[0](kind, a, kw)
        c = Connector(kind, a, kw)
        calls.append((kind, a, kw, c))
        return c
    f.__name__ = kind
    return f


connectTCP = _rec('connectTCP')
connectSSL = _rec('connectSSL')
connectUNIX = _rec('connectUNIX')
listenTCP = _rec('listenTCP')
listenSSL = _rec('listenSSL')
listenUNIX = _rec('listenUNIX')


def callLater(delay, f, *a, **kw):
    c = Call(delay, f, a, kw)
    calls.append(('callLater', c))
    return c


def run(*a, **kw):
    calls.append(('run',))


def stop():
    stopped[0] += 1
    calls.append(('stop',))


def addSystemEventTrigger(*a, **kw):
    calls.append(('trigger', a, kw))
