
from twisted.internet import reactor
from twisted.internet.defer import Deferred

loops = []


class LoopingCall(object):
    def __init__(self, f, *a, **kw):
        self.f, self.a, self.kw = f, a, kw
        self.running = False
        self.interval = None
        loops.append(self)

    def start(self, interval, now=True):
        assert not self.running
        if interval < 0:
            raise ValueError('interval must be >= 0')
        self.running = True
        self.interval = interval
        if now:
            self.f(*self.a, **self.kw)
        return Deferred()

    def stop(self):
        assert self.running
        self.running = False

    def fire(self):
        return self.f(*self.a, **self.kw)


def deferLater(clock, delay, f, *a, **kw):
    c = reactor.Call(delay, f, a, kw)
    reactor.calls.append(('deferLater', c))
    d = Deferred()
    d.call = c
    return d
