
class Deferred(object):
    def __init__(self):
        self.errbacks = []
        self.callbacks = []
        self.cancelled = False

    def addErrback(self, f, *a, **kw):
        self.errbacks.append((f, a, kw))
        return self

    def addCallback(self, f, *a, **kw):
        self.callbacks.append((f, a, kw))
        return self

    def addBoth(self, f, *a, **kw):
        return self.addCallback(f, *a, **kw).addErrback(f, *a, **kw)

    def cancel(self):
        self.cancelled = True
