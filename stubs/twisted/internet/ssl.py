
class ClientContextFactory(object):
    pass


class DefaultOpenSSLContextFactory(object):
    def __init__(self, *a, **kw):
        self.a = a
