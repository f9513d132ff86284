
OID_COMMON_NAME = 'CN'


class Name(object):
    def __init__(self, attrs):
        self.attrs = attrs


class NameAttribute(object):
    def __init__(self, oid, value):
        self.oid, self.value = oid, value


class BasicConstraints(object):
    def __init__(self, ca, path_length):
        pass


class CertificateBuilder(object):
    def __getattr__(self, name):
        return lambda *a, **kw: self
