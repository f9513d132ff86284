
'HMAC-SHA256; a harness can replace the function (hook) by an abstract one'
from __future__ import absolute_import
import hashlib
import hmac as _hmac
from cryptography.exceptions import InvalidSignature

hook = [None]


class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        self.key = key
        self.data = []

    def update(self, data):
        self.data.append(data)

    def _value(self):
        d = b''.join(self.data)
        if hook[0] is not None:
            return hook[0](self.key, d)
        return _hmac.new(self.key, d, hashlib.sha256).digest()

    def finalize(self):
        return self._value()

    def verify(self, expected):
        if not (self._value() == expected):
            raise InvalidSignature()
