'ideal symmetric authenticated encryption: a token is opaque, and only what was issued is accepted'
from base64 import urlsafe_b64encode

serial = [0]
issued = {}


class InvalidToken(Exception):
    pass


class Fernet(object):
    @classmethod
    def generate_key(cls):
        serial[0] += 1
        return urlsafe_b64encode(('key%029d' % serial[0]))

    def __init__(self, key, backend=None):
        if len(key) != 44:
            raise ValueError('Fernet key must be 32 url-safe base64-encoded bytes.')
        self.key = key

    def encrypt(self, data):
        serial[0] += 1
        token = 'FERNET|%d' % serial[0]
        issued[token] = (self.key, data)
        return token

    def decrypt(self, token, ttl=None):
        (key, data) = issued.get(token, (None, None))
        if key != self.key:
            raise InvalidToken()
        return data
