
'ideal public key encryption: only the matching private key opens a message'
serial = [0]
issued = {}
MAX_PLAINTEXT = 446


def generate_private_key(public_exponent, key_size, backend=None):
    serial[0] += 1
    return PrivateKey('gen%d' % serial[0])


class PublicKey(object):
    def __init__(self, ident):
        self.ident = ident

    def encrypt(self, plaintext, pad):
        if len(plaintext) > MAX_PLAINTEXT:
            raise ValueError('Data too large for key size')
        serial[0] += 1
        token = 'RSA|%d' % serial[0]
        issued[token] = (self.ident, pad.kind(), plaintext)
        return token

    def public_bytes(self, encoding=None, format=None):
        return 'PUBLIC-KEY %s' % self.ident


class PrivateKey(object):
    def __init__(self, ident):
        self.ident = ident

    def public_key(self):
        return PublicKey(self.ident)

    def decrypt(self, ciphertext, pad):
        (ident, kind, plaintext) = issued.get(ciphertext, (None, None, None))
        if ident != self.ident or kind != pad.kind():
            raise ValueError('Decryption failed.')
        return plaintext

    def private_bytes(self, encoding=None, format=None, encryption_algorithm=None):
        return 'PRIVATE-KEY %s' % self.ident
