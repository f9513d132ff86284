
from cryptography.hazmat.primitives.asymmetric import rsa


class Encoding(object):
    PEM = 'PEM'


class PublicFormat(object):
    SubjectPublicKeyInfo = 'SPKI'


class PrivateFormat(object):
    PKCS8 = 'PKCS8'


class NoEncryption(object):
    pass


def load_pem_private_key(data, password=None, backend=None):
    data = data.strip()
    if not data.startswith('PRIVATE-KEY '):
        raise ValueError('Could not unserialize key data.')
    return rsa.PrivateKey(data.split(' ', 1)[1])


def load_pem_public_key(data, backend=None):
    data = data.strip()
    if not data.startswith('PUBLIC-KEY '):
        raise ValueError('Could not unserialize key data.')
    return rsa.PublicKey(data.split(' ', 1)[1])
