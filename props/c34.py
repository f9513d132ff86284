# -*- coding: utf-8 -*-
'C34 sealed messages, message authentication and encoded lengths'
import hashlib
import hmac
import json
from base64 import b64encode, b64decode
from hx import harness
from nodes import reset, public
from common import plain_logs
import privcount.crypto as K

KINDS = ['numbers', 'nested', 'texts', 'bins']


def message(h, kind):
    n = h.choice('sign', [1, -1]) * h.int('n', 0, 2 ** 80)
    if kind == 'numbers':
        return [n, h.int('m', 0, 9), 0.5, None, True]
    if kind == 'nested':
        return {'a': {'b': [[n, [n]], {}], 'c': []}, 'd': n}
    if kind == 'texts':
        return {'text': h.choice('text', ['', 'a b', 'quote " and \\', u'\u00e9\u2603', '{"x":1}', 'x' * 3000]), 'n': n}
    return {'ExitStreamCount': {'bins': [[0.0, 1.0, n], [1.0, float('inf'), n]]}}


@harness(cover=KINDS + ['opened', 'refused'], bounds='messages of four shapes with any numbers of up to 80 bits; the key of '
         'somebody else; each part of a message cut, changed or taken from another message')
def sealed(h):
    plain_logs(h)
    kind = h.choice('kind', KINDS)
    m = message(h, kind)
    (pub, priv) = (K.load_public_key_string(public('a')), K.load_private_key_string('PRIVATE-KEY a'))
    sealed = h.quiet('encrypt', K.encrypt, pub, m)
    other = h.quiet('encrypt', K.encrypt, pub, ['other', 2 ** 70])
    h.check(sorted(sealed) == ['pk_encrypted_secret_key', 'sym_encrypted_data'], 'two ciphertexts')
    text = json.dumps(sealed)
    secret = K.encode_data(m)
    for clear in (text, b64decode(sealed['pk_encrypted_secret_key']), sealed['sym_encrypted_data']):
        h.check(secret not in clear and b64decode(secret) not in clear and '\x02' not in clear, 'nothing is in the clear')
    for x in ('pk_encrypted_secret_key', 'sym_encrypted_data'):
        h.check(sealed[x] != other[x], 'every message has a key of its own')
    # it passes through JSON on its way
    got = h.quiet('decrypt', K.decrypt, priv, json.loads(text))
    h.check(agree(h, m, got), 'what was sealed is what is opened', kind)
    h.cover('opened')
    h.cover(kind)
    how = h.choice('how', ['other key', 'cut', 'changed', 'swapped'])
    part = h.choice('part', ['pk_encrypted_secret_key', 'sym_encrypted_data'])
    if how == 'other key':
        priv = K.load_private_key_string('PRIVATE-KEY b')
    elif how == 'cut':
        sealed[part] = sealed[part][:h.choice('cut', [0, 1, len(sealed[part]) // 2, -4])]
    elif how == 'changed':
        i = h.choice('where', [0, len(sealed[part]) // 2, len(sealed[part]) - 3])
        sealed[part] = sealed[part][:i] + ('A' if sealed[part][i] != 'A' else 'B') + sealed[part][i + 1:]
    else:
        sealed[part] = other[part]
    (got, e) = h.call(K.decrypt, priv, sealed)
    h.check(e is not None, 'a message is opened only whole and with the right key', how + ' ' + part)
    h.cover('refused')


def agree(h, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and h.And([agree(h, a[k], b[k]) for k in a] or [True])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and h.And([agree(h, x, y) for (x, y) in zip(a, b)] or [True])
    if isinstance(a, str):
        return isinstance(b, unicode) and a.decode('utf-8') == b
    return a == b


@harness(group='b', cover=['length'], bounds='any number of bytes up to 2^40; messages of up to 200 bytes')
def lengths(h):
    n = h.int('n', 0, 2 ** 40)
    raw = h.quiet('raw length', K.b64_raw_length, n)
    padded = h.quiet('padded length', K.b64_padded_length, n)
    h.check(h.And(6 * raw >= 8 * n, 6 * raw < 8 * n + 6), 'the characters that are needed')
    h.check(h.And(padded % 4 == 0, padded >= raw, padded < raw + 4), 'padded to groups of four')
    k = h.size('k', 0, 40 if h.tier == 'quick' else 200)
    h.check(K.b64_padded_length(k) == len(b64encode('x' * k)), 'as the encoding does')
    h.cover('length')


def expected(key, prefix, data):
    return hmac.new(key, prefix + data, hashlib.sha256).digest()


@harness(group='b', cover=['short', 'right', 'wrong'], bounds='keys of 0 to 40 bytes, and all pairs of keys, prefixes and data from a set in which '
         'each differs from the others in one place')
def authenticated(h):
    plain_logs(h)
    size = h.choice('size', [0, 1, 31, 32, 33, 40])
    (key, prefix, data) = ('k' * size, h.choice('prefix', ['p', 'pr', '']), h.choice('data', ['rd', 'd', 'x' * 100]))
    (got, e) = h.call(K.get_hmac, key, prefix, data)
    h.check((e is None) == (size >= 32), 'no short keys')
    if e is not None:
        (ok, e) = h.call(K.verify_hmac, expected(key, prefix, data), key, prefix, data)
        h.check(e is not None or not ok, 'nothing is verified with a short key')
        h.cover('short')
        return
    want = expected(key, prefix, data)
    h.check(got == want, 'HMAC-SHA256 of the prefix and the data')
    change = h.choice('change', ['nothing', 'key', 'prefix', 'data', 'cut', 'bit', 'empty', 'longer'])
    args = [want, key, prefix, data]
    if change == 'key':
        args[1] = key[:-1] + 'K'
    elif change == 'prefix':
        args[2] = prefix + 'x'
    elif change == 'data':
        args[3] = data[:-1] + 'X'
    elif change == 'cut':
        args[0] = want[:-1]
    elif change == 'longer':
        args[0] = want + 'x'
    elif change == 'empty':
        args[0] = ''
    elif change == 'bit':
        i = h.choice('byte', [0, 15, 31])
        args[0] = want[:i] + chr(ord(want[i]) ^ 1) + want[i + 1:]
    ok = h.quiet('verify', K.verify_hmac, *args)
    h.check(ok == (change == 'nothing'), 'only the HMAC of the same key, prefix and data is accepted', change)
    h.cover('right' if ok else 'wrong')


@harness(group='c', cover=['digest'], bounds='two keys, from files and strings, private and public')
def names_of_keys(h):
    plain_logs(h)
    from nodes import write, digest
    reset()
    a = h.choice('a', ['x', 'y'])
    b = h.choice('b', ['x', 'y'])
    private = h.flag('private')
    text = ('PRIVATE-KEY ' if private else 'PUBLIC-KEY ') + a + '\n'
    (d, e) = (K.get_public_digest_string(text, private), K.get_public_digest(write('key-' + a, text), private))
    h.check(d == e == hashlib.sha256(K.get_serialized_public_key(write('key-' + a, text), private)).hexdigest(), 'the digest of the public key')
    h.check((d == digest(b)) == (a == b), 'a private key and its public key have one name, other keys another')
    h.cover('digest')
