# -*- coding: utf-8 -*-
'C44 secrets and keys: made once, where they should be, and kept'
import os
from copy import deepcopy
from base64 import b64encode, b64decode
from hx import harness
from common import plain_logs
from nodes import write, scratch, reset
from wire import Client, Server, Entropy, Stops, connect, quiet_world
import privcount.config as C
import privcount.protocol as P
import privcount.tally_server as T
import privcount.data_collector as D
import privcount.share_keeper as S
import privcount.crypto as K

RAW = ''.join([chr(i) for i in range(200, 232)])


def contents(path):
    f = open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def drop(path):
    if os.path.exists(path):
        os.remove(path)
    return path


FORMS = {
    'missing': None,
    'good': b64encode(RAW),
    'newline': b64encode(RAW) + '\n',
    'spaces': '  \r\n\t' + b64encode(RAW) + ' \n\n',
    'empty': '',
    'blank': ' \n',
    'one byte': b64encode('x'),
    'short': b64encode(RAW[:31]),
    'shorter': b64encode(RAW[:24]),
    'long': b64encode(RAW + '!'),
    'longer': b64encode(RAW + RAW),
    'twice': b64encode(RAW) + '\n' + b64encode(RAW),
    'raw': RAW,
    'hex': RAW.encode('hex'),
    'no padding': b64encode(RAW)[:-1],
    'text': 'x' * 43,
}
GOOD = ['good', 'newline', 'spaces']


def put(form, name='secret44'):
    path = drop(os.path.join(scratch(), name))
    if FORMS[form] is not None:
        write(name, FORMS[form])
    return path


class Bytes(object):
    'random bytes; every request is recorded'
    def __init__(self, h):
        self.h, self.asked = h, []
        self.inner = Entropy()

    def __call__(self, n):
        out = self.inner(n)
        self.asked.append(out)
        return out


@harness(cover=sorted(FORMS) + ['made', 'read', 'refused'], bounds='a secret file in one of %d forms, read by the one that may make it or '
         'by another; for the first or second time' % len(FORMS))
def secret_file(h):
    plain_logs(h)
    reset()
    h.urandom = b = Bytes(h)
    form = h.choice('form', sorted(FORMS))
    h.cover(form)
    path = put(form)
    how = h.choice('how', ['create', 'not', 'default'])
    args = {'create': (True,), 'not': (False,), 'default': ()}[how]
    for i in range(2):
        (got, e) = h.call(P.PrivCountProtocol.handshake_secret_load, path, *args)
        exists = os.path.exists(path)
        if form == 'missing' and how == 'create':
            h.check(e is None and isinstance(got, str) and len(got) == 32, 'a new secret has 32 bytes', repr(e))
            h.check(exists and b64decode(contents(path)) == got, 'the file has the new secret')
            h.check(got in b.asked, 'the new secret is random')
            h.check(i == 0 or got == first, 'the secret is made once')
            first = got
            h.cover('made')
            continue
        h.check(exists == (form != 'missing'), 'only the tally server makes a secret file', how)
        h.check(not exists or contents(path) == FORMS[form], 'a secret file is never changed')
        if form in GOOD:
            h.check(e is None and got == RAW, 'the secret is what the file says')
            h.cover('read')
        else:
            h.check(e is not None or not got, 'what is not a secret is not used as one', form)
            h.cover('refused')


@harness(cover=['right', 'too short', 'too long'], bounds='a file with 0 to 64 random bytes, with 0 to 2 characters of white space around them')
def secret_length(h):
    plain_logs(h)
    reset()
    n = h.size('bytes', 0, 64)
    (a, b) = (h.choice('before', ['', '\n', ' \t']), h.choice('after', ['', '\n', '\r\n']))
    raw = (RAW + RAW)[:n]
    path = write('secret44', a + b64encode(raw) + b)
    (got, e) = h.call(P.PrivCountProtocol.handshake_secret_load, path, h.flag('create'))
    h.check((e is None and got == raw) if n == 32 else (e is not None or not got), 'the secret has exactly 32 bytes', n)
    h.cover('right' if n == 32 else 'too short' if n < 32 else 'too long')


@harness(group='b', cover=['server', 'client', 'agreed', 'not agreed'],
         bounds='a client and a server, each with a secret file in one of %d forms' % len(FORMS))
def used_in_handshakes(h):
    'the files decide: no file, no connection'
    quiet_world(h)
    (sform, cform) = (h.choice('of the server', sorted(FORMS)), h.choice('of the client', sorted(FORMS)))
    if sform not in GOOD + ['missing', 'short'] and cform not in GOOD:
        return
    sf, cf = Server(put(sform, 'secret44s')), Client(put(cform, 'secret44c'))
    s, c = connect(P.PrivCountServerProtocol, sf), connect(P.PrivCountClientProtocol, cf)
    (n, m, dead) = (0, 0, False)
    for i in range(8):
        for (a, b, src) in ((s, c, 's'), (c, s, 'c')):
            lines = a.transport.lines()
            k = n if src == 's' else m
            for l in lines[k:]:
                if not b.transport.disconnecting and not dead:
                    (r, e) = h.call(b.dataReceived, l + '\r\n')
                    dead = dead or e is not None
            if src == 's':
                n = len(lines)
            else:
                m = len(lines)
    good = sform in GOOD and cform in GOOD
    h.check(bool(c.is_valid_connection) == good or not good, 'so does the client')
    h.check(bool(s.is_valid_connection) == good, 'the server connects exactly when both files have the secret',
            '%s %s' % (sform, cform))
    for (form, name) in ((sform, 'secret44s'), (cform, 'secret44c')):
        path = os.path.join(scratch(), name)
        h.check(os.path.exists(path) == (form != 'missing'), 'a handshake makes no secret file')
        h.check(form == 'missing' or contents(path) == FORMS[form], 'a handshake changes no secret file')
    h.cover('agreed' if good else 'not agreed')
    h.cover('server' if sform == 'missing' else 'client')


class Yaml(object):
    'files by name, without their format'
    def __init__(self):
        self.files = {}

    def load(self, f):
        return deepcopy(self.files[f.name])


def configuration(h, kind):
    'a node of a kind, a configuration for it, and a way to hand it over'
    y = Yaml()
    Mod = {'tally server': T, 'collector': D, 'keeper': S}[kind]
    h.patch(Mod, 'yaml', y)
    h.patch(Mod, 'log_error', lambda: None)
    path = write('config44', '')
    info = {'ip': '127.0.0.1', 'port': 20001}
    if kind == 'tally server':
        conf = {'counters': {'ExitStreamCount': {'bins': [[0.0, float('inf')]], 'sigma': 4.0}},
                'tally_server': {'results': scratch(), 'listen_port': 20001, 'sk_threshold': 1, 'dc_threshold': 1,
                                 'collect_period': 100, 'noise_weight': {'*': 1.0}}}
        node = T.TallyServer(path)
    elif kind == 'collector':
        conf = {'data_collector': {'tally_server_info': info, 'name': 'one', 'event_source': {'ip': '127.0.0.1', 'port': 20003},
                                   'share_keepers': {'ab' * 32: 'x'}}}
        node = D.DataCollector(path)
    else:
        conf = {'share_keeper': {'tally_server_info': info}}
        node = S.ShareKeeper(path)

    def read(c):
        y.files[path] = c
    return Mod, node, conf, read


WHERE = ['own', 'top', 'both', 'none']


@harness(group='b', cover=WHERE + ['tally server', 'collector', 'keeper', 'refused', 'made', 'kept'],
         bounds='the three kinds of nodes; the secret named in its own section, for all nodes, both or not at all; its '
         'file in one of %d forms; the files of the key and the certificate there or not; read once or twice' % len(FORMS))
def from_configurations(h):
    plain_logs(h)
    reset()
    h.urandom = b = Bytes(h)
    kind = h.choice('kind', ['tally server', 'collector', 'keeper'])
    h.cover(kind)
    where = h.choice('where', WHERE)
    h.cover(where)
    form = h.choice('form', ['missing', 'good', 'newline', 'short', 'empty', 'twice'])
    path = put(form)
    other = drop(os.path.join(scratch(), 'other44'))
    default = drop(os.path.join(scratch(), 'privcount.secret_handshake.yaml'))
    # what has no directory is in the current one
    h.patch(C, 'normalise_path', lambda p: os.path.join(scratch(), p))
    for M in (T, D, S):
        h.patch(M, 'normalise_path', lambda p: os.path.join(scratch(), p))
    if where == 'none':
        # the default name
        if form != 'missing':
            os.rename(path, default)
        path = default
    (Mod, node, conf, read) = configuration(h, kind)
    section = conf[kind.replace('collector', 'data_collector').replace('keeper', 'share_keeper').replace('tally server', 'tally_server')]
    section.pop('secret_handshake', None)
    if where in ('own', 'both'):
        section['secret_handshake'] = path
    if where in ('top', 'both'):
        conf['secret_handshake'] = path if where == 'top' else other
    files = {}
    named = h.flag('keys are named')
    for (k, default_name) in {'tally server': [('key', 'privcount.rsa_key.pem'), ('cert', 'privcount.rsa_key.cert')],
                              'keeper': [('key', 'privcount.rsa_key.pem')], 'collector': []}[kind]:
        p = drop(os.path.join(scratch(), default_name))
        section.pop(k, None)
        if named:
            p = section[k] = drop(os.path.join(scratch(), k + '44'))
        there = h.flag(k + ' exists')
        if there:
            write(os.path.basename(p), {'key': 'PRIVATE-KEY k44', 'cert': 'CERT k44'}[k])
        files[k] = (p, there)
    read(conf)
    (r, e) = h.call(node.refresh_config)
    h.check(e is None, 'reading a configuration raises nothing', repr(e))
    ok = kind != 'tally server' or form in GOOD + ['missing']
    h.check((node.config is not None) == ok, 'a tally server without a secret does not run', '%s %s' % (kind, form))
    made = kind == 'tally server' and form == 'missing'
    h.check(os.path.exists(path) == (made or form != 'missing'), 'the tally server makes the secret that is missing, and nobody else does')
    h.check(made or form == 'missing' or contents(path) == FORMS[form], 'a secret file stays as it is')
    h.check(not os.path.exists(other), 'no other file is made')
    h.check(where == 'none' or not os.path.exists(default), 'no file is made under the default name')
    new = not all([there for (p, there) in files.values()])
    for (k, (p, there)) in files.items():
        h.check(os.path.exists(p), 'keys that are missing are made', k)
        was = {'key': 'PRIVATE-KEY k44', 'cert': 'CERT k44'}[k]
        if not new:
            h.check(contents(p) == was, 'a key that is there is kept', k)
            h.cover('kept')
    if new and 'key' in files:
        h.check(contents(files['key'][0]).startswith('PRIVATE-KEY gen'), 'a new key is generated')
        h.cover('made')
    if not ok:
        h.cover('refused')
        return
    h.check(node.config['secret_handshake'] == path, 'the secret is where the configuration says', where)
    h.check(node.get_secret_handshake_path() == path, 'the protocol gets that path')
    for k in files:
        h.check(node.config[k] == files[k][0], 'the key is where the configuration says')
    if kind == 'keeper':
        h.check(node.config['name'] == K.get_public_digest(files['key'][0]), 'a share keeper has the name of its key')
    text = repr(node.config)
    h.check(FORMS['good'] not in text and not [x for x in b.asked if b64encode(x) in text], 'the secret is no part of the configuration')
    before = dict([(k, contents(p)) for (k, (p, there)) in files.items()])
    secret = contents(path) if os.path.exists(path) else None
    h.quiet('read again', node.refresh_config)
    h.check(before == dict([(k, contents(p)) for (k, (p, there)) in files.items()]), 'keys are made once')
    h.check(secret == (contents(path) if os.path.exists(path) else None), 'the secret is made once')
