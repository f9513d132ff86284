# -*- coding: utf-8 -*-
'data collectors and share keepers for the harnesses'
import atexit
import os
import shutil
import tempfile
from base64 import b64encode
from copy import deepcopy

from common import INF, plain_logs, Rng
from twisted.internet import reactor, task
import privcount.data_collector as D
import privcount.share_keeper as S
from privcount.crypto import get_public_digest_string

SCRATCH = []


def scratch():
    if not SCRATCH:
        SCRATCH.append(tempfile.mkdtemp(prefix='verif-'))
        atexit.register(shutil.rmtree, SCRATCH[0], True)
    return SCRATCH[0]


def write(name, text):
    path = os.path.join(scratch(), name)
    f = open(path, 'wb')
    f.write(text)
    f.close()
    return path


def reset():
    reactor.reset()
    reactor.fail[0] = None
    del task.loops[:]


def public(name):
    return 'PUBLIC-KEY ' + name


def digest(name):
    return get_public_digest_string(public(name), is_private_key=False)


def keeper_map(names):
    return dict([(digest(n), b64encode(public(n))) for n in names])


FP = 'A' * 40


def start_config(names, counters=None, sigma=4.0):
    counters = counters or {'ExitStreamCount': [[0.0, INF]],
                            'ExitStreamByteHistogram': [[0.0, 512.0], [512.0, INF]]}
    return {
        'counters': dict([(k, {'bins': deepcopy(counters[k])}) for k in counters]),
        'noise': {'counters': dict([(k, {'sigma': sigma * 2 ** i}) for i, k in enumerate(sorted(counters))])},
        'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 60,
        'sharekeepers': keeper_map(names), 'defer_time': 5.0}


def data_collector(h, names, name='dc1', **kw):
    dc = D.DataCollector('/nonexistent')
    dc.config = {'name': name, 'delay_period': 0.0, 'always_delay': False, 'sigma_decrease_tolerance': 0.001,
                 'share_keepers': [digest(n) for n in names], 'event_source': {'ip': '127.0.0.1', 'port': 9051},
                 'rotate_period': 600, 'use_setconf': True, 'tally_server_info': {'ip': '127.0.0.1', 'port': 20001}}
    dc.config.update(kw)
    return dc


def share_keeper(h, name):
    sk = S.ShareKeeper('/nonexistent')
    sk.config = {'name': digest(name), 'key': write(name + '.pem', 'PRIVATE-KEY %s\n' % name), 'delay_period': 0.0,
                 'always_delay': False, 'sigma_decrease_tolerance': 0.001,
                 'tally_server_info': {'ip': '127.0.0.1', 'port': 20001}}
    return sk


def pending():
    'the calls that were put off and not cancelled'
    return [c[1] for c in reactor.calls if c[0] in ('deferLater', 'callLater') and c[1].active()]


def run_pending():
    for c in pending():
        c.cancel()
        c.f(*c.a, **c.kw)


def stream_event(port=80, read=100, written=50, start=1.0, end=2.0, host='example.com', ip='1.2.3.4', number=1,
                 chan=1, circ=2):
    return ['PRIVCOUNT_STREAM_ENDED', str(chan), str(circ), '3', str(port), str(read), str(written), str(start),
            str(end), host, ip, str(number)]


class Node(object):
    'what an aggregator needs, without the rest of a data collector'


def aggregator(h, counters, **kw):
    a = dict(traffic_model_config=None, sk_uids=[], noise_weight={'*': 1.0}, modulus=2 ** 70,
             tor_control_port={'ip': '127.0.0.1', 'port': 9051}, rotate_period=600, use_setconf=True,
             max_cell_events_per_circuit=-1, circuit_sample_rate=1.0, domain_lists=[], domain_suffixes={},
             country_lists=[], as_data={}, hsdir_store_lists=[], hsdir_fetch_lists=[], circuit_failure_lists=[],
             onion_address_lists=[])
    a.update(kw)
    return D.Aggregator(counters, **a)
