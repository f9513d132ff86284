# -*- coding: utf-8 -*-
'tally servers for the harnesses'
import os
from copy import deepcopy

from common import INF, plain_logs
from nodes import reset, write, scratch, public, digest
import privcount.tally_server as T

COUNTERS = {'ExitStreamCount': {'bins': [[0.0, INF]]}, 'ZeroCount': {'bins': [[0.0, INF]]}}
NOISE = {'counters': {'ExitStreamCount': {'sigma': 4.0}, 'ZeroCount': {'sigma': 2.0}}}


def config(**kw):
    'a configuration as refresh_config() leaves it'
    c = {'name': 'ts', 'counters': deepcopy(COUNTERS), 'noise': deepcopy(NOISE), 'noise_weight': {'*': 1.0},
         'dc_threshold': 1, 'sk_threshold': 1, 'collect_period': 100, 'event_period': 60, 'checkin_period': 10,
         'continue': True, 'delay_period': 0.0, 'always_delay': False, 'sigma_decrease_tolerance': 0.001,
         'start_after_time': 0.0, 'listen_port': 20001, 'max_cell_events_per_circuit': -1, 'circuit_sample_rate': 1.0,
         'results': scratch(), 'cert': '/x/c', 'key': '/x/k', 'secret_handshake': '/x/h', 'state': '/x/s',
         'domain_exacts': [], 'domain_suffixes': {}, 'country_exacts': [], 'as_data': {'lists': []},
         'hsdir_store_exacts': [], 'hsdir_fetch_exacts': [], 'circuit_failure_exacts': [], 'onion_address_exacts': []}
    c.update(kw)
    return c


def tally_server(h, **kw):
    plain_logs(h)
    reset()
    ts = T.TallyServer('/nonexistent')
    ts.config = config(**kw)
    ts.refresh_config = lambda: None
    return ts


def status(kind, uid, now, state='idle', **kw):
    's as the connection passes it on'
    s = {'type': kind, 'name': uid, 'state': state, 'alive': now, 'rtt': 0.0, 'clock_skew': 0.0,
         'privcount_version': '2.0.0', 'client_address': '10.0.0.1'}
    if kind == 'ShareKeeper':
        s['public_key'] = public(uid)
    s.update(kw)
    return s


class Json(object):
    'records what is written as JSON, instead of formatting it'
    def __init__(self, real):
        self.real = real
        self.written = []

    def dump(self, obj, f, *a, **kw):
        self.written.append((f.name, obj))
        f.write('{}')

    def dumps(self, obj, *a, **kw):
        self.written.append((None, obj))
        return '{}'

    def __getattr__(self, name):
        return getattr(self.real, name)


def written(h):
    j = Json(T.json)
    h.patch(T, 'json', j)
    return j
