# -*- coding: utf-8 -*-
'C09 round and delay settings'
from hx import harness
from common import plain_logs
import privcount.node as N
from privcount.counter import float_accuracy

DAY = 24 * 60 * 60


@harness(cover=['default', 'kept', 'replaced'], bounds='every delay period')
def delay_period(h):
    if h.flag('absent'):
        got = N.PrivCountNode.get_valid_delay_period({})
        h.check(got == DAY, 'a day by default')
        h.cover('default')
        return
    d = h.real('d', -2 ** 40, 2 ** 40)
    conf = {'delay_period': d}
    got = N.PrivCountNode.get_valid_delay_period(conf)
    h.check(got == h.Ite(d < 0, DAY, d), 'a configured delay is kept, a negative one is not')
    h.check(got >= 0, 'a delay is never negative')
    h.observe('got', got)
    h.cover('kept' if d >= 0 else 'replaced')


@harness(cover=['accepted', 'refused'], bounds='every tolerance, client and server, with no, hard-coded and calculated '
         'noise and every sigma tolerance')
def tolerance(h):
    conf = {}
    t = h.real('t', -1, 2 ** 20, 2 ** 24)
    if h.flag('configured'):
        conf['sigma_decrease_tolerance'] = t
    else:
        t = N.DEFAULT_SIGMA_TOLERANCE
    low = float_accuracy()
    h.check(low > 0 and low <= N.DEFAULT_SIGMA_TOLERANCE, 'the accuracy of a transmitted float')
    if h.flag('server'):
        kind = h.choice('noise', ['sigmas', 'privacy', 'privacy with tolerance'])
        conf['noise'] = {'counters': {}}
        if kind != 'sigmas':
            conf['noise']['privacy'] = {}
            want = t >= N.DEFAULT_SIGMA_TOLERANCE
        else:
            want = t >= low
        if kind == 'privacy with tolerance':
            s = conf['noise']['privacy']['sigma_tolerance'] = h.real('s', 0, 2 ** 20, 2 ** 24)
            want = h.And(t >= low, t >= s)
        got, e = h.call(N.PrivCountServer.get_valid_sigma_decrease_tolerance, conf)
    else:
        want = t >= low
        got, e = h.call(N.PrivCountClient.get_valid_sigma_decrease_tolerance, conf)
    h.check(h.Iff(e is None, want), 'accepted exactly when no smaller than the errors it must absorb')
    if e is None:
        h.check(got == t, 'the configured value')
        h.cover('accepted')
    else:
        h.cover('refused')
    h.observe('ok', e is None)


@harness(cover=['forever', 'limited'], bounds='every number of completed rounds, every continue setting')
def continuing(h):
    done = h.int('done', 0, 2 ** 40)
    state = h.choice('state', ['active', 'idle'])
    conf = h.choice('continue', [True, False, 'number'])
    if conf is True:
        total = None
    elif conf is False:
        total = 1
    else:
        conf = total = h.int('n', 0, 2 ** 40)
    rem = N.get_remaining_rounds(done, conf, state)
    go = N.continue_collecting(done, conf, state)
    if total is None:
        h.check(rem is None and go is True, 'no limit')
        h.cover('forever')
        return
    left = total - done - (1 if state == 'active' else 0)
    h.check(rem == h.Max(left, 0), 'what is left, not counting the round that is running')
    h.check(h.Iff(go, left > 0), 'goes on while rounds are left')
    h.observe('rem', rem)
    h.cover('limited')


@harness(group='b', cover=['active', 'idle'], bounds='every status a tally server can report')
def status_is_logged(h):
    'a client logs any well-formed status without failing'
    plain_logs(h)
    state = h.choice('state', ['active', 'idle'])
    n = {}
    for k in ('dcs_total', 'dcs_required', 'dcs_active', 'dcs_idle', 'dcs_control', 'dcs_event', 'sks_total',
              'sks_required', 'sks_active', 'sks_idle', 'completed_phases'):
        n[k] = h.int(k, 0, 100)
    n.update(state=state, privcount_version='x', delay_until=h.real('delay', 0, 4096), time=h.real('time', 0, 2048))
    n['continue'] = h.choice('continue', [True, False, 'n'])
    if n['continue'] == 'n':
        n['continue'] = h.int('rounds', 0, 10)
    if h.flag('end'):
        n['expected_end_time'] = h.real('end', 0, 4096)
    h.now = h.real('now', 0, 4096)
    h.quiet('a status is logged', N.log_tally_server_status, n)
    h.check(True, 'done')
    h.cover(state)
