# -*- coding: utf-8 -*-
'''
The environment of the code under test: clock, randomness and mathematics.
install() must run before the first privcount module is imported.
'''
import imp
import os
import sys
import time as real_time
import math as real_math
import random as real_random

import sx

CUR = [None]     # the current harness object


def h():
    return CUR[0]


# ---- time
def stub_time():
    if CUR[0] is None:
        return real_time.time()
    return CUR[0].clock()


def _plain_time(f):
    def g(x=None, *a):
        if sx.is_sym(x):
            x = 0
        return f(x, *a) if x is not None else f(0, *a)
    return g


def stub_strftime(fmt, *a):
    return real_time.strftime(fmt, *a)


# ---- randomness
def stub_urandom(n):
    cur = CUR[0]
    if cur is not None and getattr(cur, 'urandom', None) is not None:
        return cur.urandom(n)
    return '\x5a' * n


class StubSystemRandom(object):
    '''
    The operating system's generator: an arbitrary value within the documented
    range of the method.  A harness can take over by setting h.rng to an
    object with the same methods.
    '''
    def _cur(self, name):
        cur = CUR[0]
        return getattr(getattr(cur, 'rng', None), name, None)

    def __init__(self, *a):
        pass

    def seed(self, *a):
        pass

    def getrandbits(self, k):
        f = self._cur('getrandbits')
        if f is not None:
            return f(k)
        k = int(k)
        return CUR[0].int('rand.bits', 0, (1 << k) - 1)

    def gauss(self, mu, sigma):
        f = self._cur('gauss')
        if f is not None:
            return f(mu, sigma)
        z = CUR[0].real('rand.z', -8, 8, 16)
        return mu + z * sigma

    normalvariate = gauss

    def random(self):
        f = self._cur('random')
        if f is not None:
            return f()
        return CUR[0].real('rand.u', 0, 1 - 1.0 / 1024)

    def uniform(self, a, b):
        f = self._cur('uniform')
        if f is not None:
            return f(a, b)
        return a + (b - a) * self.random()

    def randint(self, a, b):
        f = self._cur('randint')
        if f is not None:
            return f(a, b)
        return CUR[0].int('rand.int', a, b)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        return self.randint(a, b - 1)

    def choice(self, seq):
        return seq[CUR[0].fix(self.randint(0, len(seq) - 1))]


# ---- mathematics
def _unary(name, sym):
    f = getattr(real_math, name)

    def g(x):
        x = sx.s_unmark(x)
        if sx.is_sym(x):
            return sym(x)
        return f(x)
    g.__name__ = name
    return g


def sym_sqrt(x):
    cur = CUR[0]
    e = sx.ENG
    if e.branch(sx.t_lt(sx.t_real(sx.num_term(x)), sx.const(0, 'Real'))):
        raise ValueError('math domain error')
    t = e.fresh('sqrt', 'Real')
    e.inputs.pop()
    r = sx.SymReal(t)
    e.assert_(sx.t_le(sx.const(0, 'Real'), t))
    e.assert_(sx.t_eq(sx.t_mul(t, t), sx.t_real(sx.num_term(x))))
    return r


UF = {}


def sym_monotone(name, positive=False, anchors=()):
    '''
    exp, log: not interpreted beyond being functions (equal arguments give
    equal results), increasing, positive for exp, and crossing the given
    points, which makes a rounded logarithm exact
    '''
    def g(x):
        e = sx.ENG
        t = sx.t_real(sx.num_term(x))
        key = getattr(e, 'uf', None)
        if key is None or key[0] is not e.trace:
            e.uf = key = (e.trace, {})
        seen = key[1].setdefault(name, [])
        for (a, r) in seen:
            if a.txt == t.txt:
                return sx.SymReal(r)
        r = e.fresh('uf.' + name, 'Real')
        e.inputs.pop()
        if positive:
            e.assert_(sx.t_lt(sx.const(0, 'Real'), r))
        for (a, ra) in seen:
            e.emit('(assert (and (=> (= %s %s) (= %s %s)) (=> (< %s %s) (< %s %s)) (=> (< %s %s) (< %s %s))))' % (
                a.txt, t.txt, ra.txt, r.txt, a.txt, t.txt, ra.txt, r.txt,
                t.txt, a.txt, r.txt, ra.txt))
        for (xv, rv) in anchors:
            e.emit('(assert (= (<= %s %s) (<= %s %s)))' % (
                sx.const(xv, 'Real').txt, t.txt, sx.const(rv, 'Real').txt, r.txt))
        seen.append((t, r))
        return sx.SymReal(r)
    return g


def log_anchors(base):
    'points that decide which integer a logarithm is rounded to, for arguments from 1 to 2^63'
    out = [(1, 0)]
    k = 0
    while real_math.pow(base, k) < 2.0 ** 63:
        out.append((real_math.pow(base, k + 0.5), k + 0.5))
        k += 1
    return out


def sym_log(x, *a):
    e = sx.ENG
    if e.branch(sx.t_le(sx.t_real(sx.num_term(x)), sx.const(0, 'Real'))):
        raise ValueError('math domain error')
    if len(a) == 1 and isinstance(a[0], (int, long, float)) and a[0] > 1 and a[0] == int(a[0]):
        return sx.SymLog(sx.num_term(x), int(a[0]), lambda: sym_monotone('log%d' % int(a[0]), False, log_anchors(a[0]))(x).t)
    return sym_monotone('log', False, log_anchors(real_math.e))(x)


def _ceil(x):
    t = sx.t_real(sx.num_term(x))
    return sx.wrap(sx.t_real(sx.t_neg(sx.t_floor(sx.t_neg(t)))))


def _floor(x):
    return sx.wrap(sx.t_real(sx.t_floor(sx.t_real(sx.num_term(x)))))


def install(symbolic):
    tm = imp.new_module('time')
    for k in dir(real_time):
        if k[0].isalpha() and k not in ('class', 'time'):
            try:
                setattr(tm, k, getattr(real_time, k))
            except AttributeError:
                pass
    tm.time = stub_time
    tm.gmtime = _plain_time(real_time.gmtime)
    tm.localtime = _plain_time(real_time.localtime)
    tm.strftime = stub_strftime
    sys.modules['time'] = tm
    os.urandom = stub_urandom
    real_random.SystemRandom = StubSystemRandom
    if symbolic:
        mm = imp.new_module('math')
        for k in dir(real_math):
            if k[0].isalpha() and k != 'class':
                try:
                    setattr(mm, k, getattr(real_math, k))
                except AttributeError:
                    pass
        mm.isnan = _unary('isnan', lambda x: False)
        mm.isinf = _unary('isinf', lambda x: False)
        mm.ceil = _unary('ceil', _ceil)
        mm.floor = _unary('floor', _floor)
        mm.fabs = _unary('fabs', abs)
        mm.sqrt = _unary('sqrt', sym_sqrt)
        mm.exp = _unary('exp', sym_monotone('exp', True))
        rl = real_math.log

        def log(x, *a):
            if sx.is_sym(x):
                return sym_log(x, *a)
            return rl(x, *a)
        mm.log = log
        mm.log10 = lambda x: sym_log(x, 10) if sx.is_sym(x) else real_math.log10(x)
        mm.log1p = lambda x: sym_log(x + 1) if sx.is_sym(x) else real_math.log1p(x)
        rp = real_math.pow
        mm.pow = lambda a, b: (a ** b) if sx.is_sym(a) or sx.is_sym(b) else rp(a, b)
        sys.modules['math'] = mm
    import logging
    logging.disable(logging.CRITICAL)
    # messages are formatted by the code before logging sees them; the
    # logging functions themselves do nothing
    for name in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception'):
        setattr(logging, name, _nolog(name))


def _nolog(name):
    def f(msg, *a, **kw):
        cur = CUR[0]
        if cur is not None and getattr(cur, 'on_log', None) is not None:
            cur.on_log(name, msg, a)
    f.__name__ = name
    return f
