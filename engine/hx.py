# -*- coding: utf-8 -*-
'''
The harness API. A harness is a function of one argument, h, that drives the
real privcount code and states what must hold.  The same harness runs in two
modes:

  symbolic   h.int() and friends return proxies; every feasible path is taken
  concrete   h.int() and friends return recorded values; the modules under
             test are plain, and a failed h.check() is a reproduced violation
'''
import sys
import traceback

import sx
from sx import And, Or, Not, Implies, Iff, Ite, Max, Min, Sum, is_sym


class AssumptionFailed(Exception):
    pass


class Base(object):
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Iff = staticmethod(Iff)
    Ite = staticmethod(Ite)
    Max = staticmethod(Max)
    Min = staticmethod(Min)
    Sum = staticmethod(Sum)

    def __init__(self):
        self.begin_hooks = []
        self.end_hooks = []
        self.patched = []
        self.tier = 'quick'

    def begin(self):
        'at the start of each path: restore the modules under test'
        self.now = 1000
        self.randoms = None
        self.log = []
        self.scratch = {}
        self.unpatch()
        for f in self.begin_hooks:
            f(self)

    def unpatch(self):
        for (obj, name, old) in reversed(self.patched):
            setattr(obj, name, old)
        self.patched = []

    def end(self):
        self.unpatch()
        for f in self.end_hooks:
            f(self)

    def patch(self, obj, name, value):
        'replace an attribute until the end of the path'
        old = getattr(obj, name)
        setattr(obj, name, value)
        self.patched.append((obj, name, old))

    def is_sym(self, x):
        return is_sym(x)

    def near(self, a, b):
        'a and b are equal: for all values (symbolic), up to rounding (concrete)'
        if self.sym:
            if not (is_sym(a) or is_sym(b)):
                return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
            ta, tb = sx._pair(sx.num_term(a), sx.num_term(b))
            return self.eng.query(sx.t_not(sx.t_eq(ta, tb))) == 'unsat'
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    def is_same(self, a, b):
        'a and b are the same term (or, concretely, equal)'
        if is_sym(a) and is_sym(b):
            return a.t.txt == b.t.txt
        if is_sym(a) or is_sym(b):
            return False
        return a == b

    # the clock: harnesses set h.now, or replace h.clock
    def clock(self):
        return self.now

    def call(self, f, *a, **kw):
        '''
        Call f, return (result, exception). Only Exceptions are caught: the
        engine's own control flow passes.
        '''
        try:
            return f(*a, **kw), None
        except Exception as e:
            return None, e

    def quiet(self, label, f, *a, **kw):
        'call f, which must not raise'
        try:
            return f(*a, **kw)
        except Exception as e:
            if self.sym and sx.ENG.dead is not None:
                raise
            if isinstance(e, sx.Unsupported):
                raise
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.check(False, label, '%s: %s at %s' % (
                type(e).__name__, str(e)[:200],
                ' <- '.join(['%s:%d' % (x[0].split('/')[-1], x[1]) for x in tb[-3:]])))


class SymH(Base):
    sym = True

    def __init__(self, eng):
        Base.__init__(self)
        self.eng = eng

    def int(self, name, lo=None, hi=None):
        t = self.eng.fresh(name, 'Int')
        x = sx.SymInt(t)
        self._bound(t, lo, hi, 'Int')
        return x

    def _bound(self, t, lo, hi, sort):
        if lo is not None:
            self.eng.assert_(sx.t_le(sx.num_term(lo) if sort == 'Int' else
                                     sx.t_real(sx.num_term(lo)), t))
        if hi is not None:
            self.eng.assert_(sx.t_le(t, sx.num_term(hi) if sort == 'Int' else
                                     sx.t_real(sx.num_term(hi))))

    def real(self, name, lo=None, hi=None, scale=1024):
        '''
        A real number. Models prefer binary fractions k/scale, which floats
        represent exactly.
        '''
        t = self.eng.fresh(name, 'Real', scale)
        self._bound(t, lo, hi, 'Real')
        return sx.SymReal(t)

    def anyreal(self, name, lo=None, hi=None):
        t = self.eng.fresh(name, 'Real')
        self._bound(t, lo, hi, 'Real')
        return sx.SymReal(t)

    def bool(self, name):
        return sx.SymBool(self.eng.fresh(name, 'Bool'))

    def flag(self, name):
        return True if self.bool(name) else False

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        i = self.int(name, 0, len(seq) - 1)
        return seq[self.eng.concretise(i)]

    def size(self, name, lo, hi):
        return self.eng.concretise(self.int(name, lo, hi))

    def fix(self, x):
        return self.eng.concretise(x)

    def assume(self, cond):
        self.eng.assume(cond)

    def check(self, cond, label, detail=''):
        self.eng.check(cond, label, detail)

    def observe(self, name, v):
        self.eng.observed.append((name, v))

    def text(self, x):
        'the decimal rendering of a number, as the code under test sees it'
        return self.eng.mark(x) if is_sym(x) else str(x)

    def cover(self, label):
        self.eng.guard()
        self.eng.reached[label] = self.eng.reached.get(label, 0) + 1

    def value_of(self, s):
        'the number that the text s stands for'
        if is_sym(s):
            return s
        return sx.s_unmark(s) if not isinstance(s, (str, unicode)) or '\x02' in s else float(s)


class ConH(Base):
    sym = False

    def __init__(self, inputs):
        Base.__init__(self)
        self.inputs = inputs
        self.failed = []
        self.observed = []
        self.names = {}
        self.missing = []
        self.covered = {}

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = name if n == 0 else '%s#%d' % (name, n)
        if full not in self.inputs:
            self.missing.append(full)
            return default
        return self.inputs[full]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else (hi if hi is not None else 0)))

    def real(self, name, lo=None, hi=None, scale=1024):
        v = self._get(name, None)
        if v is None:
            return float(lo if lo is not None else (hi if hi is not None else 0))
        return float(sx.Fraction(int(v[0]), int(v[1])))

    def anyreal(self, name, lo=None, hi=None):
        v = self._get(name, None)
        if v is None:
            return float(lo if lo is not None else 0)
        return float(sx.Fraction(int(v[0]), int(v[1])))

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1)]

    def size(self, name, lo, hi):
        return self.int(name, lo, hi)

    def fix(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label, detail=''):
        if not cond:
            self.failed.append((label, detail))

    def observe(self, name, v):
        self.observed.append([name, sx.plain(v)])

    def text(self, x):
        return repr(x) if isinstance(x, float) else str(x)

    def cover(self, label):
        self.covered[label] = self.covered.get(label, 0) + 1

    def value_of(self, s):
        return float(s)


# --------------------------------------------------------------------------
# Registry
# --------------------------------------------------------------------------

REG = []


class Harness(object):
    def __init__(self, fn, opts):
        self.fn = fn
        self.name = opts.get('name') or fn.__name__
        self.group = opts.get('group', 'a')
        self.cover = opts.get('cover', ())
        self.wall = opts.get('wall', 240)
        self.max_paths = opts.get('max_paths', 40000)
        self.query_timeout = opts.get('query_timeout', 20)
        self.bounds = opts.get('bounds', '')
        self.tiers = opts.get('tiers', ('quick', 'thorough'))
        self.no_exception = opts.get('no_exception', True)
        self.thorough_wall = opts.get('thorough_wall', 600)


def harness(**opts):
    def deco(fn):
        REG.append(Harness(fn, opts))
        return fn
    return deco
