# -*- coding: utf-8 -*-
'''
A small symbolic executor for Python 2.7, running inside Jython on the real
privcount modules.

Inputs are proxy objects that carry SMT-LIB terms.  Every operation the code
under test performs on a proxy builds a term; every truth test on a proxy is a
decision: both outcomes that an SMT solver finds feasible are explored (by
re-execution), so one run of explore() covers every value of the inputs within
the declared bounds.  An obligation (h.check) is a query "path condition and
not property": unsat discharges it for all the values that follow the path,
sat yields concrete input values, which the driver replays on the real,
unpatched modules.
'''
import json
import re
import subprocess
import sys
import time as _time
from fractions import Fraction

_real_time = _time.time

B_int, B_long, B_float, B_len = int, long, float, len
B_isinstance, B_round, B_min, B_max, B_abs = isinstance, round, min, max, abs
B_sum, B_range, B_xrange, B_type, B_divmod = sum, range, xrange, type, divmod
B_bool, B_sorted = bool, sorted

NUM = (B_int, B_long, B_float, B_bool)
INF = B_float('inf')


class Control(BaseException):
    'engine control flow: ends the current path'


class PathEnd(Control):
    pass


class Unsupported(Exception):
    'an operation the engine cannot lift'


class SolverError(Control):
    pass


# --------------------------------------------------------------------------
# Terms
# --------------------------------------------------------------------------

class T(object):
    __slots__ = ('txt', 'sort', 'val', 'neg', 'div')

    def __init__(self, txt, sort, val=None, neg=None):
        self.txt = txt
        self.sort = sort
        self.val = val
        self.neg = neg

    def __repr__(self):
        return 'T<%s>' % self.txt


TRUE = T('true', 'Bool', True)
FALSE = T('false', 'Bool', False)


def _int_txt(v):
    return str(v) if v >= 0 else '(- %d)' % (-v)


def _real_txt(v):
    v = Fraction(v)
    n, d = v.numerator, v.denominator
    s = '%d.0' % B_abs(n) if d == 1 else '(/ %d.0 %d.0)' % (B_abs(n), d)
    return s if n >= 0 else '(- %s)' % s


def const(v, sort=None):
    if sort == 'Bool' or (sort is None and B_isinstance(v, B_bool)):
        return TRUE if v else FALSE
    if sort == 'Real':
        v = Fraction(v)
        return T(_real_txt(v), 'Real', v)
    if sort == 'String':
        return T(_str_txt(v), 'String', v)
    v = B_long(v)
    return T(_int_txt(v), 'Int', v)


def _str_txt(s):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '"':
            out.append('""')
        elif ch == '\\' or o < 32 or o > 126:
            out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return '"%s"' % ''.join(out)


def _mk(txt, sort):
    if B_len(txt) > 160 and ENG is not None:
        return T(ENG.define(txt, sort), sort)
    return T(txt, sort)


def t_add(a, b):
    if a.val is not None and b.val is not None:
        return const(a.val + b.val, a.sort)
    if a.val is not None and a.val == 0:
        return b
    if b.val is not None and b.val == 0:
        return a
    return _mk('(+ %s %s)' % (a.txt, b.txt), a.sort)


def t_sub(a, b):
    if a.val is not None and b.val is not None:
        return const(a.val - b.val, a.sort)
    if b.val is not None and b.val == 0:
        return a
    if a.txt == b.txt:
        return const(0, a.sort)
    return _mk('(- %s %s)' % (a.txt, b.txt), a.sort)


def t_neg(a):
    if a.val is not None:
        return const(-a.val, a.sort)
    return _mk('(- %s)' % a.txt, a.sort)


def t_mul(a, b):
    if a.val is not None and b.val is not None:
        return const(a.val * b.val, a.sort)
    for x, y in ((a, b), (b, a)):
        if x.val is not None:
            if x.val == 0:
                return const(0, a.sort)
            if x.val == 1:
                return y
    return _mk('(* %s %s)' % (a.txt, b.txt), a.sort)


def t_rdiv(a, b):
    if a.val is not None and b.val is not None:
        return const(Fraction(a.val) / b.val, 'Real')
    if b.val is not None and b.val == 1:
        return a
    t = _mk('(/ %s %s)' % (a.txt, b.txt), 'Real')
    t.div = (a, b)
    return t


def t_idiv(a, b):
    'floor division of integers; b is known to be non-zero'
    if a.val is not None and b.val is not None:
        return const(a.val // b.val)
    if b.val is not None:
        if b.val == 1:
            return a
        if b.val > 0:
            return _mk('(div %s %s)' % (a.txt, b.txt), 'Int')
        return _mk('(div (- %s) %s)' % (a.txt, _int_txt(-b.val)), 'Int')
    return t_ite(t_lt(const(0), b),
                 T('(div %s %s)' % (a.txt, b.txt), 'Int'),
                 T('(div (- %s) (- %s))' % (a.txt, b.txt), 'Int'))


def t_imod(a, b):
    if a.val is not None and b.val is not None:
        return const(a.val % b.val)
    if b.val is not None and b.val > 0:
        return _mk('(mod %s %s)' % (a.txt, b.txt), 'Int')
    return t_sub(a, t_mul(b, t_idiv(a, b)))


def t_lt(a, b):
    if a.val is not None and b.val is not None:
        return TRUE if a.val < b.val else FALSE
    if a.txt == b.txt:
        return FALSE
    return _mk('(< %s %s)' % (a.txt, b.txt), 'Bool')


def t_le(a, b):
    if a.val is not None and b.val is not None:
        return TRUE if a.val <= b.val else FALSE
    if a.txt == b.txt:
        return TRUE
    return _mk('(<= %s %s)' % (a.txt, b.txt), 'Bool')


def t_eq(a, b):
    if a.val is not None and b.val is not None:
        return TRUE if a.val == b.val else FALSE
    if a.txt == b.txt:
        return TRUE
    if a.sort == 'Bool':
        if a.val is not None:
            return b if a.val else t_not(b)
        if b.val is not None:
            return a if b.val else t_not(a)
    return _mk('(= %s %s)' % (a.txt, b.txt), 'Bool')


def t_not(a):
    if a.val is not None:
        return FALSE if a.val else TRUE
    if a.neg is not None:
        return a.neg
    r = T('(not %s)' % a.txt, 'Bool')
    r.neg = a
    return r


def t_and(*ts):
    out, seen = [], set()
    for t in ts:
        if t.val is not None:
            if not t.val:
                return FALSE
            continue
        if t.txt not in seen:
            seen.add(t.txt)
            out.append(t)
    if not out:
        return TRUE
    if B_len(out) == 1:
        return out[0]
    return _mk('(and %s)' % ' '.join([t.txt for t in out]), 'Bool')


def t_or(*ts):
    out, seen = [], set()
    for t in ts:
        if t.val is not None:
            if t.val:
                return TRUE
            continue
        if t.txt not in seen:
            seen.add(t.txt)
            out.append(t)
    if not out:
        return FALSE
    if B_len(out) == 1:
        return out[0]
    return _mk('(or %s)' % ' '.join([t.txt for t in out]), 'Bool')


def t_ite(c, a, b):
    if c.val is not None:
        return a if c.val else b
    if a.txt == b.txt:
        return a
    if a.sort == 'Bool' and a.val is not None and b.val is not None:
        return c if a.val else t_not(c)
    return _mk('(ite %s %s %s)' % (c.txt, a.txt, b.txt), a.sort)


def t_real(a):
    if a.sort == 'Real':
        return a
    if a.val is not None:
        return const(a.val, 'Real')
    return _mk('(to_real %s)' % a.txt, 'Real')


def t_floor(a):
    'floor of a Real, as an Int'
    if a.val is not None:
        return const(a.val.numerator // a.val.denominator)
    return _mk('(to_int %s)' % a.txt, 'Int')


def t_trunc(a):
    z = const(0, 'Real')
    return t_ite(t_le(z, a), t_floor(a), t_neg(t_floor(t_neg(a))))


# --------------------------------------------------------------------------
# Proxies
# --------------------------------------------------------------------------

def wrap(t):
    'a proxy for t, or the native value when t is a constant'
    if t.val is not None:
        if t.sort == 'Bool':
            return B_bool(t.val)
        if t.sort == 'Int':
            v = t.val
            return B_int(v)
        if t.sort == 'Real':
            f = B_float(t.val.numerator) / B_float(t.val.denominator) \
                if B_abs(t.val.numerator) < 2**1000 and t.val.denominator < 2**1000 else None
            if f is not None and Fraction(*f.as_integer_ratio()) == t.val:
                return f
            return SymReal(t)
        return t.val
    if t.sort == 'Bool':
        return SymBool(t)
    if t.sort == 'Int':
        return SymInt(t)
    if t.sort == 'Real':
        return SymReal(t)
    raise Unsupported('sort %s' % t.sort)


def is_sym(x):
    return B_isinstance(x, (SymBool, SymNum))


def num_term(x):
    'the Int or Real term of a number, or None'
    if B_isinstance(x, SymNum):
        return x.t
    if B_isinstance(x, SymBool):
        return t_ite(x.t, const(1), const(0))
    if B_isinstance(x, B_bool):
        return const(1 if x else 0)
    if B_isinstance(x, (B_int, B_long)):
        return const(x)
    if B_isinstance(x, Fraction):
        return const(x, 'Real')
    if B_isinstance(x, B_float):
        if x != x or x in (INF, -INF):
            return None
        return const(Fraction(*x.as_integer_ratio()), 'Real')
    return None


def bool_term(x):
    if B_isinstance(x, SymBool):
        return x.t
    if B_isinstance(x, SymNum):
        return t_not(t_eq(x.t, const(0, x.t.sort)))
    return TRUE if x else FALSE


def _pair(a, b):
    if a.sort == b.sort:
        return a, b
    return t_real(a), t_real(b)


def special(x):
    return B_isinstance(x, B_float) and (x != x or x in (INF, -INF))


class SymBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __nonzero__(self):
        return ENG.branch(self.t)

    __hash__ = None

    def __hash__(self):
        return hash(ENG.branch(self.t))

    def __and__(self, o):
        return wrap(t_and(self.t, bool_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrap(t_or(self.t, bool_term(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return wrap(t_not(t_eq(self.t, bool_term(o))))
    __rxor__ = __xor__

    def _num(self):
        return SymInt(num_term(self))

    def __eq__(self, o):
        if B_isinstance(o, (SymBool, B_bool)):
            return wrap(t_eq(self.t, bool_term(o)))
        return self._num() == o

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __neg__(self): return -self._num()
    def __int__(self): return 1 if ENG.branch(self.t) else 0
    def __index__(self): return 1 if ENG.branch(self.t) else 0
    def __long__(self): return 1L if ENG.branch(self.t) else 0L
    def __float__(self): return 1.0 if ENG.branch(self.t) else 0.0
    def __str__(self): return str(ENG.branch(self.t))
    def __repr__(self): return '<symbool>'
    def __format__(self, spec): return ENG.mark(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class SymNum(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __nonzero__(self):
        return ENG.branch(bool_term(self))

    def __hash__(self):
        return hash(ENG.concretise(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return ENG.mark(self)
    def __str__(self): return ENG.mark(self)
    def __format__(self, spec): return ENG.mark(self)

    def __getstate__(self):
        raise Unsupported('pickle')

    # arithmetic
    def _bin(self, o, f, rev=False):
        b = num_term(o)
        if b is None:
            return NotImplemented
        a = self.t
        if rev:
            a, b = b, a
        a, b = _pair(a, b)
        return wrap(f(a, b))

    def __add__(self, o):
        if special(o):
            return o
        return self._bin(o, t_add)

    def __radd__(self, o):
        if special(o):
            return o
        return self._bin(o, t_add, True)

    def __sub__(self, o):
        if special(o):
            return -o
        return self._bin(o, t_sub)

    def __rsub__(self, o):
        if special(o):
            return o
        return self._bin(o, t_sub, True)

    def __mul__(self, o):
        if B_isinstance(o, (list, str, tuple, unicode)):
            return o * ENG.concretise(self)
        if special(o):
            if self > 0:
                return o
            if self < 0:
                return -o
            return B_float('nan')
        return self._bin(o, t_mul)

    def __rmul__(self, o):
        if B_isinstance(o, (list, str, tuple, unicode)):
            return o * ENG.concretise(self)
        if special(o):
            return self.__mul__(o)
        return self._bin(o, t_mul, True)

    def __neg__(self):
        return wrap(t_neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        z = const(0, self.t.sort)
        return wrap(t_ite(t_le(z, self.t), self.t, t_neg(self.t)))

    def _div(self, a, b, floor):
        a, b = _pair(a, b)
        if ENG.branch(t_eq(b, const(0, b.sort))):
            raise ZeroDivisionError('division by zero')
        if a.sort == 'Int':
            return wrap(t_idiv(a, b))
        q = t_rdiv(a, b)
        if floor:
            q = t_real(t_floor(q))
        return wrap(q)

    def __div__(self, o):
        b = num_term(o)
        if special(o):
            return 0.0
        if b is None:
            return NotImplemented
        return self._div(self.t, b, False)

    def __rdiv__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._div(b, self.t, False)

    def __truediv__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._div(t_real(self.t), t_real(b), False)

    def __rtruediv__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._div(t_real(b), t_real(self.t), False)

    def __floordiv__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._div(self.t, b, True)

    def __rfloordiv__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._div(b, self.t, True)

    def _mod(self, a, b):
        a, b = _pair(a, b)
        if ENG.branch(t_eq(b, const(0, b.sort))):
            raise ZeroDivisionError('modulo by zero')
        if a.sort == 'Int':
            return wrap(t_imod(a, b))
        return wrap(t_sub(a, t_mul(b, t_real(t_floor(t_rdiv(a, b))))))

    def __mod__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._mod(self.t, b)

    def __rmod__(self, o):
        if B_isinstance(o, (str, unicode)):
            return o.replace('%d', '%s') % (ENG.mark(self),)
        b = num_term(o)
        if b is None:
            return NotImplemented
        return self._mod(b, self.t)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, m=None):
        if not B_isinstance(o, (B_int, B_long, B_float)) or o != B_int(o) or o < 0 or o > 8:
            raise Unsupported('pow')
        r = 1
        for _ in B_range(B_int(o)):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** ENG.concretise(self)

    def __lshift__(self, o):
        return self * (1 << B_int(o))

    def __rlshift__(self, o):
        return o << ENG.concretise(self)

    def __rshift__(self, o):
        return self // (1 << B_int(o))

    def __and__(self, o):
        if B_isinstance(o, (B_int, B_long)) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if B_isinstance(o, (B_bool, SymBool)):
            raise Unsupported('int & bool')
        return ENG.concretise(self) & o
    __rand__ = __and__

    # comparisons
    def _cmp(self, o, op):
        if B_isinstance(o, B_float) and o != o:
            return op == 'ne'
        if B_isinstance(o, B_float) and o == INF:
            return op in ('lt', 'le', 'ne')
        if B_isinstance(o, B_float) and o == -INF:
            return op in ('gt', 'ge', 'ne')
        b = num_term(o)
        if b is None:
            # Python 2 ordering: None < numbers < everything else
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            if o is None:
                return op in ('gt', 'ge')
            return op in ('lt', 'le')
        a, b = _pair(self.t, b)
        if op == 'lt':
            return wrap(t_lt(a, b))
        if op == 'le':
            return wrap(t_le(a, b))
        if op == 'gt':
            return wrap(t_lt(b, a))
        if op == 'ge':
            return wrap(t_le(b, a))
        if op == 'eq':
            return wrap(t_eq(a, b))
        return wrap(t_not(t_eq(a, b)))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def __index__(self):
        v = ENG.concretise(self)
        if B_isinstance(v, B_float):
            raise TypeError('float index')
        return v

    def __int__(self):
        return B_int(ENG.concretise(self))

    def __long__(self):
        return B_long(ENG.concretise(self))

    def __float__(self):
        return B_float(ENG.concretise(self))


class SymInt(SymNum):
    __slots__ = ()

    def bit_length(self):
        n = 0
        while True:
            if B_bool(B_abs(self) < (1 << n)):
                return n
            n += 1

    @property
    def numerator(self):
        return self

    @property
    def real(self):
        return self


class SymReal(SymNum):
    __slots__ = ()

    def is_integer(self):
        return wrap(t_eq(self.t, t_real(t_floor(self.t))))


class SymLog(SymReal):
    '''
    The logarithm of a positive number. It is compared to a constant c by
    comparing the number to base ** c, so that nothing is lost; anything else
    sees an uninterpreted, increasing function.
    '''
    __slots__ = ('arg', 'base', 'plain_t')

    def __init__(self, arg, base, plain):
        self.arg = arg
        self.base = base
        self.plain_t = plain

    @property
    def t(self):
        return self.plain_t()

    def _cmp(self, o, op):
        if (B_isinstance(o, (B_int, B_long, B_float)) and o == B_int(o) if not special(o) else False):
            k = const(Fraction(self.base) ** B_int(o), 'Real')
            a = t_real(self.arg)
            d = getattr(a, 'div', None)
            if d is not None:
                # num / den < k, without dividing
                (n, m) = (t_real(d[0]), d[1])
                m = t_real(m)
                z = const(0, 'Real')
                r = t_mul(k, m)
                lt = t_or(t_and(t_lt(z, m), t_lt(n, r)), t_and(t_lt(m, z), t_lt(r, n)))
                gt = t_or(t_and(t_lt(z, m), t_lt(r, n)), t_and(t_lt(m, z), t_lt(n, r)))
            else:
                lt, gt = t_lt(a, k), t_lt(k, a)
            return wrap({'lt': lt, 'gt': gt, 'le': t_not(gt), 'ge': t_not(lt),
                         'eq': t_and(t_not(lt), t_not(gt)), 'ne': t_or(lt, gt)}[op])
        return SymReal._cmp(self, o, op)


# --------------------------------------------------------------------------
# Logic helpers (no forking); they also work on concrete values
# --------------------------------------------------------------------------

def And(*xs):
    if B_len(xs) == 1 and B_isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return wrap(t_and(*[bool_term(x) for x in xs]))


def Or(*xs):
    if B_len(xs) == 1 and B_isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return wrap(t_or(*[bool_term(x) for x in xs]))


def Not(x):
    return wrap(t_not(bool_term(x)))


def Implies(a, b):
    return wrap(t_or(t_not(bool_term(a)), bool_term(b)))


def Iff(a, b):
    return wrap(t_eq(bool_term(a), bool_term(b)))


def Ite(c, a, b):
    c = bool_term(c)
    if c.val is not None:
        return a if c.val else b
    if B_isinstance(a, (B_bool, SymBool)) and B_isinstance(b, (B_bool, SymBool)):
        return wrap(t_ite(c, bool_term(a), bool_term(b)))
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        return a if ENG.branch(c) else b
    x, y = _pair(x, y)
    return wrap(t_ite(c, x, y))


def Max(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r


def Min(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x < r, x, r)
    return r


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


# --------------------------------------------------------------------------
# The solver process
# --------------------------------------------------------------------------

class Solver(object):
    def __init__(self, argv, timeout_ms):
        self.argv = argv
        self.timeout_ms = timeout_ms
        self.p = None
        self.queries = 0
        self.time = 0.0
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE)
        self.buf = []
        self.send('(set-option :print-success false)')
        if 'cvc5' in self.argv[0]:
            self.send('(set-logic ALL)')
        else:
            self.send('(set-option :timeout %d)' % self.timeout_ms)

    def send(self, s):
        self.buf.append(s)

    def flush(self):
        if self.buf:
            self.p.stdin.write('\n'.join(self.buf) + '\n')
            self.buf = []
        self.p.stdin.flush()

    def check(self):
        self.send('(check-sat)')
        t0 = _real_time()
        self.flush()
        line = self.p.stdout.readline().strip()
        self.time += _real_time() - t0
        self.queries += 1
        if line not in ('sat', 'unsat', 'unknown', 'timeout'):
            raise SolverError('solver said %r' % line)
        return 'unknown' if line == 'timeout' else line

    def get_value(self, txt):
        self.send('(get-value (%s))' % txt)
        self.flush()
        depth, out = 0, []
        instr = False
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise SolverError('solver closed')
            out.append(line)
            for ch in line:
                if ch == '"':
                    instr = not instr
                elif not instr and ch == '(':
                    depth += 1
                elif not instr and ch == ')':
                    depth -= 1
            if depth <= 0:
                break
        s = ' '.join(''.join(out).split())
        if s.startswith('(error'):
            raise SolverError(s)
        return _parse_value(s)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.terminate()
        except Exception:
            pass


def _tokens(s):
    return s.replace('(', ' ( ').replace(')', ' ) ').split()


def _parse(toks):
    t = toks.pop(0)
    if t == '(':
        out = []
        while toks[0] != ')':
            out.append(_parse(toks))
        toks.pop(0)
        return out
    return t


def _num_of(e):
    if B_isinstance(e, list):
        if e[0] == '-':
            if B_len(e) == 2:
                return -_num_of(e[1])
            return _num_of(e[1]) - _num_of(e[2])
        if e[0] == '/':
            return Fraction(_num_of(e[1])) / Fraction(_num_of(e[2]))
        if e[0] == 'to_real':
            return Fraction(_num_of(e[1]))
        raise SolverError('value %r' % (e,))
    if e == 'true':
        return True
    if e == 'false':
        return False
    if e.endswith('?'):
        raise SolverError('inexact value %r' % e)
    if '.' in e:
        return Fraction(e)
    return B_long(e)


def _parse_value(s):
    'the value in ((name value)) - the last element'
    e = _parse(_tokens(s))
    return _num_of(e[0][-1])


# --------------------------------------------------------------------------
# Exploration
# --------------------------------------------------------------------------

ENG = None
MAX_VIOLATIONS = 4


class Violation(object):
    def __init__(self, label, inputs, kind, detail=''):
        self.label = label
        self.inputs = inputs
        self.kind = kind
        self.detail = detail


class Engine(object):
    '''
    Explores all the feasible paths of harness(h).
    '''
    def __init__(self, solver_argv=('z3-new', '-in', '-smt2'),
                 query_timeout=20, max_paths=20000, wall=600,
                 second_argv=None, max_samples=6):
        self.solver = Solver(list(solver_argv), B_int(query_timeout * 1000))
        self.second = (Solver(list(second_argv), B_int(query_timeout * 1000))
                       if second_argv else None)
        self.max_paths = max_paths
        self.wall = wall
        self.max_samples = max_samples
        self.reset()

    def reset(self):
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.problems = []
        self.violations = {}
        self.reached = {}
        self.samples = []
        self.max_inputs = 0
        self.exhausted = False
        self.disagreements = 0

    # ---- per path state
    def _begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.known = {}
        self.inputs = []
        self.observed = []
        self.ndef = 0
        self.names = {}
        self.marks = []
        self.dead = None
        self.pc_dirty = False
        self.solver.send('(push 1)')
        if self.second:
            self.second.send('(push 1)')

    def _end(self):
        self.solver.send('(pop 1)')
        if self.second:
            self.second.send('(pop 1)')

    def emit(self, s):
        self.solver.send(s)
        if self.second:
            self.second.send(s)

    def define(self, txt, sort):
        self.ndef += 1
        name = 't!%d' % self.ndef
        self.emit('(define-fun %s () %s %s)' % (name, sort, txt))
        return name

    def assert_(self, t):
        if t.val is True:
            return
        self.emit('(assert %s)' % t.txt)
        self._learn(t)

    def _learn(self, t):
        self.known[t.txt] = True
        self.known[t_not(t).txt] = False

    def query(self, *ts):
        'satisfiability of the path condition and ts'
        for t in ts:
            if t.val is False:
                return 'unsat'
        s = self.solver
        s.send('(push 1)')
        for t in ts:
            if t.val is None:
                s.send('(assert %s)' % t.txt)
        r = s.check()
        s.send('(pop 1)')
        return r

    def guard(self):
        if self.dead is not None:
            raise PathEnd(self.dead)
        if _real_time() > self.deadline:
            self.exhausted = True
            self.die('out of time')

    def die(self, why):
        self.dead = why
        raise PathEnd(why)

    def branch(self, t):
        if t.val is not None:
            return t.val
        k = self.known.get(t.txt)
        if k is not None:
            return k
        self.guard()
        if self.pos < B_len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            v, forced = d[0], d[1]
        else:
            forced = False
            r = self.query(t)
            if r == 'unsat':
                v, forced = False, True
            else:
                r2 = self.query(t_not(t))
                if r2 == 'unsat':
                    v, forced = True, True
                else:
                    v = True
            self.decisions += 1
            if not forced:
                self.work.append(self.trace + [(False, False)])
            self.trace.append((v, forced))
            self.pos += 1
        c = t if v else t_not(t)
        if forced:
            self._learn(c)
        else:
            self.assert_(c)
        return v

    def concretise(self, x):
        '''
        The value of x on this path. Every feasible value is explored, each on
        a path of its own.
        '''
        if not is_sym(x):
            return x
        t = x.t
        while True:
            self.guard()
            if self.pos < B_len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                v, forced, val = d
            else:
                s = self.solver
                r = s.check()
                if r != 'sat':
                    if r == 'unsat':
                        self.die('infeasible')
                    self.problems.append('unknown while enumerating')
                    self.die('unknown while enumerating')
                val = s.get_value(t.txt)
                eq = t_eq(t, const(val, t.sort))
                r2 = self.query(t_not(eq))
                forced = (r2 == 'unsat')
                v = True
                self.decisions += 1
                if not forced:
                    self.work.append(self.trace + [(False, False, val)])
                self.trace.append((True, forced, val))
                self.pos += 1
            eq = t_eq(t, const(val, t.sort))
            if v:
                self.assert_(eq)
                return wrap(const(val, t.sort))
            self.assert_(t_not(eq))

    def mark(self, x):
        'a text that stands for the decimal rendering of x'
        self.marks.append(x)
        return '\x02%d\x03' % (B_len(self.marks) - 1)

    def unmark(self, s):
        'the proxy that s stands for, or None'
        s = s.strip()
        if B_len(s) > 2 and s[0] == '\x02' and s[-1] == '\x03':
            body = s[1:-1]
            if body.isdigit():
                return self.marks[B_int(body)]
        return None

    def assume(self, cond):
        t = bool_term(cond)
        if t.val is not None:
            if not t.val:
                self.die('assumption')
            return
        self.guard()
        self.assert_(t)
        if self.pos < B_len(self.prefix):
            return
        if self.query() == 'unsat':
            self.die('assumption')

    def check(self, cond, label, detail=''):
        self.guard()
        t = bool_term(cond)
        self.checks += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        # a prefix that is being re-executed was checked by its parent, up to
        # (but not including) its last decision
        if self.pos < B_len(self.prefix):
            if t.val is None:
                self.assert_(t)
            return
        if t.val is True:
            self.trivial += 1
            self.discharged += 1
            return
        if B_len(self.violations.get(label, ())) >= MAX_VIOLATIONS:
            self.assume(cond)
            return
        nt = t_not(t)
        s = self.solver
        s.send('(push 1)')
        if nt.val is None:
            s.send('(assert %s)' % nt.txt)
        r = s.check()
        if self.second and r != 'unknown':
            s2 = self.second
            s2.send('(push 1)')
            if nt.val is None:
                s2.send('(assert %s)' % nt.txt)
            r2 = s2.check()
            s2.send('(pop 1)')
            if r2 != 'unknown' and r2 != r:
                self.disagreements += 1
                self.problems.append('solvers disagree on %s' % label)
        if r == 'sat':
            inputs = self.model()
            s.send('(pop 1)')
            self.violations.setdefault(label, []).append(
                Violation(label, inputs, 'check', detail))
            if t.val is None:
                self.assume(cond)
            else:
                self.die('violated')
        elif r == 'unsat':
            s.send('(pop 1)')
            self.discharged += 1
            self.assert_(t)
        else:
            s.send('(pop 1)')
            self.problems.append('solver gave no answer on %s' % label)

    def model(self):
        """
        Input values that satisfy the current assertions. Real inputs are
        binary fractions when there is such a model, so that the floats of the
        replay are exact.
        """
        s = self.solver
        s.send('(push 1)')
        exact = False
        if any([scale for (_, _, scale) in self.inputs]):
            for name, t, scale in self.inputs:
                if scale:
                    s.send('(assert (is_int (* %d.0 %s)))' % (scale, t.txt))
            exact = s.check() == 'sat'
            if not exact:
                s.send('(pop 1)')
                s.send('(push 1)')
                s.check()
        else:
            s.check()
        out = {}
        for name, t, scale in self.inputs:
            v = s.get_value(t.txt)
            if t.sort == 'Real':
                v = [str(v.numerator), str(v.denominator)]
            elif t.sort == 'Bool':
                v = B_bool(v)
            else:
                v = str(v)
            out[name] = v
        # a sample's observations are evaluated in the same model
        self._last_eval = []
        for name, v in self.observed:
            self._last_eval.append([name, self._eval(v)])
        s.send('(pop 1)')
        return out

    # ---- inputs
    def fresh(self, name, sort, scale=None):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = name if n == 0 else '%s#%d' % (name, n)
        sym = '|i!%s|' % full
        self.emit('(declare-const %s %s)' % (sym, sort))
        t = T(sym, sort)
        self.inputs.append((full, t, scale))
        return t

    # ---- the main loop
    def explore(self, harness, h):
        global ENG
        ENG = self
        self.work = [[]]
        self.deadline = _real_time() + self.wall
        sample_at = 1
        while self.work:
            if self.paths + self.infeasible >= self.max_paths:
                self.exhausted = True
                break
            if _real_time() > self.deadline:
                self.exhausted = True
                break
            prefix = self.work.pop()
            self._begin(prefix)
            try:
                try:
                    h.begin()
                    harness(h)
                    if self.dead is not None:
                        raise PathEnd(self.dead)
                    self.paths += 1
                    self.reached['(path)'] = self.reached.get('(path)', 0) + 1
                    if self.paths == sample_at:
                        sample_at *= 3
                        self._sample()
                except SolverError:
                    raise
                except PathEnd:
                    if self.dead in ('infeasible', 'assumption'):
                        self.infeasible += 1
                    else:
                        self.paths += 1
                except Control:
                    raise
                except BaseException as e:
                    if self.dead is not None:
                        if self.dead in ('infeasible', 'assumption'):
                            self.infeasible += 1
                        else:
                            self.paths += 1
                    else:
                        self._crash(e)
                        self.paths += 1
            except SolverError as e:
                self.problems.append('solver error: %s' % (e,))
                self.exhausted = True
                break
            finally:
                h.end()
                self.max_inputs = B_max(self.max_inputs, B_len(self.inputs))
                self._end()
        ENG = None

    def _crash(self, e):
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%d %s' % (f[0].split('/')[-1], f[1], f[2])
                            for f in tb[-4:][::-1])
        label = 'no-exception'
        detail = '%s: %s at %s' % (B_type(e).__name__, str(e)[:200], where)
        if B_len(self.violations.get(label, ())) >= MAX_VIOLATIONS:
            return
        if B_isinstance(e, Unsupported):
            self.problems.append('not encoded: %s' % detail)
        s = self.solver
        r = s.check()
        if r == 'sat':
            self.violations.setdefault(label, []).append(
                Violation(label, self.model(), 'exception', detail))
        elif r == 'unknown':
            self.problems.append('solver gave no answer on an exception path')

    def _sample(self):
        if B_len(self.samples) >= self.max_samples or not self.inputs:
            return
        if self.solver.check() != 'sat':
            return
        inputs = self.model()
        self.samples.append({'inputs': inputs, 'observed': self._last_eval})

    def _eval(self, v):
        if is_sym(v):
            x = self.solver.get_value(v.t.txt)
            if B_isinstance(x, Fraction):
                return repr(B_float(x.numerator) / B_float(x.denominator)) if x.denominator != 1 else repr(B_float(x.numerator))
            if B_isinstance(x, B_bool):
                return repr(x)
            return str(x)
        if B_isinstance(v, (list, tuple)):
            return [self._eval(x) for x in v]
        if B_isinstance(v, dict):
            return [[str(k), self._eval(v[k])] for k in B_sorted(v)]
        return plain(v)


def plain(v):
    'a JSON-able rendering of a concrete value'
    if v is None:
        return 'None'
    if B_isinstance(v, B_bool):
        return repr(v)
    if B_isinstance(v, (B_int, B_long)):
        return str(v)
    if B_isinstance(v, B_float):
        return repr(v)
    if B_isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if B_isinstance(v, dict):
        return [[str(k), plain(v[k])] for k in B_sorted(v)]
    if B_isinstance(v, (set, frozenset)):
        return [plain(x) for x in B_sorted(v)]
    return str(v)


# --------------------------------------------------------------------------
# Replacements for builtins, installed in the globals of the modules under
# test while they are executed symbolically
# --------------------------------------------------------------------------

def s_unmark(x):
    if ENG is not None and B_isinstance(x, (str, unicode)) and '\x02' in x:
        m = ENG.unmark(x)
        if m is None:
            raise Unsupported('text with an embedded symbolic number: %r' % x)
        return m
    return x


def s_int(*a):
    if not a:
        return 0
    x = s_unmark(a[0])
    if B_isinstance(x, SymBool):
        return x._num()
    if B_isinstance(x, SymInt):
        return x
    if B_isinstance(x, SymReal):
        if B_isinstance(a[0], (str, unicode)):
            # int('1.5') is an error; int(1.5) is not
            raise ValueError('invalid literal for int() with base 10: (real)')
        return wrap(t_trunc(x.t))
    return B_int(*a)


def s_long(*a):
    if not a:
        return 0L
    x = s_unmark(a[0])
    if is_sym(x):
        return s_int(*a)
    return B_long(*a)


def s_float(*a):
    if not a:
        return 0.0
    x = s_unmark(a[0])
    if B_isinstance(x, SymReal):
        return x
    if B_isinstance(x, (SymBool, SymInt)):
        return wrap(t_real(num_term(x)))
    return B_float(*a)


def s_bool(*a):
    return B_bool(*a)


def s_round(x, n=0):
    if is_sym(x):
        t = t_real(num_term(x))
        if n != 0:
            scale = const(Fraction(10) ** n, 'Real')
            t = t_mul(t, scale)
        half = const(Fraction(1, 2), 'Real')
        z = const(0, 'Real')
        r = t_ite(t_le(z, t), t_floor(t_add(t, half)),
                  t_neg(t_floor(t_sub(half, t))))
        r = t_real(r)
        if n != 0:
            r = t_rdiv(r, scale)
        return wrap(r)
    return B_round(x, n) if n else B_round(x)


def s_abs(x):
    return B_abs(x)


def _minmax(f, sym_f):
    def g(*a, **kw):
        if B_len(a) == 1:
            xs = list(a[0])
        else:
            xs = list(a)
        if not kw and B_len(xs) > 1 and any([is_sym(x) for x in xs]) and \
                all([num_term(x) is not None for x in xs]):
            return sym_f(*xs)
        return f(xs, **kw)
    return g


s_min = _minmax(B_min, Min)
s_max = _minmax(B_max, Max)


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _types(c):
    if B_isinstance(c, tuple):
        out = []
        for x in c:
            out.extend(_types(x))
        return out
    return [TYPEMAP.get(c, c)] if not B_isinstance(c, list) else c


def s_isinstance(x, c):
    ts = _types(c)
    if B_isinstance(x, SymBool):
        return any([t in (B_bool, B_int, object) for t in ts])
    if B_isinstance(x, SymInt):
        return any([t in (B_int, B_long, object) for t in ts])
    if B_isinstance(x, SymReal):
        return any([t in (B_float, object) for t in ts])
    return B_isinstance(x, tuple(ts))


class _TypeProxy(object):
    pass


def s_type(*a):
    if B_len(a) == 1:
        x = a[0]
        if B_isinstance(x, SymBool):
            return B_bool
        if B_isinstance(x, SymInt):
            return s_int
        if B_isinstance(x, SymReal):
            return s_float
        t = B_type(x)
        return {B_int: s_int, B_long: s_long, B_float: s_float}.get(t, t)
    return B_type(*a)


def s_len(x):
    f = getattr(x, 'sx_len', None)
    if f is not None:
        return f()
    return B_len(x)


def _conc(x):
    return ENG.concretise(x) if is_sym(x) else x


def s_range(*a):
    return B_range(*[_conc(x) for x in a])


def s_xrange(*a):
    return B_xrange(*[_conc(x) for x in a])


def s_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return (a // b, a % b)
    return B_divmod(a, b)


def s_sorted(xs, *a, **kw):
    # insertion sort by truth tests: list.sort may call compare functions that
    # do not reach the proxies' rich comparisons
    xs = list(xs)
    if a or kw or not any([is_sym(x) for x in xs]):
        return B_sorted(xs, *a, **kw)
    out = []
    for x in xs:
        i = B_len(out)
        while i > 0 and B_bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


TYPEMAP = {s_int: B_int, s_long: B_long, s_float: B_float}

class SymSet(set):
    'a set that can be asked whether it contains a symbolic number'
    def __contains__(self, x):
        if not is_sym(x):
            return set.__contains__(self, x)
        xs = B_sorted([y for y in self if B_isinstance(y, (B_int, B_long)) or is_sym(y)
                       or B_isinstance(y, B_float)])
        runs = []
        for y in xs:
            if runs and B_isinstance(y, (B_int, B_long)) and y == runs[-1][1] + 1:
                runs[-1][1] = y
            else:
                runs.append([y, y])
        return True if Or([(x == a) if a == b and not B_isinstance(x, SymInt)
                           else And(x >= a, x <= b) for (a, b) in runs]) else False


TYPEMAP[SymSet] = set


def _symsets(d, put):
    for k in list(d):
        v = d[k]
        if B_type(v) in (set, frozenset) and v and \
                all([B_isinstance(y, (B_int, B_long)) for y in v]):
            put(k, SymSet(v))


OVERRIDES = {
    'set': SymSet, 'int': s_int, 'long': s_long, 'float': s_float, 'round': s_round,
    'min': s_min, 'max': s_max, 'sum': s_sum, 'isinstance': s_isinstance,
    'len': s_len, 'range': s_range, 'xrange': s_xrange, 'divmod': s_divmod,
    'sorted': s_sorted,
}


class JsonProxy(object):
    '''
    json, with symbolic numbers: a number is written as its mark, and a mark
    outside of a string is read as the number
    '''
    def __init__(self, mod):
        self.mod = mod

    def __getattr__(self, name):
        return getattr(self.mod, name)

    def _out(self, x):
        if is_sym(x):
            return '\x04' + ENG.mark(x)[1:-1] + '\x05'
        if B_isinstance(x, dict):
            out = x.__class__() if B_type(x) is not dict else {}
            for k in x:
                if is_sym(k):
                    raise Unsupported('symbolic key in json')
                out[k] = self._out(x[k])
            return out
        if B_isinstance(x, (list, tuple)):
            return [self._out(y) for y in x]
        return x

    def _in(self, x):
        if B_isinstance(x, dict):
            return dict([(k, self._in(x[k])) for k in x])
        if B_isinstance(x, list):
            return [self._in(y) for y in x]
        if B_isinstance(x, (str, unicode)) and x[:1] == '\x04':
            return ENG.marks[B_int(x[1:-1])]
        return x

    def dumps(self, obj, *a, **kw):
        s = self.mod.dumps(self._out(obj), *a, **kw)
        return re.sub(r'"\\u0004(\d+)\\u0005"', '\x02\\1\x03', s)

    def loads(self, s, *a, **kw):
        if is_sym(s):
            s = ENG.mark(s)
        s = re.sub('\x02(\\d+)\x03', r'"\\u0004\1\\u0005"', s)
        return self._in(self.mod.loads(s, *a, **kw))

    def dump(self, obj, f, *a, **kw):
        f.write(self.dumps(obj, *a, **kw))

    def load(self, f, *a, **kw):
        return self.loads(f.read(), *a, **kw)


def patch_module(mod):
    'install the overrides in a module, return what undo needs'
    saved = []
    for name in OVERRIDES:
        if name not in mod.__dict__:
            mod.__dict__[name] = OVERRIDES[name]
            saved.append(name)
    _symsets(mod.__dict__, mod.__dict__.__setitem__)
    for c in list(mod.__dict__.values()):
        if B_isinstance(c, B_type) and getattr(c, '__module__', None) == mod.__name__:
            _symsets(c.__dict__, lambda k, v: setattr(c, k, v))
    if mod.__dict__.get('json') is json:
        mod.__dict__['json'] = JsonProxy(json)
    for name in ('loads', 'dumps', 'load', 'dump'):
        if mod.__dict__.get(name) is getattr(json, name):
            mod.__dict__[name] = getattr(JsonProxy(json), name)
    return saved


def unpatch_module(mod, saved):
    for name in saved:
        del mod.__dict__[name]
