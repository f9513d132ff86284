# -*- coding: utf-8 -*-
'''
Domain names over an unbounded set of components: a component is a number
that is only ever compared to other components, so that each way in which
components can be equal or different is one path, and stands for all the
names of that shape.  In concrete mode these are ordinary strings.

Code that does something else with a name (takes a part of its text, say)
cannot be followed that way.  Then the harness is explored again with names
made of TEXTS, of which each choice is one path (MODE['plain']).
'''
import sx

# one ends with another, so that code that forgets the dot is found out
TEXTS = ['a', 'ba', 'aba']
MODE = {'plain': False, 'hit': False}


def cannot(what):
    'the code under test needs ordinary strings'
    MODE['hit'] = True
    sx.ENG.max_paths = 0
    raise sx.Unsupported(what)


def unsupported(name):
    def f(self, *a):
        cannot('%s of a name' % name)
    return f


class Text(str):
    'a text of which only the methods below are known'
    def __new__(cls, *a):
        return str.__new__(cls, 'name')

    for m in ('__add__', '__contains__', '__getitem__', '__getslice__', '__iter__', '__mod__', '__mul__', '__lt__', '__le__', '__gt__',
              '__ge__', 'capitalize', 'center', 'count', 'expandtabs', 'find', 'index', 'isalnum', 'isalpha', 'isdigit', 'islower',
              'isspace', 'istitle', 'isupper', 'join', 'ljust', 'partition', 'replace', 'rfind', 'rindex', 'rjust', 'rpartition',
              'rsplit', 'splitlines', 'swapcase', 'title', 'translate', 'upper', 'zfill', 'split', 'encode', 'decode', 'endswith',
              'startswith'):
        locals()[m] = unsupported(m)


class Comp(Text):
    'a component of a name, not empty'
    def __init__(self, ident, upper):
        self.ident = ident
        self.upper = upper

    def __hash__(self):
        return 7

    def same(self, o):
        'a condition, not a decision'
        if not isinstance(o, Comp):
            return False
        return sx.And(self.ident == o.ident, self.upper == o.upper)

    def __eq__(self, o):
        return bool(self.same(o))

    def __ne__(self, o):
        return not self == o

    def __len__(self):
        return 2

    def lower(self):
        return Comp(self.ident, 0)

    def strip(self, *a):
        return self

    lstrip = rstrip = strip

    def __str__(self):
        return 'component'

    __repr__ = __str__

    def __format__(self, spec):
        return 'component'


class Dom(Text):
    'components, first to last, and whether there are dots at the ends'
    def __init__(self, comps, lead=False, trail=False):
        self.comps = comps
        self.lead = lead
        self.trail = trail

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if not isinstance(o, Dom) or len(self.comps) != len(o.comps):
            return False
        return bool(sx.And([a.same(b) for (a, b) in zip(self.comps, o.comps)] +
                           [sx.Iff(self.lead, o.lead), sx.Iff(self.trail, o.trail)]))

    def __ne__(self, o):
        return not self == o

    def __len__(self):
        return 3 * len(self.comps) - 1

    def lower(self):
        return Dom([c.lower() for c in self.comps], self.lead, self.trail)

    def strip(self, chars=None):
        if chars is None:
            return self
        if chars == '.':
            return Dom(self.comps)
        if set(chars) >= set('.abcdefghijklmnopqrstuvwxyz0123456789'):
            return ''
        cannot('strip %r' % (chars,))

    def split(self, sep=None, n=-1):
        if sep != '.' or n != -1:
            cannot('split %r' % (sep,))
        out = list(self.comps)
        if bool(self.lead):
            out = [''] + out
        if bool(self.trail):
            out = out + ['']
        return out

    def encode(self, *a):
        return self

    decode = encode

    def endswith(self, o):
        if isinstance(o, tuple):
            return any([self.endswith(x) for x in o])
        if isinstance(o, Dotted):
            n = len(o.dom.comps)
            return len(self.comps) > n and Dom(self.comps[-n:], False, self.trail) == o.dom
        if isinstance(o, Dom):
            cannot('endswith')
        if o == '.':
            return bool(self.trail)
        cannot('endswith %r' % (o,))

    def startswith(self, o):
        if isinstance(o, tuple):
            return any([self.startswith(x) for x in o])
        if o == '.':
            return bool(self.lead)
        if o in ('#', '//', ';'):
            return False
        cannot('startswith %r' % (o,))

    def __radd__(self, o):
        if o == '.' and not bool(self.lead):
            return Dotted(self)
        cannot('text + name')

    def __str__(self):
        return 'name'

    __repr__ = __str__

    def __format__(self, spec):
        return 'name'


class Dotted(object):
    'a dot before a name'
    def __init__(self, dom):
        self.dom = dom


def text(ident, upper):
    t = TEXTS[ident] if ident < len(TEXTS) else 'c%d' % ident
    return t.upper() if upper else t


def plain_name(h, tag, n, cases, dots):
    'a name of n of the texts: the first few may be any, a new one is the next; all names of lists are in one case'
    ids = []
    for i in range(n):
        many = h.scratch.get('many', 0)
        k = h.size('%s.%d' % (tag, i), 0, min(h.scratch.get('names', 0), 2 if many < 4 else 1))
        h.scratch['names'] = max(h.scratch.get('names', 0), k + 1)
        h.scratch['many'] = many + 1
        u = 0
        if cases:
            kind = 'host' if tag == 'host' else 'list'
            b = h.scratch.get(kind)
            u = h.scratch[kind] = h.size('%s.case%d' % (tag, i), b or 0, 1 if b is None else b)
        ids.append((k, u))
    return ids, h.flag(tag + '.lead') if dots else False, h.flag(tag + '.trail') if dots else False


def name(h, tag, n, cases=False, dots=False):
    'a name of n components, and its components as (number, whether upper case)'
    if h.sym and MODE['plain']:
        (ids, lead, trail) = plain_name(h, tag, n, cases, dots)
    else:
        ids = [(h.int('%s.%d' % (tag, i), 0, 10 ** 6), h.int('%s.case%d' % (tag, i), 0, 1) if cases else 0)
               for i in range(n)]
        lead = h.bool(tag + '.lead') if dots else False
        trail = h.bool(tag + '.trail') if dots else False
        if h.sym:
            return Dom([Comp(a, b) for (a, b) in ids], lead, trail), [a for (a, b) in ids]
    return ('.' if lead else '') + '.'.join([text(a, b) for (a, b) in ids]) + ('.' if trail else ''), [a for (a, b) in ids]


def is_suffix(h, short, long_):
    'the components of short end those of long_'
    if len(short) > len(long_):
        return False
    return h.And([a == b for (a, b) in zip(short, long_[len(long_) - len(short):])])


def equal(h, a, b):
    return len(a) == len(b) and is_suffix(h, a, b)
