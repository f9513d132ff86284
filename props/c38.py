# -*- coding: utf-8 -*-
'C38 what the logs say: periods, times, sizes and summaries'
from hx import harness
import privcount.log as L

UNITS = [('w', 604800), ('d', 86400), ('h', 3600), ('m', 60), ('s', 1)]


def period_of(h, text):
    'the number of seconds, as the text says, and whether it is well formed'
    neg = text.startswith('-')
    if neg:
        text = text[1:]
    parts = text.split(' ')
    units = [p[-1] for p in parts]
    order = [u for (u, n) in UNITS]
    h.check(units == order[len(order) - len(units):], 'the units in their order, down to the seconds', text)
    total = 0
    vals = [h.value_of(p[:-1]) for p in parts]
    for (i, (u, v)) in enumerate(zip(units, vals)):
        size = dict(UNITS)[u]
        total = total + v * size
        h.check(v >= 0, 'no negative parts')
        if u != 'w':
            h.check(v < {'d': 7, 'h': 24, 'm': 60, 's': 60}[u], 'no part exceeds the unit above it')
        if i == 0 and u != 's':
            h.check(v > 0, 'the first part is not zero')
    return (-total if neg else total), neg


def clocks(h):
    'dates are only passed on: which second they stand for is what matters'
    h.patch(L, 'gmtime', lambda t: t)
    h.patch(L, 'strftime', lambda fmt, t: 'date,' + h.text(t))


def close(h, a, b):
    'the same whole second'
    return h.And(a - b < 1, b - a < 1)


@harness(cover=['weeks', 'days', 'hours', 'minutes', 'seconds', 'negative'], bounds='any number of seconds within +-2^31, with fractions of 1/1024')
def periods(h):
    (n, f) = (h.int('seconds', 0, 2 ** 31), h.int('fraction', 0, 1023))
    minus = h.flag('negative')
    p = n + f / 1024.0 if h.flag('fractions') else n
    text = h.quiet('format', L.format_period, -p if minus else p)
    (got, neg) = period_of(h, text)
    h.check(got == (-n if minus else n), 'the period to the second, rounded towards zero')
    h.check(h.Iff(neg, minus and n > 0), 'with its sign')
    h.cover({'w': 'weeks', 'd': 'days', 'h': 'hours', 'm': 'minutes', 's': 'seconds'}[text.lstrip('-').split(' ')[0][-1]])
    if neg:
        h.cover('negative')


KINDS = ['elapsed wait', 'elapsed since', 'delay wait', 'delay until', 'between', 'last event', 'no event']


@harness(group='b', cover=KINDS, bounds='any times and periods up to 2^31, with fractions')
def moments(h):
    clocks(h)
    h.now = h.real('now', 0, 2 ** 31)
    kind = h.choice('kind', KINDS)
    h.cover(kind)
    if kind == 'no event':
        h.check(L.format_last_event_time_since(None) == 'no Tor events received', 'nothing was received')
        return
    x = h.real('x', 0, 2 ** 31)
    if kind == 'elapsed wait':
        (text, period, when) = (L.format_elapsed_time_wait(x, 'at'), x, h.now - x)
    elif kind == 'elapsed since':
        (text, period, when) = (L.format_elapsed_time_since(x, 'at'), h.now - x, x)
    elif kind == 'delay wait':
        (text, period, when) = (L.format_delay_time_wait(x, 'at'), x, h.now + x)
    elif kind == 'delay until':
        (text, period, when) = (L.format_delay_time_until(x, 'at'), x - h.now, x)
    elif kind == 'last event':
        (text, period, when) = (L.format_last_event_time_since(x), h.now - x, x)
        start = 'last Tor event was '
        h.check(text[:len(start)] == start, 'what it is about')
        text = text[len(start):]
    else:
        y = h.real('y', 0, 2 ** 31)
        text = L.format_interval_time_between(x, 'from', y)
        (head, tail) = text.split(' (from ')
        (got, neg) = period_of(h, head)
        (dates, stamps) = tail[:-1].split(', ')
        (a, b) = [h.value_of(d.split(',')[1]) for d in dates.split(' to ')]
        (c, d) = [h.value_of(s) for s in stamps.split(' to ')]
        h.check(h.And(a == c, b == d), 'dates and stamps are those of one time')
        h.check(h.And(close(h, a, x), close(h, b, y)), 'the begin and the end')
        h.check(got == b - a, 'the period is what lies between them')
        return
    (head, tail) = text.split(' (at ')
    (got, neg) = period_of(h, head)
    (date, stamp) = tail[:-1].split(' ')
    (a, b) = (h.value_of(date.split(',')[1]), h.value_of(stamp))
    h.check(a == b, 'date and stamp are those of one time')
    h.check(h.And(b - when < 2, when - b < 2), 'the time')
    h.check(h.And(got - period < 2, period - got < 2), 'the period')
    now = L.normalise_time(h.now)
    h.check(got == (b - now if kind.startswith('delay') else now - b), 'the time is the period before or after now')


@harness(group='b', cover=['B', 'kB', 'MB', 'GB'], bounds='any number of bytes up to 2^60')
def sizes(h):
    n = h.int('bytes', 0, 2 ** 60)
    seen = []

    class Format(object):
        pass
    want = 'B' if n < 1024 else 'kB' if n < 1024 ** 2 else 'MB' if n < 1024 ** 3 else 'GB'
    text = h.quiet('format', L.format_bytes, n)
    h.check(text.split(' ')[-1] == want, 'the unit')
    got = h.value_of(text.split(' ')[0])
    size = {'B': 1, 'kB': 1024, 'MB': 1024 ** 2, 'GB': 1024 ** 3}[want]
    h.check(h.And(20 * (got * size - n) <= size * 1.0001, 20 * (n - got * size) <= size * 1.0001), 'to one decimal')
    h.cover(want)


CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEF'


@harness(group='c', cover=['whole', 'cut', 'dots', 'none'], bounds='texts of up to 12 (thorough: 24) characters, all limits up to 12 (24), six kinds of ellipses')
def strings(h):
    top = 12 if h.tier == 'quick' else 24
    n = h.size('length', 0, top)
    m = h.size('limit', 0, top)
    dots = h.choice('ellipsis', ['...', '', None, '.', '....', '-----'])
    s = CHARS[:n]
    got = h.quiet('summarise', L.summarise_string, s, max_len=m, ellipsis=dots)
    e = dots or ''
    if n <= m:
        h.check(got == s, 'a short text is left as it is')
        h.cover('whole')
        return
    h.check(len(got) == m or (m == 0 and got == ''), 'a long one has the length of the limit')
    if m == 0:
        h.cover('none')
    elif len(e) >= m:
        h.check(got == e[:m], 'if there is no room for more, only the ellipsis')
        h.cover('dots')
    else:
        a = (m - len(e) + 1) // 2
        b = m - len(e) - a
        h.check(got == s[:a] + e + s[n - b:], 'its begin and its end')
        h.cover('cut')


@harness(group='c', cover=['empty', 'one', 'more', 'long'], bounds='lists of up to three texts of up to nine characters, and sorted or not, with limits from 1 to 9')
def lists(h):
    n = h.size('items', 0, 3)
    items = [CHARS[h.choice('first', [3, 0, 7]):][:h.choice('length', [1, 4, 9])] for i in range(n)]
    m = h.choice('limit', [1, 3, 4, 9])
    sort = h.flag('sort')
    before = list(items)
    got = h.quiet('summarise', L.summarise_list, items, max_obj_str_len=m, sort_output=sort)
    h.check(items == before, 'the list stays as it is')
    s = sorted(items) if sort else items
    h.check(got.startswith("'") and got.endswith("' (%d)" % n), 'the number of the items')
    inner = got[1:got.rindex("' (")]
    room = m if n == 1 else 2 * m + 4
    h.check(len(inner) <= (room if n else 0), 'no longer than the limit')
    if n == 0:
        h.cover('empty')
        return
    text = s[0] if n == 1 else s[0] + '....' + s[-1]
    if len(text) <= room:
        h.check(inner == text, 'the first and the last item')
        h.cover('one' if n == 1 else 'more')
    else:
        a = (room - 4 + 1) // 2
        h.check(inner == text[:a] + '....' + text[len(text) - (room - 4 - a):] if room > 4 else inner == '....'[:room], 'the begin and the end of them')
        h.cover('long')
