# -*- coding: utf-8 -*-
'C36 match lists: what is in the files, and every change of them'
from copy import deepcopy
import os
from hx import harness
from common import plain_logs, INF
from symdom import name, is_suffix, equal
import privcount.match as M
import privcount.tally_server as T


class Files(object):
    'files by path'
    def __init__(self, h):
        self.lines = {}
        fs = self

        class File(object):
            def __init__(self, lines):
                self.lines = lines

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def __iter__(self):
                return iter(self.lines)

            def readlines(self):
                return list(self.lines)

        class Path(object):
            def exists(self, p):
                return p in fs.lines

            isfile = exists

            def __getattr__(self, n):
                return getattr(os.path, n)

        class Os(object):
            path = Path()

            def __getattr__(self, n):
                return getattr(os, n)

        M.open = open
        h.patch(M, 'open', lambda p, mode='r': File(fs.lines[p]))
        h.patch(M, 'os', Os())


def start(h):
    plain_logs(h)
    h.patch(M, 'json_serialise', lambda x: '')
    return Files(h)


DOMAINS = 'ExitDomainExactMatchStreamCountList'
SUFFIXES = 'ExitDomainSuffixMatchStreamCountList'
OTHER = 'ExitStreamCount'


def config(paths):
    c = {'counters': {DOMAINS: {'bins': []}, SUFFIXES: {'bins': [[0.0, 7.0], [7.0, INF]]}, OTHER: {'bins': [[0.0, INF]]}}}
    if paths is not None:
        c['domain_files'] = list(paths)
    return c


def load(h, old, paths, reject):
    c = config(paths)
    (got, e) = h.call(T.TallyServer.load_match_config, old, c, 'domain_files', 'domain_lists', check_domain=True,
                      counter_filter=lambda n: n.startswith('ExitDomain') and n.endswith('CountList'),
                      exacts_key='domain_exacts', suffixes_key='domain_suffixes', suffix_separator='.', reject_overlapping_lists=reject)
    return c, e


def wanted_exact(h, lists, host):
    hits = [i for (i, l) in enumerate(lists) for d in l if equal(h, d, host)]
    return hits[:1]


def wanted_suffix(h, lists, host):
    hits = [(len(d), i) for (i, l) in enumerate(lists) for d in l if is_suffix(h, d, host)]
    return min(hits)[1] if hits else None


def overlap(h, lists):
    'an entry of one list is an end of, or the same as, an entry of another'
    for (i, a) in enumerate(lists):
        for (j, b) in enumerate(lists):
            if i != j and [1 for x in a for y in b if is_suffix(h, x, y)]:
                return True
    return False


def judge(h, c, lists, host, hid):
    exacts = [i for (i, s) in enumerate(c['domain_exacts']) if h.quiet('exact', M.exact_match, s, host)]
    h.check(exacts == wanted_exact(h, lists, hid), 'the exact lists are those in the files')
    got = h.quiet('suffix', M.suffix_match, c['domain_suffixes'], host, separator='.')
    want = wanted_suffix(h, lists, hid)
    h.check(got == want and (got is None) == (want is None), 'the suffix lists are those in the files')
    h.check(len(c['domain_exacts']) == len(lists), 'one list for each file')
    n = float(len(lists))
    bins = [[i, i + 1.0] for i in map(float, range(len(lists)))] + [[n, INF]]
    if lists:
        h.check(c['counters'][DOMAINS]['bins'] == bins and c['counters'][SUFFIXES]['bins'] == bins, 'a bin for each list, and one for the rest')
    h.check(c['counters'][OTHER]['bins'] == [[0.0, INF]], 'other counters keep their bins')


EDITS = ['nothing', 'swap', 'drop first', 'drop last', 'drop all', 'new line', 'other line', 'line removed', 'new file', 'moved', 'contents swapped']


@harness(cover=EDITS + ['loaded'], bounds='two files of one or two names, and one of %d edits of the files or their order; any names, '
         'of up to two components, and any name to find' % len(EDITS))
def changes(h):
    fs = start(h)
    shape = h.choice('shape', [[[1], [2]], [[2], [1]], [[2], [2, 2]]] if h.tier != 'quick' else [[[1], [2]], [[2], [2]]])
    names = [[name(h, 'file%d' % i, n) for n in s] for (i, s) in enumerate(shape)]
    (a, b) = ['/x/list-a', '/x/list-b']
    content = {a: names[0], b: names[1]}

    def save():
        fs.lines = dict([(p, [x[0] for x in content[p]]) for p in content])

    def ids(paths):
        return [[x[1] for x in content[p]] for p in paths or []]
    save()
    paths = [a, b]
    (old, e) = load(h, None, paths, False)
    h.check(e is None, 'names are accepted', repr(e))
    edit = h.choice('edit', EDITS)
    h.cover(edit)
    if edit == 'swap':
        paths = [b, a]
    elif edit == 'drop first':
        paths = [b]
    elif edit == 'drop last':
        paths = [a]
    elif edit == 'drop all':
        paths = None
    elif edit in ('new line', 'other line'):
        new = name(h, 'new', h.choice('new.parts', [1, 2]))
        content[b] = content[b] + [new] if edit == 'new line' else content[b][:-1] + [new]
    elif edit == 'line removed':
        content[b] = content[b][:-1] or [content[a][0]]
    elif edit == 'new file':
        content['/x/c'] = [name(h, 'new', 1)]
        paths = paths + ['/x/c'] if h.flag('last') else ['/x/c'] + paths
    elif edit == 'moved':
        content['/x/c'] = content.pop(b)
        paths = [a, '/x/c']
    elif edit == 'contents swapped':
        (content[a], content[b]) = (content[b], content[a])
    save()
    (c, e) = load(h, old, paths, False)
    h.check(e is None, 'names are accepted again', repr(e))
    (host, hid) = name(h, 'host', h.choice('parts', [1, 2] if h.tier == 'quick' else [1, 2, 3]))
    judge(h, c, ids(paths), host, hid)
    if paths:
        h.check(c['domain_files'] == paths, 'the paths are kept')
    h.cover('loaded')


@harness(group='b', cover=['accepted', 'refused'], bounds='two or three files of one or two names, any names of up to two components; loaded '
         'for the first time and again with the other setting')
def overlaps(h):
    fs = start(h)
    shape = h.choice('shape', [[[1], [2]], [[2, 1], [2]], [[2], [2]], [[1], [2], [1]]])
    names = [[name(h, 'file%d' % i, n, cases=True) for n in s] for (i, s) in enumerate(shape)]
    paths = ['/x/%d' % i for i in range(len(shape))]
    fs.lines = dict([(p, [x[0] for x in l]) for (p, l) in zip(paths, names)])
    lists = [[x[1] for x in l] for l in names]
    (c, e) = load(h, None, paths, True)
    both = overlap(h, lists)
    h.check((e is not None) == both, 'lists that overlap are refused, and no others')
    old = None
    if e is None:
        (host, hid) = name(h, 'host', h.choice('parts', [1, 2]))
        judge(h, c, lists, host, hid)
    else:
        (old, e) = load(h, None, paths, False)
        h.check(e is None, 'or their overlaps are removed')
        (c, e) = load(h, old, paths, True)
        h.check(e is not None, 'they are refused even if they were loaded before')
    h.cover('refused' if both else 'accepted')


KINDS = {
    'check_domain': (lambda x: all([c in '.-_abcdefghijklmnopqrstuvwxyz0123456789' for c in x.lower()]), lambda x: x.lower().strip('.')),
    'check_country': (lambda x: x in ('??', '!!') or (len(x) == 2 and x.isalnum()), lambda x: x.lower()),
    'check_as': (lambda x: number(x), lambda x: int(x)),
    'check_reason': (lambda x: x.isalnum(), lambda x: x.lower()),
}


def number(x):
    return x.isdigit() and int(x) > 0


@harness(group='c', cover=sorted(KINDS) + ['entry', 'comment', 'refused', 'empty'], bounds='lines of up to three (thorough: four) characters of an alphabet, '
         'after and before white space, and lines of other kinds around it')
def lines(h):
    fs = start(h)
    kind = h.choice('kind', sorted(KINDS))
    alphabet = {'check_domain': 'aZ.-#/ ', 'check_country': 'aZ7?!; ', 'check_as': '0-71a ', 'check_reason': 'aZ9_/; '}[kind]
    n = h.choice('length', [0, 1, 2, 3] if h.tier == 'quick' else [0, 1, 2, 3, 4])
    text = ''.join([alphabet[h.choice('c%d' % i, range(len(alphabet)))] for i in range(n)])
    h.assume(text.count('-') < 2 or kind != 'check_as')       # Jython reads two signs
    good = {'check_domain': 'Good.Example', 'check_country': 'Us', 'check_as': '17', 'check_reason': 'Other'}[kind]
    fs.lines = {'/x/l': ['# comment\n', '  \t\n', '%s  \r\n' % good, '  ' + text + ' \n', '// other\n', ';\n', good]}
    (got, e) = h.call(M.load_match_list, '/x/l', **{kind: True})
    (valid, norm) = KINDS[kind]
    line = text.strip()
    h.cover(kind)
    comment = line == '' or line[0] in '#;' or line[:2] == '//'
    if comment or valid(line):
        want = [norm(good)] + ([] if comment else [norm(line)]) + [norm(good)]
        h.check(e is None and got == ('/x/l', want), 'the entries of the file, in their order', repr((text, got, e)))
        h.cover('empty' if line == '' else 'comment' if comment else 'entry')
    else:
        h.check(e is not None, 'what is no entry is refused', repr(text))
        h.cover('refused')


@harness(group='c', cover=['address', 'digest', 'refused'], bounds='onion addresses and digests in URLs and names, of right and wrong lengths and characters')
def onion_lines(h):
    fs = start(h)
    core = h.choice('core', ['abcdefghijklmno2', 'ABCDEFGHIJKLMNO2', 'a' * 15, 'a' * 17, 'abcdefghijklmn1o', '0123456789abcdef' * 2, '0123456789ABCDEF' * 2,
                             'a' * 31, 'g' * 32, '3g2upl4pq6kufc4m', '1234567890123456'])
    before = h.choice('before', ['', 'http://', 'https://www.', 'a.b.', ' '])
    after = h.choice('after', ['', '.onion', '.onion/', '.onion/path/x.html', '/', '/.onion/x'])
    fs.lines = {'/x/l': [before + core + after + '\n']}
    (got, e) = h.call(M.load_match_list, '/x/l', check_onion=True)
    low = core.lower()
    ok = (len(low) == 16 and not low.strip('abcdefghijklmnopqrstuvwxyz234567')) or (len(low) == 32 and not low.strip('0123456789abcdef'))
    h.cover('refused' if not ok else 'address' if len(low) == 16 else 'digest')
    if ok:
        h.check(e is None and got[1] == [low], 'the address itself', repr((before + core + after, got, e)))
    else:
        h.check(e is not None, 'what is no address is refused', core)


@harness(group='c', cover=['loaded', 'refused'], bounds='zero to two prefix files with up to two lines, loaded again after an edit')
def prefixes(h):
    fs = start(h)
    seen = []
    h.patch(T, 'ipasn_prefix_match_prepare_string', lambda s: seen.append(s))
    T_load = T.TallyServer.load_as_prefix_config
    four = ['10.0.0.0/8\t7', '# none', ' 11.0.0.0/8\t8 '][:h.choice('four', [0, 1, 3])]
    six = ['fd00::/8\t9', ''][:h.choice('six', [0, 1, 2])]
    fs.lines = {'/x/4': four, '/x/6': six, '/x/5': ['12.0.0.0/8\t9']}
    which = h.choice('files', [(), (4,), (6,), (4, 6)])
    ok = which == () or (which == (4, 6) and four and six)

    def new():
        return dict([('as_prefix_files', dict([(v, '/x/%d' % v) for v in which]))] if which else [])
    c = new()
    (got, e) = h.call(T_load, None, c, 'as_prefix_files', old_processed_config={}, new_processed_config=c, maps_key='prefix_maps')
    h.check((e is None) == bool(ok), 'both or neither', repr(e))
    h.cover('loaded' if ok else 'refused')
    if not ok:
        return
    maps = {4: '\n'.join([x.strip() for x in four if x[0] != '#']), 6: six and six[0]} if which else {}
    h.check(c['prefix_maps'] == maps, 'the lines of the files')
    h.check(sorted(seen) == sorted(maps.values()), 'which are parsed')
    if which:
        edit = h.choice('edit', ['nothing', 'content', 'path', 'gone'])
        d = new()
        if edit == 'content':
            fs.lines['/x/4'] = ['12.0.0.0/8\t9']
        elif edit == 'path':
            d['as_prefix_files'][4] = '/x/5'
        elif edit == 'gone':
            del fs.lines['/x/6']
        (got, e) = h.call(T_load, c, d, 'as_prefix_files', old_processed_config=c, new_processed_config=d, maps_key='prefix_maps')
        h.check((e is None) == (edit != 'gone'), 'a missing file is refused')
        if edit in ('content', 'path'):
            maps[4] = '12.0.0.0/8\t9'
        if e is None:
            h.check(d['prefix_maps'] == maps, 'the lines of the files as they are now')
