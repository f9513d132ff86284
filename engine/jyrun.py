# -*- coding: utf-8 -*-
'''
Worker, run by Jython.

  jyrun.py sym  PROPERTY TIER GROUP OUT   explore the harnesses of a group
  jyrun.py conc PROPERTY TIER IN OUT      run harnesses on recorded inputs
'''
import imp
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import sx
import hx
import env

MODE, PROP, TIER = sys.argv[1:4]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
SYMBOLIC = MODE == 'sym'
sys.setrecursionlimit(3000)

env.install(SYMBOLIC)


def load():
    path = os.path.join(os.path.dirname(HERE), 'props', PROP.lower() + '.py')
    sys.path.insert(0, os.path.dirname(path))
    m = imp.load_source('prop_' + PROP.lower(), path)
    return m


def patch_all():
    for name in list(sys.modules):
        m = sys.modules[name]
        if m is not None and (name == 'privcount' or name.startswith('privcount.')
                              or name.startswith('prop_') or name == 'common'):
            sx.patch_module(m)


def set_current(h):
    env.CUR[0] = h


def explore(hn):
    second = None
    if os.environ.get('VERIF_SECOND'):
        second = ['/usr/bin/cvc5', '--incremental', '--produce-models', '--lang', 'smt2',
                  '--tlimit-per=5000']
    eng = sx.Engine(query_timeout=hn.query_timeout, max_paths=hn.max_paths,
                    wall=hn.wall if TIER == 'quick' else hn.thorough_wall,
                    second_argv=second)
    h = hx.SymH(eng)
    h.tier = TIER
    h.begin_hooks.append(set_current)
    sx.NO_EXCEPTION = hn.no_exception
    eng.explore(hn.fn, h)
    eng.solver.close()
    if eng.second:
        eng.second.close()
    return eng


def run_sym(group, out):
    t0 = time.clock()
    load()
    patch_all()
    if os.environ.get('VERIF_PLAIN') and 'symdom' in sys.modules:
        sys.modules['symdom'].MODE['plain'] = True
    res = {'harnesses': [], 'load_s': time.clock() - t0}
    for hn in hx.REG:
        if hn.group != group or TIER not in hn.tiers:
            continue
        t1 = sx._real_time()
        eng = explore(hn)
        dom = sys.modules.get('symdom')
        plain = False
        if dom is not None:
            if dom.MODE['hit'] and not dom.MODE['plain']:
                dom.MODE['plain'] = plain = True
                eng = explore(hn)
                dom.MODE['plain'] = bool(os.environ.get('VERIF_PLAIN'))
            dom.MODE['hit'] = False
        missing = [c for c in hn.cover if not eng.reached.get(c)]
        res['harnesses'].append({
            'name': hn.name, 'bounds': (hn.bounds or (hn.fn.__doc__ or '').strip()) + (
                '; names of three texts only' if plain else ''),
            'paths': eng.paths, 'infeasible': eng.infeasible,
            'decisions': eng.decisions, 'checks': eng.checks,
            'discharged': eng.discharged, 'trivial': eng.trivial,
            'queries': eng.solver.queries, 'solver_s': round(eng.solver.time, 3),
            'second_queries': eng.second.queries if eng.second else 0,
            'disagreements': eng.disagreements,
            'wall_s': round(sx._real_time() - t1, 3),
            'inputs': eng.max_inputs, 'exhausted': eng.exhausted,
            'problems': eng.problems[:10], 'nproblems': len(eng.problems),
            'reached': eng.reached, 'missing': missing,
            'violations': [
                {'label': v.label, 'inputs': v.inputs, 'kind': v.kind, 'detail': v.detail}
                for vs in eng.violations.values() for v in vs],
            'samples': eng.samples})
    f = open(out, 'w')
    json.dump(res, f)
    f.close()


def run_conc(inp, out):
    load()
    f = open(inp)
    jobs = json.load(f)
    f.close()
    byname = dict([(x.name, x) for x in hx.REG])
    funcs = set()
    base = os.environ['VERIF_REPO'] + '/privcount/'

    def prof(frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(base) and frame.f_code.co_name not in ('<module>', '<lambda>'):
                funcs.add(fn[len(base):] + ':' + frame.f_code.co_name)

    results = []
    for job in jobs:
        hn = byname[job['harness']]
        h = hx.ConH(job['inputs'])
        h.tier = TIER
        h.begin_hooks.append(set_current)
        error = None
        sys.setprofile(prof if job.get('profile') else None)
        try:
            try:
                h.begin()
                hn.fn(h)
            except hx.AssumptionFailed:
                error = 'assumption'
            except BaseException as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                where = ' <- '.join(['%s:%d %s' % (x[0].split('/')[-1], x[1], x[2])
                                     for x in tb[-4:][::-1]])
                h.failed.append(('no-exception', '%s: %s at %s' % (
                    type(e).__name__, str(e)[:200], where)))
        finally:
            sys.setprofile(None)
            h.end()
        results.append({'harness': job['harness'], 'failed': h.failed,
                        'observed': h.observed, 'missing': h.missing, 'error': error,
                        'covered': h.covered})
    f = open(out, 'w')
    json.dump({'results': results, 'functions': sorted(funcs)}, f)
    f.close()


if MODE == 'sym':
    run_sym(sys.argv[4], sys.argv[5])
else:
    run_conc(sys.argv[4], sys.argv[5])
