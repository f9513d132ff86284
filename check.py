#!/usr/bin/env python3
'''
check.py PROPERTY [--tier quick|thorough]      decide one property
check.py --replay FILE                         run one recorded counterexample

Environment: VERIF_REPO (default /repo) is the tree under test,
VERIF_JOBS the number of parallel workers.
'''
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
J = '/usr/share/java'


def jython(args, timeout):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
    env.update(JYTHONPATH='%s/stubs:/opt/jysite:%s' % (HERE, REPO),
               PYTHONDONTWRITEBYTECODE='1', PRIVCOUNT_DIRECTORY=REPO,
               LC_ALL='C.UTF-8', VERIF_REPO=REPO)
    cmd = ['/usr/bin/java', '-Xmx2500m', '-Xss8m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
           '-Djava.net.preferIPv4Stack=true',
           '-cp', ':'.join('%s/%s.jar' % (J, x) for x in ('jython', 'bcprov', 'bcpkix', 'bcutil')),
           '-Dpython.home=/usr/share/jython', '-Dpython.executable=/usr/bin/jython',
           '-Dpython.cachedir.skip=true', 'org.python.util.jython', '-B',
           HERE + '/engine/jyrun.py'] + args
    p = subprocess.Popen(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timed out after %d s' % timeout
    return p.returncode, out.decode('utf-8', 'replace')


def groups_of(prop, tier):
    'the worker groups of a property, read from its harness file'
    src = open('%s/props/%s.py' % (HERE, prop.lower())).read()
    gs = set(re.findall(r"group='([^']+)'", src))
    if re.search(r'@harness\((?![^)]*group=)', src, re.S):
        gs.add('a')
    return sorted(gs)


def known_findings(prop):
    'the lines "known: ..." of the property; the lines "fixed: ..." suppress nothing'
    out = []
    path = HERE + '/known_findings.txt'
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out.append({'harness': m.group(2), 'label': m.group(3), 'what': m.group(4).strip()})
    return out


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a == b:
        return True
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        if {str(a), str(b)} in ({'True', '1'}, {'False', '0'}):
            return True
        return False
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)) or (x != x and y != y)


def run_conc(prop, tier, jobs, tmp, tag):
    src, dst = '%s/%s.in' % (tmp, tag), '%s/%s.out' % (tmp, tag)
    json.dump(jobs, open(src, 'w'))
    rc, out = jython(['conc', prop, tier, src, dst], 300)
    if rc != 0 or not os.path.exists(dst):
        return None, out
    return json.load(open(dst)), out


def replay_file(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        res, out = run_conc(d['property'], d['tier'], [
            {'harness': d['harness'], 'inputs': d['inputs']}], tmp, 'r')
    finally:
        shutil.rmtree(tmp)
    if res is None:
        print(out)
        return 2
    r = res['results'][0]
    for label, detail in r['failed']:
        print('FAILED %s %s' % (label, detail))
    for o in r['observed']:
        print('observed', o)
    return 1 if any(x[0] == d['label'] for x in r['failed']) else 0


def setup():
    'nothing is built: the checks run the modules of the tree under test from source'
    missing = [x for x in ('/usr/bin/java', '/usr/local/bin/z3-new', J + '/jython.jar',
                           REPO + '/privcount/counter.py') if not os.path.exists(x)]
    for x in missing:
        print('missing: ' + x)
    return 1 if missing else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=None, choices=('quick', 'thorough'))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--setup', action='store_true', help='see that the tools are there')
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        return replay_file(a.replay)
    prop = a.property
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(HERE + '/evidence', exist_ok=True)
    evidence = '%s/evidence/%s.json' % (HERE, prop)
    if os.path.exists(evidence):
        os.remove(evidence)
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        return decide(prop, tier, seed, t0, evidence, tmp, a.v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, t0, evidence, tmp, verbose):
    groups = groups_of(prop, tier)
    limit = 840 if tier == 'quick' else 7200
    jobs = int(os.environ.get('VERIF_JOBS', '4'))

    def work(g):
        out = '%s/sym-%s.json' % (tmp, g)
        rc, txt = jython(['sym', prop, tier, g, out], limit)
        if rc != 0 or not os.path.exists(out):
            return g, None, txt
        return g, json.load(open(out)), txt

    with ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(work, groups))
    hs, problems = [], []
    for g, res, txt in outs:
        if verbose and txt.strip():
            print(txt)
        if res is None:
            problems.append('worker %s failed: %s' % (g, txt[-1500:]))
        else:
            hs.extend(res['harnesses'])
    for x in hs:
        x['problems'] = ['%s: %s' % (x['name'], p) for p in x['problems']]
        problems.extend(x['problems'])
        if x['exhausted']:
            problems.append('%s: exploration stopped before it was complete '
                            '(%d paths, %.0f s)' % (x['name'], x['paths'], x['wall_s']))
        if x['paths'] == 0:
            problems.append('%s: no feasible path (vacuous)' % x['name'])
        if x['checks'] == 0:
            problems.append('%s: no obligation was reached (vacuous)' % x['name'])
        if x['missing'] and not x['violations']:
            problems.append('%s: never reached %s (vacuous)' % (x['name'], x['missing']))

    # replay every counterexample, and a sample of the paths, on the real code
    todo = []
    for x in hs:
        for v in x['violations']:
            todo.append({'kind': 'violation', 'harness': x['name'], 'inputs': v['inputs'],
                         'label': v['label'], 'detail': v['detail']})
        for s in x['samples']:
            todo.append({'kind': 'sample', 'harness': x['name'], 'inputs': s['inputs'],
                         'observed': s['observed'], 'profile': True})
    confirmed, unconfirmed, validated, functions, samples = [], [], 0, [], []
    known_hit = {}
    known = known_findings(prop)
    if todo:
        res, txt = run_conc(prop, tier, todo, tmp, 'conc')
        if res is None:
            problems.append('replay failed: %s' % txt[-1500:])
        else:
            functions = res['functions']
            for job, r in zip(todo, res['results']):
                if job['kind'] == 'violation':
                    hit = [f for f in r['failed'] if f[0] == job['label']] or r['failed']
                    if hit:
                        job['label'], job['replayed'] = hit[0][0], hit[0][1]
                        k = [e for e in known if e['label'] == job['label']
                             and e['harness'] == job['harness']]
                        if k:
                            known_hit.setdefault(k[0]['what'], job)
                        else:
                            confirmed.append(job)
                    else:
                        unconfirmed.append((job, r))
                else:
                    if r['error'] or r['missing']:
                        problems.append('%s: sampled path not followed by the real code: %s %s'
                                        % (job['harness'], r['error'], r['missing']))
                    elif not same(job['observed'], r['observed']):
                        problems.append('%s: the real code computes %s where the encoding '
                                        'says %s, for %s' % (job['harness'], r['observed'],
                                                             job['observed'], job['inputs']))
                    else:
                        validated += 1
                        if len(samples) < 8 and job['observed']:
                            samples.append({'harness': job['harness'], 'inputs': job['inputs'],
                                            'observed': r['observed']})
                    if r['failed']:
                        # the real code breaks the property on a sampled input
                        job['label'], job['replayed'] = r['failed'][0]
                        job['detail'] = 'found when validating a sampled path'
                        confirmed.append(job)
    for job, r in unconfirmed:
        if not any(c['harness'] == job['harness'] and c['label'] == job['label']
                   for c in confirmed):
            problems.append('%s: the counterexample for %s does not reproduce on the real code '
                            '(%s) %s -> %s' % (job['harness'], job['label'], job['detail'],
                                               json.dumps(job['inputs'])[:600], r['error']))

    cov = {
        'states': sum(x['paths'] for x in hs),
        'transitions': sum(x['decisions'] for x in hs),
        'traces_validated_against_impl': validated,
        'samples': samples or [{'note': 'no sample'}],
        'obligations': sum(x['checks'] for x in hs),
        'discharged': sum(x['discharged'] for x in hs),
        'discharged_by_constant_folding': sum(x['trivial'] for x in hs),
        'smt_queries': sum(x['queries'] for x in hs),
        'solver_seconds': round(sum(x['solver_s'] for x in hs), 3),
        'second_solver_queries': sum(x['second_queries'] for x in hs),
        'solver': 'z3-new (z3 5.3.2), SMT-LIB over a pipe',
        'functions_executed': functions,
        'bounds': {x['name']: x['bounds'] for x in hs},
        'harnesses': [{k: x[k] for k in (
            'name', 'paths', 'infeasible', 'decisions', 'checks', 'discharged', 'queries',
            'solver_s', 'wall_s', 'inputs', 'reached', 'exhausted')} for x in hs],
        'exhaustive': not problems,
        'inconclusive': problems[:20],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed),
          'assumptions': [
              'Python floats are encoded as real numbers; inputs are binary fractions that '
              'floats represent exactly',
              'clock, randomness, network, TLS and cryptographic primitives are stubs that '
              'return arbitrary values within their documented contract',
              'the runtime is Jython 2.7; the bounds are those listed under coverage.bounds']}
    json.dump(ev, open(evidence, 'w'), indent=1)
    if verbose:
        for x in hs:
            print('   %-32s paths %5d inf %4d checks %5d (%d trivial) queries %6d solver %.1f wall %.1f %s' % (
                x['name'], x['paths'], x['infeasible'], x['checks'], x['trivial'], x['queries'],
                x['solver_s'], x['wall_s'], x['reached']))
    for what in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if confirmed:
        os.makedirs(HERE + '/replays', exist_ok=True)
        seen = set()
        for c in confirmed:
            key = (c['harness'], c['label'])
            if key in seen:
                continue
            seen.add(key)
            name = '%s/replays/%s-%s-%s.json' % (
                HERE, prop, c['harness'], re.sub(r'[^A-Za-z0-9]+', '_', c['label'])[:60])
            json.dump({'property': prop, 'tier': tier, 'harness': c['harness'],
                       'label': c['label'], 'inputs': c['inputs'],
                       'detail': c.get('replayed') or c.get('detail'),
                       'run': 'python3 check.py --replay ' + name}, open(name, 'w'), indent=1)
            print('%s: %s: %s %s\n  inputs %s' % (prop, c['harness'], c['label'],
                                                  c.get('replayed') or c.get('detail') or '',
                                                  json.dumps(c['inputs'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, name))
        return 1
    if problems:
        for p in problems[:20]:
            print('INCONCLUSIVE %s: %s' % (prop, p))
        return 2
    print('%s held: %d harnesses, %d paths, %d obligations (%d by the solver), %d queries, '
          '%.1f s in the solver, %d paths validated, %.0f s' % (
              prop, len(hs), cov['states'], cov['obligations'],
              cov['discharged'] - cov['discharged_by_constant_folding'], cov['smt_queries'],
              cov['solver_seconds'], validated, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
