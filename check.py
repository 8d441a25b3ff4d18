#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--tier quick|thorough] [--seed N]
Replay a failure:        check.py C01 --replay FILE
Exit 0: held; 1: violated (VIOLATION line); 3: no answer."""
import argparse
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jv.boot import PYTHON, child_env, boot  # noqa

JOB_TIMEOUT = int(os.environ.get('JV_JOB_TIMEOUT', '0'))


def worker(args, timeout):
    proc = subprocess.Popen([PYTHON, '-m', 'jv.core'] + args, cwd=HERE, env=child_env(),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            start_new_session=True)
    try:
        out, err = proc.communicate(timeout=timeout)
        return proc.returncode, out.decode(errors='replace'), err.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.communicate()
        return -1, '', 'timeout after %ss' % timeout


def replay(path, timeout=300):
    return worker(['replay', path], timeout)


def read_findings(pid):
    """Known findings of this property: (replay path, description)."""
    path = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                case, what = rest.split(' ', 1)
                res.append((os.path.join(HERE, case.split('=', 1)[1]), what))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('JV_SCALE') or 1))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.selftest:
        # Everything the checks need is importable, and every check loads.
        boot()
        from jv.core import load_prop
        names = [n[:-3].upper() for n in sorted(os.listdir(os.path.join(HERE, 'jv', 'props')))
                 if n[0] == 'c' and n.endswith('.py')]
        for n in names:
            assert load_prop(n).id == n
        print('selftest: %d checks load' % len(names))
        return 0
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()

    if a.replay:
        rc, out, err = replay(a.replay)
        print(out, end='')
        if rc == 1:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        if rc != 0:
            print(err, file=sys.stderr)
            return 3
        print('replay: the property holds on this case')
        return 0

    boot()
    from jv.core import canon, derive_seed, load_prop
    prop = load_prop(pid)
    tmp = tempfile.mkdtemp(prefix='jv-')
    jobs = []
    for f in prop.facets:
        if a.facet and f.name != a.facet:
            continue
        total = f.quick if tier == 'quick' else f.thorough
        shards = f.shards if tier == 'quick' else f.tshards
        total = max(shards, int(total * a.scale))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            jobs.append((f, s, n))
    # biggest first: shorter makespan
    jobs.sort(key=lambda j: -j[2])
    timeout = JOB_TIMEOUT or (780 if tier == 'quick' else 12 * 3600)
    results, errors, failures = [], [], []
    stop = []

    def run(job):
        f, s, n = job
        if stop:
            return None
        sd = derive_seed(a.seed, pid, f.name, s, tier)
        out = os.path.join(tmp, '%s-%d.json' % (f.name, s))
        left = timeout - (time.time() - t0)
        rc, so, se = worker(['search', pid, f.name, str(sd), str(n), out], max(5, left))
        if rc != 0 or not os.path.exists(out):
            return {'facet': f.name, 'seed': sd, 'n': n, 'stats': None, 'failure': None,
                    'error': 'worker exit %s\n%s\n%s' % (rc, so[-2000:], se[-4000:])}
        res = json.load(open(out))
        if res['failure']:
            stop.append(1)
        return res

    try:
        findings = []
        with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
            futs = [ex.submit(run, j) for j in jobs]
            ffuts = [(p, w, ex.submit(replay, p)) for p, w in read_findings(pid)]
            for fu in futs:
                r = fu.result()
                if r is None:
                    continue
                if r['error']:
                    errors.append(r)
                if r['stats']:
                    results.append(r)
                if r['failure']:
                    failures.append(r)
            for p, w, fu in ffuts:
                rc, out, err = fu.result()
                if rc == 1:
                    findings.append(w)
                elif rc != 0:
                    errors.append({'facet': 'known finding ' + p, 'error': err})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    for w in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))

    # Confirm failures in a fresh process.
    confirmed = []
    for r in failures:
        rep = {'property': pid, 'facet': r['facet'], 'kind': 'case',
               'case': r['failure']['case'], 'message': r['failure']['msg'],
               'seed': r['seed'], 'n': r['n']}
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        h = hashlib.sha1(canon(rep['case']).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (pid, r['facet'], h))
        json.dump(rep, open(path, 'w'), indent=1)
        rc, out, err = replay(path)
        if rc != 1:
            # Depends on what ran before: the whole session is the replay.
            rep['kind'] = 'session'
            json.dump(rep, open(path, 'w'), indent=1)
            rc, out, err = replay(path, 600)
        if rc == 1:
            confirmed.append((path, r['failure']['msg']))
            break
        errors.append({'facet': r['facet'],
                       'error': 'failure did not reproduce: %s\n%s %s' % (r['failure']['msg'], out, err)})

    distinct, evals, labels, samples, per = set(), 0, {}, [], {}
    for r in results:
        st = r['stats']
        evals += st['evaluations']
        fd = {r['facet'] + d for d in r['distinct']}
        distinct |= fd
        p = per.setdefault(r['facet'], {'evaluations': 0, 'distinct_nontrivial': set(), 'labels': {}})
        p['evaluations'] += st['evaluations']
        p['distinct_nontrivial'] |= fd
        for k, v in st['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        for s in st['samples']:
            if len([1 for x in samples if x['facet'] == r['facet']]) < 2:
                samples.append({'facet': r['facet'], 'case': s})
    for p in per.values():
        p['distinct_nontrivial'] = len(p['distinct_nontrivial'])
        p['labels'] = dict(sorted(p['labels'].items(), key=lambda kv: -kv[1])[:40])
    evidence = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(distinct),
            'rule': prop.rule,
            'samples': samples or [{'facet': r['facet'], 'case': canon(r['failure']['case'])[:700]}
                                   for r in failures] or ['none'],
            'facets': per,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' %
          (pid, tier, a.seed, evals, len(distinct), time.time() - t0))
    if confirmed:
        path, msg = confirmed[0]
        print(msg[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR in %s:\n%s' % (e['facet'], e['error'][-4000:]), file=sys.stderr)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
