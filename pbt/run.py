"""Run the check of one property.

    run.py C01                 (tier from VERIF_TIER, seed from VERIF_SEED)
    run.py C01 --tier thorough
    run.py C01 --replay FILE   (re-run one recorded case)

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: trouble.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

NSHARDS = 8
BUDGET = {'quick': 200, 'thorough': 3000}
HARD = {'quick': 600, 'thorough': 4200}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int, default=NSHARDS)
    ap.add_argument('--out')
    ap.add_argument('--root')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.tier not in BUDGET:
        a.tier = 'quick'
    if a.replay:
        return replay(a)
    if a.shard is not None:
        return shard(a)
    return orchestrate(a)


def load(prop):
    core.setup_path()
    return importlib.import_module('props.' + prop.lower())


def shard(a):
    module = load(a.prop)
    stats = core.run_shard(module, a.tier, a.seed, a.shard, a.shards, a.root,
                           float(os.environ.get('PBT_BUDGET') or
                                 BUDGET[a.tier]))
    with open(a.out, 'w') as f:
        json.dump(stats.as_dict(), f, default=str)
    return 0


def replay(a):
    with open(a.replay) as f:
        r = json.load(f)
    module = load(a.prop)
    facet = next(f for f in module.FACETS if f.name == r['facet'])
    root = tempfile.mkdtemp(prefix='pbt-')
    try:
        labels, msg = core.run_case(facet, r['case'], root, 280)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if msg is None:
        print('the property holds for %s' % a.replay)
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
    return 1


def known_findings(prop):
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('findings', [])
                if k.get('property') == prop]


def orchestrate(a):
    t0 = time.time()
    root = tempfile.mkdtemp(prefix='pbt-%s-' % a.prop)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               HYPOTHESIS_NO_PLUGINS='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1',
               NUMEXPR_MAX_THREADS='1', BLOSC_NTHREADS='1',
               PYTHONPYCACHEPREFIX=os.path.join(root, 'pyc'),
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(root, 'hyp'))
    procs = []
    try:
        for i in range(a.shards):
            d = os.path.join(root, 's%d' % i)
            os.makedirs(d)
            out = os.path.join(root, 'out%d.json' % i)
            log = open(os.path.join(root, 'log%d' % i), 'w')
            p = subprocess.Popen(
                [sys.executable, '-B', os.path.abspath(__file__), a.prop,
                 '--tier', a.tier, '--seed', str(a.seed), '--shard', str(i),
                 '--shards', str(a.shards), '--out', out, '--root', d],
                env=env, cwd=d, stdout=log, stderr=log)
            procs.append((p, out, log.name))
        results, trouble = [], []
        for i, (p, out, log) in enumerate(procs):
            left = HARD[a.tier] - (time.time() - t0)
            try:
                rc = p.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(log) as f:
                    trouble.append('shard %d ended with %s\n%s' % (
                        i, rc, f.read()[-3000:]))
        return report(a, results, trouble, t0)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(root, ignore_errors=True)


def report(a, results, trouble, t0):
    core.setup_path()
    module = importlib.import_module('props.' + a.prop.lower())
    hashes, labels, facets, samples = set(), {}, {}, []
    evaluations = skipped = 0
    failures = []
    for r in results:
        evaluations += r['evaluations']
        skipped += r['skipped']
        hashes.update(r['hashes'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, (n, m) in r['facets'].items():
            f = facets.setdefault(k, [0, 0])
            f[0] += n
            f[1] += m
        for s in r['samples']:
            if sum(x['facet'] == s['facet'] for x in samples) < 2:
                samples.append(s)
        if r['failure']:
            failures.append(r['failure'])
    known = known_findings(a.prop)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    # the smallest reproduction becomes the replay file
    failures.sort(key=lambda f: len(json.dumps(f[1])))
    failures = [f for f in failures
                if not any(k.get('facet') == f[0] and
                           k.get('match', '\0') in f[2] for k in known)]
    evidence = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': module.RULE,
            'samples': samples,
            'per_facet': {k: {'evaluations': n, 'distinct_nontrivial': m}
                          for k, (n, m) in sorted(facets.items())},
            'classes': dict(sorted(labels.items())),
            'skipped_for_time': skipped,
            'shards': a.shards,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', a.prop + '.json'),
              'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d cases, %d distinct non-trivial, %d skipped, %.1f s' % (
        a.prop, a.tier, evaluations, len(hashes), skipped,
        time.time() - t0))
    for k, (n, m) in sorted(facets.items()):
        print('  %-24s %6d cases %6d non-trivial' % (k, n, m))
    if failures:
        facet, case, msg = failures[0]
        d = os.path.join(core.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (a.prop, core.digest(case)))
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'facet': facet, 'message': msg,
                       'seed': a.seed, 'tier': a.tier, 'case': case}, f,
                      indent=1, default=str)
        print('facet %s: %s' % (facet, msg))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if trouble:
        for t in trouble[:2]:
            print(t, file=sys.stderr)
        print('%d of %d shards gave no result' % (len(trouble), a.shards),
              file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
