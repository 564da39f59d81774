#!/opt/venv/bin/python
"""Decides one property by generated-input search.

  run_check.py C01 [--tier quick|thorough] [--facet NAME] [--replay FILE] [--jobs N]

exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check.
"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import env                      # noqa: E402  (first: sets paths)
from pbt import core                     # noqa: E402
import importlib                         # noqa: E402
import multiprocessing                   # noqa: E402
import queue as queue_mod                # noqa: E402
import tempfile                          # noqa: E402

VERIF = env.VERIF


def load(prop):
    importlib.import_module('pbt.props.' + prop.lower())
    return core.FACETS[prop]


def work(prop, tasks, results, home):
    core.set_hypothesis_home(home)
    facets = {f.name: f for f in core.FACETS[prop]}
    while True:
        task = tasks.get()
        if task is None:
            break
        name, examples, seed, time_cap, shrink_cap = task
        try:
            res = core.search(facets[name], examples, seed, time_cap, shrink_cap)
        except BaseException as exc:         # reported as an error of the check
            import traceback
            res = dict(error='%s/%s: %s %s' % (prop, name, exc, traceback.format_exc()),
                       facet=name, stats=core.Stats().as_dict())
        results.put(res)
    results.put(None)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: '):])
    return out


def corpus(prop, facets):
    """Saved regression cases (inputs that once failed), run before the search."""
    cases = []
    folder = os.path.join(VERIF, 'corpus', prop)
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith('.json'):
                data = json.load(open(os.path.join(folder, name)))
                if data['facet'] in facets:
                    cases.append((name, data))
    return cases


def write_replay(prop, facet, case, message):
    folder = os.path.join(VERIF, '.work', 'replays')
    os.makedirs(folder, exist_ok=True)
    data = dict(property=prop, facet=facet, case=case, message=message)
    text = json.dumps(data, indent=1, sort_keys=True)
    import hashlib
    path = os.path.join(folder, '%s-%s-%s.json' % (
        prop, ''.join(c if c.isalnum() else '_' for c in facet), hashlib.sha256(core.dumps(case).encode()).hexdigest()[:10]))
    with open(path, 'w') as fid:
        fid.write(text + '\n')
    return path


def replay(prop, facets, path):
    data = json.load(open(path))
    if data.get('property') != prop or data.get('facet') not in facets:
        print('error: %s is no replay of a facet of %s' % (path, prop))
        return 2
    fct = facets[data['facet']]
    if fct.setup is not None:
        fct.setup()
    try:
        rec = core.run_case(fct, data['case'])
    except core.Violation as exc:
        print('replay: %s/%s: %s' % (prop, fct.name, exc))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    except core.HarnessError as exc:
        print('error of the check: %s' % exc)
        return 2
    print('replay: %s/%s holds (%d comparisons)' % (prop, fct.name, rec.checks))
    return 0


def merge(into, stats):
    into['evaluations'] += stats['evaluations']
    into['checks'] += stats['checks']
    into['hashes'] |= stats['hashes']
    for key, val in stats['labels'].items():
        into['labels'][key] = into['labels'].get(key, 0) + val
    for key, val in stats['ratios'].items():
        into['ratios'][key] = max(into['ratios'].get(key, 0.0), val)
    into['samples'].extend(stats['samples'])


def main(argv=None):
    par = argparse.ArgumentParser()
    par.add_argument('prop')
    par.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                     choices=['quick', 'thorough'])
    par.add_argument('--facet', default=None)
    par.add_argument('--replay', default=None)
    par.add_argument('--jobs', type=int, default=0)
    par.add_argument('--scale', type=float, default=1.0)
    par.add_argument('--ratios', action='store_true')
    par.add_argument('--no-evidence', action='store_true')
    args = par.parse_args(argv)
    start = time.monotonic()
    prop = args.prop
    try:
        base_seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        base_seed = core.derive_seed(os.environ['VERIF_SEED'])
    load(prop)
    facets = {f.name: f for f in core.FACETS[prop]}
    if args.replay:
        return replay(prop, facets, args.replay)
    if args.facet:
        facets = {k: v for k, v in facets.items() if k == args.facet}

    violations, errors = [], []
    totals = {n: dict(evaluations=0, checks=0, hashes=set(), labels={}, ratios={}, samples=[],
                      timed_out=0, wall=0.0) for n in facets}

    # 1. saved inputs
    n_saved = 0
    saved = corpus(prop, facets)

    # 2. generated search, sharded over processes
    jobs = args.jobs or max(1, min(8, os.cpu_count() or 1))
    quick = args.tier == 'quick'
    time_cap, shrink_cap = (240.0, 20.0) if quick else (3600.0, 120.0)
    tasks = []
    for name in facets:
        total = int((facets[name].quick if quick else facets[name].thorough) * args.scale)
        shards = max(1, min(jobs if quick else 4 * jobs, total // 20))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            tasks.append((k, name, n, core.derive_seed(base_seed, prop, name, k)))
    tasks.sort(key=lambda t: (t[0], t[1]))

    ctx = multiprocessing.get_context('fork')
    with tempfile.TemporaryDirectory(prefix='nvpbt-') as home:
        # saved inputs run in a process of their own, so that a search starts in a fresh state
        q_tasks, q_res = ctx.Queue(), ctx.Queue()
        for _k, name, n, seed in tasks:
            q_tasks.put((name, n, seed, time_cap, shrink_cap))
        for _ in range(jobs):
            q_tasks.put(None)
        procs = [ctx.Process(target=work, args=(prop, q_tasks, q_res, home), daemon=False)
                 for _ in range(jobs)]
        for p in procs:
            p.start()
        for fname, data in saved:
            fct = facets[data['facet']]
            if fct.setup is not None:
                fct.setup()
            n_saved += 1
            try:
                core.run_case(fct, data['case'])
            except core.Violation as exc:
                violations.append((fct.name, data['case'], 'saved input %s: %s' % (fname, exc)))
            except core.HarnessError as exc:
                errors.append(str(exc))
        alive, got = jobs, 0
        while alive and not errors:
            try:
                res = q_res.get(timeout=5)
            except queue_mod.Empty:
                dead = [p for p in procs if p.exitcode not in (None, 0)]
                if dead:
                    errors.append('a worker process ended with exit code %s' % dead[0].exitcode)
                    break
                continue
            if res is None:
                alive -= 1
                continue
            got += 1
            tot = totals[res['facet']]
            merge(tot, res['stats'])
            tot['timed_out'] += bool(res.get('timed_out'))
            tot['wall'] += res.get('wall', 0.0)
            if 'error' in res:
                errors.append(res['error'])
            if 'violation' in res:
                vio = res['violation']
                violations.append((res['facet'], vio['case'], vio['message']))
                break
        if violations or errors:
            for p in procs:
                p.terminate()
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
                p.join()
        q_tasks.cancel_join_thread()
        q_res.cancel_join_thread()

    evaluations = sum(t['evaluations'] for t in totals.values()) + n_saved
    distinct = sum(len(t['hashes']) for t in totals.values())
    samples = []
    for name in sorted(totals):
        for s in totals[name]['samples'][:2]:
            samples.append(dict(facet=name, case=s))
    if not samples:
        samples = [dict(facet=v[0], case=v[1]) for v in violations[:1]]
    rule = ' '.join('[%s] %s' % (n, facets[n].rule) for n in sorted(facets))
    evidence = dict(
        property=prop, tier=args.tier, seed=base_seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=distinct, rule=rule, samples=samples,
            saved_inputs_replayed=n_saved,
            comparisons=sum(t['checks'] for t in totals.values()),
            facets={n: dict(evaluations=t['evaluations'], distinct_nontrivial=len(t['hashes']),
                            comparisons=t['checks'],
                            cpu_s=round(t['wall'], 2),
                            shards_stopped_by_time=t['timed_out'],
                            classes=dict(sorted(t['labels'].items())),
                            worst_error_over_tolerance={k: float('%.3g' % v) for k, v in
                                                        sorted(t['ratios'].items())})
                    for n, t in sorted(totals.items())}),
        assumptions=['IEEE double and x86 80-bit long double arithmetic; the interpreter, numpy, '
                     'scipy and geographiclib of /opt/venv',
                     'bounded random search: says nothing about inputs it did not generate'],
        wall_s=round(time.monotonic() - start, 2), violations=len(violations))
    if not args.no_evidence and not args.facet:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.%d.tmp' % (prop, os.getpid()))
        with open(tmp, 'w') as fid:
            json.dump(evidence, fid, indent=1, default=str)
            fid.write('\n')
        os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

    for name in sorted(totals):
        t = totals[name]
        print('%s/%s: %d cases, %d distinct non-trivial, worst error/tolerance %s' % (
            prop, name, t['evaluations'], len(t['hashes']),
            '%.3g' % max(t['ratios'].values()) if t['ratios'] else '-'))
        if args.ratios:
            for k, v in sorted(t['ratios'].items(), key=lambda kv: -kv[1]):
                print('     %-40s %.3g' % (k, v))
            print('     ', dict(sorted(t['labels'].items())), '%.1f cpu-s' % t['wall'])
    for line in known_findings(prop):
        print('KNOWN-FINDING: ' + line)
    if violations:
        for name, case, message in violations:
            path = write_replay(prop, name, case, message)
            print('%s/%s: %s' % (prop, name, message))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print('error of the check: ' + e)
        return 2
    print('%s: held on %d cases (%.1f s)' % (prop, evaluations, time.monotonic() - start))
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
