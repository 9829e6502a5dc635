#!/opt/venv/bin/python
"""Run one property check.

    check.py P01                     quick or thorough (VERIF_TIER / --tier), VERIF_SEED
    check.py --replay FILE           re-run one recorded failing case

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..".
Exit 2: the check itself failed (harness error / nothing explored).
"""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def _reexec_env():
    """Deterministic interpreter settings: fixed hash seed, no bytecode."""
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
            'PYTHONWARNINGS': 'ignore'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable] + sys.argv)


_reexec_env()
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from lib import vh  # noqa: E402

SHRINK_SECONDS = 45
QUICK_CAP = 240        # seconds a quick worker may generate for
THOROUGH_CAP = 2400


class StopNow(BaseException):
    pass


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == pid]


# ------------------------------------------------------------------ worker ---

def run_sub_worker(mod, sub, n_examples, seed, deadline, stats):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    state = {'best': None, 'first_fail_at': None, 'seen': set()}
    hist = stats['tags']

    def one(case):
        if state['first_fail_at'] is not None and time.time() - state['first_fail_at'] > SHRINK_SECONDS:
            raise StopNow()
        if state['first_fail_at'] is None and time.time() > deadline:
            raise StopNow()
        try:
            info = vh.run_case(sub, case)
        except vh.Discard:
            stats['discarded'] += 1
            return
        except vh.Violation as v:
            if state['first_fail_at'] is None:
                state['first_fail_at'] = time.time()
            key = vh.case_size(case)
            if state['best'] is None or key < state['best'][0]:
                state['best'] = (key, case, str(v))
            raise
        except Exception:
            stats['harness_errors'].append(
                dict(sub=sub.name, case=case, error=traceback.format_exc()[-6000:]))
            raise StopNow()
        if state['first_fail_at'] is None:
            stats['evaluations'] += 1
            h = vh.case_hash(sub.name, case)
            for t in info.tags:
                hist[sub.name + ':' + t] += 1
            if info.nontrivial and h not in state['seen']:
                state['seen'].add(h)
                stats['nontrivial'].append(h)
                if len(stats['samples']) < 40 and len(state['seen']) % 7 in (1, 4):
                    stats['samples'].append(dict(sub=sub.name, case=case, tags=info.tags))

    if sub.exhaustive is not None:
        for i, case in enumerate(sub.exhaustive):
            if i % stats['n_workers'] != stats['worker']:
                continue
            try:
                one(case)
            except (vh.Violation, StopNow):
                break
    else:
        @hypothesis.seed(seed)
        @settings(max_examples=n_examples, deadline=None, database=None, derandomize=False,
                  print_blob=False, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
        @given(sub.strategy)
        def prop(case):
            one(case)

        try:
            prop()
        except (vh.Violation, StopNow):
            pass
        except Exception as e:
            if state['best'] is None:
                stats['harness_errors'].append(
                    dict(sub=sub.name, case=None, error=traceback.format_exc()[-6000:]))
    if time.time() > deadline:
        stats['capped'] = True
    if state['best'] is not None:
        _, case, msg = state['best']
        stats['violations'].append(dict(sub=sub.name, case=case, message=msg))


FRESH_QUICK, FRESH_THOROUGH = 3, 40     # cases per sub-check and worker


def draw_cases(strategy, n, seed):
    """n of the cases the strategy generates, without running them."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    drawn = []

    @hypothesis.seed(seed)
    @settings(max_examples=max(20, 2 * n), deadline=None, database=None, derandomize=False, phases=(Phase.generate,),
              suppress_health_check=list(HealthCheck))
    @given(strategy)
    def collect(case):
        drawn.append(case)
    collect()
    return drawn[-n:]


def run_fresh(sub, n, seed, stats):
    """Run cases each in a process of its own which has not imported pyfileconf before.

    All other cases follow many others in the same process and start from explicitly reset
    globals; these start from what the import of the package itself sets up.
    """
    assert 'pyfileconf' not in sys.modules
    vh.scratch_root()       # shared with the processes started below, which do not clean up
    for case in draw_cases(sub.strategy, n, seed):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            res = dict(kind='held')
            try:
                vh.start_fresh()
                info = vh.run_case(sub, case)
                res['nontrivial'], res['tags'] = bool(info.nontrivial), info.tags
            except vh.Discard:
                res = dict(kind='discarded')
            except vh.Violation as v:
                res = dict(kind='violation', message=f'in a new process: {v}')
            except BaseException:
                res = dict(kind='error', message=traceback.format_exc()[-6000:])
            try:
                os.write(w, json.dumps(res, default=str)[:60000].encode())
            finally:
                os._exit(0)
        os.close(w)
        with open(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        try:
            res = json.loads(text)
        except ValueError:
            res = dict(kind='error', message=f'a new process ended without a result: {text!r}')
        if res['kind'] == 'held':
            stats['evaluations'] += 1
            stats['tags'][f'{sub.name}:in a new process'] += 1
            if res['nontrivial']:
                stats['nontrivial'].append(vh.case_hash(sub.name + '/new', case))
        elif res['kind'] == 'discarded':
            stats['discarded'] += 1
        elif res['kind'] == 'violation':
            stats['violations'].append(dict(sub=sub.name, case=case, message=res['message'], fresh=True))
            return
        else:
            stats['harness_errors'].append(dict(sub=sub.name, case=case, error=res['message']))
            return


def worker_main(args):
    mod = load_check(args.property)
    stats = dict(evaluations=0, discarded=0, nontrivial=[], samples=[], violations=[],
                 harness_errors=[], tags=collections.Counter(), capped=False,
                 worker=args.worker, n_workers=args.workers)
    cap = QUICK_CAP if args.tier == 'quick' else THOROUGH_CAP
    t0 = time.time()
    deadline = t0 + cap
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for name in ('pandas', 'pluggy', 'pkgutil', 'astor', 'black', 'typing_extensions', 'tqdm', 'better_abc'):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    for si, sub in enumerate(mod.SUBS):
        if sub.exhaustive is None and args.sub in (None, sub.name):
            n = FRESH_QUICK if args.tier == 'quick' else FRESH_THOROUGH
            run_fresh(sub, max(1, int(round(n * min(scale, 4)))), (args.seed * 1000003 + si * 1009 + args.worker * 17 + 11) & 0x7FFFFFFF, stats)
    for si, sub in enumerate(mod.SUBS):
        if args.sub and sub.name != args.sub:
            continue
        total = sub.quick if args.tier == 'quick' else sub.thorough
        n = max(1, int(round(total * scale / args.workers)))
        seed = (args.seed * 1000003 + si * 1009 + args.worker * 17 + 5) & 0x7FFFFFFF
        # at most an equal share of the remaining time for each remaining sub-check
        remaining = len(mod.SUBS) - si
        sub_deadline = time.time() + max(5.0, (deadline - time.time()) / remaining)
        ts = time.time()
        run_sub_worker(mod, sub, n, seed, sub_deadline, stats)
        stats['tags'][f'{sub.name}:seconds'] += int(time.time() - ts)
    with open(args.out, 'w') as f:
        json.dump(stats, f)
    return 0


# -------------------------------------------------------------------- main ---

def replay_main(path):
    with open(path) as f:
        rec = json.load(f)
    mod = load_check(rec['property'])
    sub = next(s for s in mod.SUBS if s.name == rec['sub'])
    if rec.get('fresh'):
        vh.start_fresh()
    try:
        vh.run_case(sub, rec['case'])
    except vh.Violation as v:
        print(f'reproduced: {v}')
        print(f'VIOLATION property={rec["property"]} replay={path}')
        return 1
    except vh.Discard:
        print('case is outside the domain')
        return 0
    print('case passes')
    return 0


def finding_matches(finding, v):
    """A known finding names its sub-check and the exact case that fails."""
    return finding.get('sub') == v['sub'] and finding.get('case') == v['case']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--worker', type=int, default=None)
    ap.add_argument('--sub', default=None)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    args = ap.parse_args()

    if args.replay:
        return replay_main(args.replay)
    if not args.workers:
        args.workers = max(1, min(8, os.cpu_count() or 1))
    if args.worker is not None:
        return worker_main(args)

    import tempfile
    t0 = time.time()
    pid = args.property.upper()
    mod = load_check(pid)
    rc_lines = []
    tmp = tempfile.mkdtemp(prefix=f'vcheck-{pid}-')
    procs = []
    try:
        for w in range(args.workers):
            out = os.path.join(tmp, f'{w}.json')
            cmd = [sys.executable, os.path.abspath(__file__), pid, '--tier', args.tier,
                   '--seed', str(args.seed), '--workers', str(args.workers), '--worker', str(w), '--out', out]
            if args.sub:
                cmd += ['--sub', args.sub]
            log = open(os.path.join(tmp, f'{w}.log'), 'w')
            procs.append((w, out, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=HERE), log))
        hard = (QUICK_CAP if args.tier == 'quick' else THOROUGH_CAP) * 2 + 120
        results, harness = [], []
        hung = []
        for w, out, p, log in procs:
            try:
                p.wait(timeout=max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung.append(w)
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(os.path.join(tmp, f'{w}.log')) as f:
                    harness.append(dict(sub=None, case=None,
                                        error=f'worker {w} ended without a result (hung={w in hung})\n' + f.read()[-4000:]))
    finally:
        for w, out, p, log in procs:
            if p.poll() is None:
                p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    evaluations = sum(r['evaluations'] for r in results)
    nontrivial = set(h for r in results for h in r['nontrivial'])
    violations = [v for r in results for v in r['violations']]
    harness += [h for r in results for h in r['harness_errors']]
    tags = collections.Counter()
    for r in results:
        for k, v in r['tags'].items():
            if k.endswith(':seconds'):
                tags[k] = max(tags[k], v)
            else:
                tags[k] += v
    samples = [s for r in results for s in r['samples']]
    by_sub = collections.defaultdict(list)
    for s in samples:
        by_sub[s['sub']].append(s)
    picked = [s for lst in by_sub.values() for s in sorted(lst, key=lambda s: vh.case_size(s['case']))[-2:]]

    # known findings: each is probed explicitly, and suppresses only its own exact case
    known_lines, known = [], known_findings(pid)
    for k in known:
        sub = next((s for s in mod.SUBS if s.name == k['sub']), None) or getattr(mod, 'PROBES', {}).get(k['sub'])
        try:
            vh.run_case(sub, k['case'])
        except vh.Violation:
            known_lines.append(f'KNOWN-FINDING: property={pid} {k["what"]}')
        except vh.Discard:
            pass
    violations = [v for v in violations if not any(finding_matches(k, v) for k in known)]

    best = {}
    for v in violations:
        key = (bool(v.get('fresh')), vh.case_size(v['case']))     # those not from a new process are shrunk
        if v['sub'] not in best or key < best[v['sub']][0]:
            best[v['sub']] = (key, v)
    for sub, (_, v) in sorted(best.items()):
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-{sub}-{vh.case_hash(sub, v["case"])[:10]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, sub=sub, case=v['case'], message=v['message'], fresh=bool(v.get('fresh')),
                           seed=args.seed, tier=args.tier, workers=args.workers,
                           replay=f'/opt/venv/bin/python check.py --replay {path}'), f, indent=1)
        print(f'--- {pid}/{sub}: {v["message"]}')
        print(f'--- case: {json.dumps(v["case"])}')
        rc_lines.append(f'VIOLATION property={pid} replay={path}')

    evidence = dict(
        property=pid, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(nontrivial), rule=mod.RULE,
            samples=[dict(sub=s['sub'], case=s['case'], tags=s['tags']) for s in picked][:12],
            discarded=sum(r['discarded'] for r in results),
            classes={k: tags[k] for k in sorted(tags)},
            workers=args.workers,
            time_capped=any(r['capped'] for r in results),
            known_findings=known_lines,
            harness_errors=len(harness),
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2),
        violations=len(best),
        violation_details=[dict(sub=s, message=v['message'][:500]) for s, (_, v) in sorted(best.items())],
    )
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for line in known_lines:
        print(line)
    for line in rc_lines:
        print(line)
    if rc_lines:
        return 1
    if harness:
        print(f'HARNESS ERROR in {pid}: {len(harness)}', file=sys.stderr)
        print(json.dumps(harness[0].get('case')), file=sys.stderr)
        print(harness[0]['error'], file=sys.stderr)
        return 2
    if evaluations == 0 or not nontrivial:
        print(f'{pid}: nothing explored', file=sys.stderr)
        return 2
    print(f'{pid}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), '
          f'{evidence["wall_s"]}s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
