"""Property-based testing harness shared by all checks.

A check file declares a `Check` and a few *sub-properties*.  A sub-property is a Hypothesis
strategy that produces a plain-data case (anything JSON can hold) and a function
`run(case, ctx)` that raises AssertionError when the property is broken for that case.

The parent process builds the code under test, splits the sub-properties over worker
processes (so that a crash or a hang in native code is contained and attributed to a case),
aggregates what was explored, and replays every failure in fresh processes before it prints
a VIOLATION line."""

import argparse
import hashlib
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build

VERIF = build.VERIF
HYPO_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WORKERS = int(os.environ.get('VP_WORKERS', '6'))


class Ctx:
    """Handed to every case: records its class and whether it was non-trivial."""

    __slots__ = ('labels', 'is_nontrivial', 'scratch')

    def __init__(self, scratch=None):
        self.labels = []
        self.is_nontrivial = False
        self.scratch = scratch

    def label(self, name):
        self.labels.append(str(name))

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True


class Prop:
    def __init__(self, name, strategy, run, quick, thorough, shards, weight):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards, self.weight = quick, thorough, shards, weight


class Check:
    def __init__(self, pid, needs=(), rule='', assumptions=(), setup=None,
                 thorough_budget=600, asan=False):
        self.pid, self.needs, self.rule = pid, tuple(needs), rule
        self.assumptions = list(assumptions)
        self.setup = setup
        self.props = {}
        self.thorough_budget = thorough_budget
        self.asan = asan

    def prop(self, name, strategy, quick=200, thorough=None, shards=2, weight=1.0):
        """Registers a sub-property; `strategy` is called lazily with hypothesis.strategies."""
        def deco(run):
            self.props[name] = Prop(name, strategy, run, quick, thorough or quick * 5,
                                    shards, weight)
            return run
        return deco

    # ------------------------------------------------------------------ entry point
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--replay')
        ap.add_argument('--only', help='run this sub-property only')
        ap.add_argument('--worker', help=argparse.SUPPRESS)
        ap.add_argument('--case', help=argparse.SUPPRESS)
        args = ap.parse_args()
        if args.worker:
            _silence()
            worker_main(self, args.worker)
            return 0
        if args.case:
            return case_main(self, args.case)
        try:
            return parent_main(self, args)
        except HarnessError as err:
            print(f'ERROR property={self.pid}: {err}')
            return 2


class HarnessError(Exception):
    pass


def canonical(case):
    return json.dumps(case, sort_keys=True)


def _silence():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def load_case(path):
    with open(path) as fh:
        return json.load(fh)


def run_one(prop, case, ctx):
    """Runs a case; every way of failing becomes an AssertionError with a message."""
    try:
        prop.run(case, ctx)
    except SystemExit as err:
        raise AssertionError(f'the code under test exited the interpreter ({err!r})') from err


# ---------------------------------------------------------------------- worker side
def _hypothesis():
    if importlib.util.find_spec('hypothesis') is None:
        sys.path.append(HYPO_PATH)
    import hypothesis
    try:
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = 25
    except Exception:
        pass
    return hypothesis


def worker_main(check, spec_path):
    spec = load_case(spec_path)
    hypothesis = _hypothesis()
    from hypothesis import strategies as st, settings, HealthCheck, Phase
    import warnings
    if check.setup is not None:
        check.setup()
    out = open(spec['out'], 'a')
    crash = os.open(spec['crash'], os.O_RDWR | os.O_CREAT)
    scratch = spec['scratch']

    def emit(rec):
        out.write(json.dumps(rec) + '\n')
        out.flush()

    def run_task(task, batch):
        """One Hypothesis run; returns False when the sub-property is broken."""
        prop = check.props[task['prop']]
        strat = prop.strategy(st)
        seed = int.from_bytes(hashlib.sha256(
            f"{spec['seed']}/{check.pid}/{prop.name}/{task['shard']}/{batch}".encode()
        ).digest()[:8], 'big')
        state = {'n': 0, 'fail': None, 'msg': '', 'err': None}
        hashes, labels, samples = set(), {}, []
        nontriv = set()

        def body(case):
            text = canonical(case)
            data = (prop.name + '\n' + text).encode()
            os.pwrite(crash, len(data).to_bytes(8, 'little') + data, 0)
            ctx = Ctx(scratch)
            state['n'] += 1
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    run_one(prop, case, ctx)
            except hypothesis.errors.UnsatisfiedAssumption:
                raise
            except Exception as err:
                state['fail'] = case
                state['msg'] = f'{type(err).__name__}: {err}'[:2000]
                state['tb'] = traceback.format_exc()[-3000:]
                raise
            h = hashlib.blake2b(text.encode(), digest_size=6).hexdigest()
            hashes.add(h)
            for lab in ctx.labels:
                labels[lab] = labels.get(lab, 0) + 1
            if ctx.is_nontrivial:
                nontriv.add(h)
                # the 1st, 2nd, 4th, 8th, ... new non-trivial case; the later ones are kept
                k = len(nontriv)
                if k & (k - 1) == 0 and len(text) < 1500:
                    samples[:] = (samples + [case])[-2:]

        test = hypothesis.given(strat)(body)
        test = settings(
            max_examples=task['examples'], database=None, deadline=None,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        test = hypothesis.seed(seed)(test)
        t0 = time.time()
        try:
            test()
        except hypothesis.errors.Unsatisfiable as err:
            state['err'] = f'Unsatisfiable: {err}'
        except BaseException as err:
            if state['fail'] is None:
                state['err'] = traceback.format_exc()[-3000:]
            if isinstance(err, KeyboardInterrupt):
                raise
        os.pwrite(crash, (0).to_bytes(8, 'little'), 0)
        emit({
            'prop': prop.name, 'shard': task['shard'], 'batch': batch, 'n': state['n'],
            'nontriv': sorted(nontriv), 'distinct': len(hashes), 'labels': labels,
            'samples': samples, 'fail': state['fail'], 'msg': state['msg'],
            'tb': state.get('tb', ''),
            'err': state['err'], 'wall': round(time.time() - t0, 2), 'seed': seed,
            'failed': state['fail'] is not None,
        })
        return state['fail'] is None and not state['err']

    tasks, batch = list(spec['tasks']), 0
    while tasks:
        for task in list(tasks):
            # the first pass always covers every sub-property
            if batch and time.time() > spec['deadline']:
                tasks = []
                break
            if not run_task(task, batch):
                tasks.remove(task)
        batch += 1
        if not spec['loop']:
            break
    emit({'done': True})
    # native libraries may misbehave in interpreter tear-down: not what is judged here
    out.close()
    os._exit(0)


def case_main(check, path):
    """Runs one saved case. Exit code 0: held; 1: violated."""
    rec = load_case(path)
    _silence()
    scratch = rec.get('scratch') or tempfile.mkdtemp(prefix='vpcase')
    if check.setup is not None:
        check.setup()
    prop = check.props[rec['prop']]
    try:
        run_one(prop, rec['case'], Ctx(scratch))
    except Exception as err:
        text = f'{type(err).__name__}: {err}'
        try:
            if type(err).__name__ == 'UnsatisfiedAssumption':
                os._exit(0)
        except Exception:
            pass
        print(text[:1500], flush=True)
        os._exit(1)
    os._exit(0)


# ---------------------------------------------------------------------- parent side
def known_findings(pid):
    """(id, what, file) of the findings listed for a property in KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        if line.startswith(f'known: property={pid} '):
            rest = line.split(' ', 2)[2].strip()
            case, what = rest.split(' ', 1)
            out.append((case.split('=', 1)[1], what))
    return out


def parent_main(check, args):
    t0 = time.time()
    tier = args.tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    try:
        paths = build.python_path(check.needs)
    except RuntimeError as err:
        raise HarnessError(str(err))
    work = tempfile.mkdtemp(prefix=f'vp_{check.pid}_', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        return _run(check, args, tier, seed, paths, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def child_env(paths, work):
    env = build.tool_env({
        'PYTHONPATH': os.pathsep.join([VERIF, *paths, os.path.join(VERIF, 'stubs')]),
        'MPLCONFIGDIR': os.path.join(work, 'mpl'),
        'NUMBA_CACHE_DIR': os.path.join(work, 'numba'),
        'TMPDIR': work, 'HOME': work, 'OMP_NUM_THREADS': os.environ.get('VP_OMP', '2'),
    })
    return env


def _script():
    return os.path.abspath(sys.argv[0])


def run_case(check, prop, case, env, work, timeout=120):
    """One saved case in a fresh process -> (violated, text)."""
    d = tempfile.mkdtemp(dir=work)
    path = os.path.join(d, 'case.json')
    with open(path, 'w') as fh:
        json.dump({'prop': prop, 'case': case, 'scratch': d}, fh)
    try:
        res = subprocess.run([build.VENV_PY, _script(), '--case', path], env=env, cwd=d,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, f'no answer within {timeout} s'
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if res.returncode == 0:
        return False, ''
    if res.returncode == -signal.SIGKILL:
        return False, 'killed'
    if res.returncode < 0:
        return True, f'the process died with signal {-res.returncode}'
    return True, res.stdout.strip()[-1500:]


def _run(check, args, tier, seed, paths, work, t0):
    env = child_env(paths, work)
    if args.replay:
        rec = load_case(args.replay)
        bad, text = run_case(check, rec['prop'], rec['case'], env, work)
        print(text)
        if bad:
            print(f'VIOLATION property={check.pid} replay={args.replay}')
            return 1
        return 0

    for case_file, what in known_findings(check.pid):
        rec = load_case(os.path.join(VERIF, case_file))
        bad, text = run_case(check, rec['prop'], rec['case'], env, work)
        if bad:
            print(f'KNOWN-FINDING: property={check.pid} {what}', flush=True)

    thorough = tier == 'thorough'
    props = [p for p in check.props.values() if args.only in (None, p.name)]
    tasks = []
    for p in props:
        total = p.thorough if thorough else p.quick
        shards = min(WORKERS, max(1, p.shards)) if not thorough else WORKERS
        shards = min(shards, max(1, total))
        for s in range(shards):
            tasks.append({'prop': p.name, 'shard': s,
                          'examples': max(1, -(-total // shards)), 'weight': p.weight * total / shards})
    groups = [[] for _ in range(min(WORKERS, len(tasks)))]
    loads = [0.0] * len(groups)
    for t in sorted(tasks, key=lambda t: -t['weight']):
        i = loads.index(min(loads))
        groups[i].append(t)
        loads[i] += t['weight']
    budget = check.thorough_budget if thorough else 330
    budget = float(os.environ.get('VP_BUDGET', budget))
    records, crashes, errors = [], [], []
    procs = []
    for i, g in enumerate(groups):
        if not g:
            continue
        procs.append(start_worker(work, i, g, seed, env, t0 + budget, thorough))
    hard = t0 + (budget + 240 if thorough else 450)
    for pr in procs:
        while pr['proc'].poll() is None:
            if time.time() > hard:
                pr['timeout'] = True
                _kill(pr['proc'])
                break
            time.sleep(0.05)
        pr['proc'].wait()
        recs, done = read_records(pr['out'])
        records += recs
        if not done:
            crashes.append((pr, read_crash(pr['crash']), recs))
    return conclude(check, args, tier, seed, env, work, t0, records, crashes)


def start_worker(work, i, tasks, seed, env, deadline, loop):
    d = os.path.join(work, f'w{i}')
    os.makedirs(os.path.join(d, 'scratch'))
    spec = {'tasks': tasks, 'seed': seed, 'out': f'{d}/out.jsonl', 'crash': f'{d}/crash',
            'deadline': deadline, 'loop': loop, 'scratch': f'{d}/scratch'}
    with open(f'{d}/spec.json', 'w') as fh:
        json.dump(spec, fh)
    log = open(f'{d}/log', 'w')
    proc = subprocess.Popen([build.VENV_PY, _script(), '--worker', f'{d}/spec.json'], env=env,
                            cwd=f'{d}/scratch', stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)
    return {'proc': proc, 'out': spec['out'], 'crash': spec['crash'], 'log': f'{d}/log',
            'timeout': False, 'tasks': tasks}


def _kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except OSError:
        pass


def read_records(path):
    recs, done = [], False
    if os.path.exists(path):
        for line in open(path):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r.get('done'):
                done = True
            else:
                recs.append(r)
    return recs, done


def read_crash(path):
    try:
        with open(path, 'rb') as fh:
            n = int.from_bytes(fh.read(8), 'little')
            if not n:
                return None
            name, text = fh.read(n).decode().split('\n', 1)
            return name, json.loads(text)
    except (OSError, ValueError):
        return None


def conclude(check, args, tier, seed, env, work, t0, records, crashes):
    failures = [(r['prop'], r['fail'], r['msg']) for r in records if r['failed']]
    inconclusive, internal = [], []
    internal += [f"{r['prop']}: {r['err']}" for r in records if r['err']]
    for pr, case, recs in crashes:
        tail = open(pr['log'], errors='replace').read()[-2500:]
        rc = pr['proc'].returncode
        if case is not None:
            failures.append((case[0], case[1], f'worker ended with {rc}'
                             + (' (hang)' if pr['timeout'] else '')))
        elif pr['timeout']:
            inconclusive.append('a worker ran out of time')
        else:
            internal.append(f'worker ended with {rc}: {tail}')
    per = {}
    labels, samples, nontriv, n, distinct = {}, [], set(), 0, 0
    for r in records:
        q = per.setdefault(r['prop'], {'evaluations': 0, 'distinct_nontrivial': set(), 'wall': 0})
        q['evaluations'] += r['n']
        q['distinct_nontrivial'].update(r['nontriv'])
        q['wall'] = round(q['wall'] + r['wall'], 2)
        n += r['n']
        nontriv.update(f"{r['prop']}:{h}" for h in r['nontriv'])
        for k, v in r['labels'].items():
            key = f"{r['prop']}/{k}"
            labels[key] = labels.get(key, 0) + v
        if r['samples'] and sum(s['sub_property'] == r['prop'] for s in samples) < 2:
            samples.append({'sub_property': r['prop'], 'case': r['samples'][-1]})
    for q in per.values():
        q['distinct_nontrivial'] = len(q['distinct_nontrivial'])
    # replay in fresh processes, smallest case first; one replay file per sub-property
    violations, seen = [], set()
    for prop, case, msg in sorted(failures, key=lambda f: len(canonical(f[1]))):
        if prop in seen:
            continue
        hits, text = 0, ''
        for _ in range(3):
            bad, out = run_case(check, prop, case, env, work)
            if bad:
                hits += 1
                text = text or out
        if hits:
            seen.add(prop)
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{check.pid}_{prop}.json'.replace(' ', '_'))
            with open(path, 'w') as fh:
                json.dump({'property': check.pid, 'prop': prop, 'case': case, 'seed': seed,
                           'message': msg, 'replayed': text, 'reproduced': f'{hits}/3'},
                          fh, indent=1)
            violations.append((prop, path, text or msg))
        else:
            inconclusive.append(f'{prop}: a failure did not reproduce ({msg[:300]}) on '
                                f'{canonical(case)[:600]}')
    cov = {
        'evaluations': n, 'distinct_nontrivial': len(nontriv), 'rule': check.rule,
        'samples': samples[:12], 'sub_properties': per, 'classes': labels,
    }
    if inconclusive:
        cov['inconclusive'] = inconclusive
    ev = {
        'property': check.pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': cov, 'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{check.pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for i in inconclusive:
        print(f'inconclusive: {i}')
    print(f'{check.pid} {tier} seed={seed}: {n} cases, {len(nontriv)} distinct non-trivial, '
          f'{len(violations)} violations, {ev["wall_s"]} s')
    for prop, path, text in violations:
        print(f'  {prop}: {text[:1200]}')
        print(f'VIOLATION property={check.pid} replay={path}', flush=True)
    if violations:
        return 1
    if internal:
        for i in sorted(set(internal)):
            print(f'ERROR property={check.pid}: {i}')
        return 2
    return 0
