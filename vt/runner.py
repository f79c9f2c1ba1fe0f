"""
Runs the cases of a check in parallel and turns what the monitors saw into a verdict.

Verdicts are three-valued:
  held          every case ran, the monitors were reached (see 'require')  -> exit 0
  violated      a monitor saw the property broken                          -> exit 1
  inconclusive  a worker is lost, no memory or disk space, monitors not reached -> exit 2

The monitors can interpret everything the code may produce according to the property,
so output which they cannot interpret (an exception in a monitor) is a violation, and
so is a case which does not end, twice, within a large multiple of the usual time.
"""

import collections
import errno
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
# Not the fault of the code under test
RESOURCES = {errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EDQUOT}
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


class Violation(Exception):
    """A monitor saw the property broken; 'key' names the mechanism"""

    def __init__(self, message, key='violation'):
        super().__init__(message)
        self.key = key


class Monitor:
    """Collects what was observed while a case runs"""

    def __init__(self):
        self.counters = collections.Counter()
        self.digests = set()
        self.sample = None
        self.scratch = {}

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def nontrivial(self, data):
        """The case is non-trivial; 'data' identifies it"""
        self.digests.add(hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:16])

    def peak(self, name, value):
        """Largest value seen (used to report margins)"""
        name = 'max:' + name
        value = float(value)
        if value == value:
            self.scratch[name] = max(self.scratch.get(name, 0.0), value)

    def require(self, ok, message, key='violation'):
        self.counters['assertions'] += 1
        if not ok:
            raise Violation(message, key)


def _worker(conn, module_name, env_setup):
    try:
        if env_setup:
            env_setup()
        os.nice(0)
        mod = importlib.import_module(module_name)
        if hasattr(mod, 'worker_init'):
            mod.worker_init()
    except BaseException:
        conn.send(('init', traceback.format_exc()))
        return
    conn.send(('ready', None))
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        idx, spec = msg
        mon = Monitor()
        t0 = time.time()
        try:
            mod.run_case(spec, mon)
            out = ('ok', None, None)
        except Violation as err:
            out = ('violation', err.key, str(err))
        except (MemoryError, ChildProcessError, BlockingIOError):
            out = ('error', 'resources', traceback.format_exc())
        except BaseException as err:
            if isinstance(err, OSError) and err.errno in RESOURCES:
                out = ('error', 'resources', traceback.format_exc())
            else:
                out = ('violation', 'output', 'the outcome cannot be interpreted:\n' + traceback.format_exc()[-1400:])
        conn.send(('done', (idx, out, dict(mon.counters), mon.digests, mon.sample, mon.scratch, time.time() - t0)))


class Pool:
    """Forked workers; a dying worker is charged to the case it was running"""

    def __init__(self, n, module_name, case_timeout, env_setup=None):
        self.ctx = mp.get_context('fork')
        self.n, self.module_name, self.case_timeout, self.env_setup = n, module_name, case_timeout, env_setup
        self.workers = {}

    def _spawn(self):
        parent, child = self.ctx.Pipe()
        proc = self.ctx.Process(target=_worker, args=(child, self.module_name, self.env_setup), daemon=True)
        proc.start()
        child.close()
        self.workers[parent] = {'proc': proc, 'case': None, 'since': time.time(), 'ready': False}

    def run(self, specs, deadline):
        """Yield (index, outcome, counters, digests, sample, scratch, seconds)"""
        queue = collections.deque(enumerate(specs))
        pending = len(specs)
        again = set()
        for _ in range(min(self.n, max(1, len(specs)))):
            self._spawn()
        try:
            while pending:
                if time.time() > deadline:
                    late = [q for q in queue if q[0] not in again]
                    queue = collections.deque(q for q in queue if q[0] in again)
                    for idx, _ in late:
                        pending -= 1
                        yield idx, ('skipped', 'deadline', 'not run, time budget used up'), {}, set(), None, {}, 0.0
                for conn in wait(list(self.workers), timeout=0.5):
                    w = self.workers[conn]
                    try:
                        kind, data = conn.recv()
                    except (EOFError, OSError):
                        w['proc'].join()
                        code = w['proc'].exitcode
                        del self.workers[conn]
                        conn.close()
                        if w['case'] is not None:
                            idx = w['case'][0]
                            pending -= 1
                            if code is not None and code < 0 and -code in CRASH_SIGNALS:
                                out = ('violation', 'crash', f'process died with signal {signal.Signals(-code).name}')
                            else:
                                out = ('error', 'worker', f'worker ended with exit code {code}')
                            yield idx, out, {}, set(), None, {}, time.time() - w['since']
                        if pending and queue:
                            self._spawn()
                        continue
                    if kind == 'init':
                        raise RuntimeError('worker could not start:\n' + data)
                    if kind == 'done':
                        pending -= 1
                        w['case'] = None
                        yield data
                    if queue:
                        w['case'] = queue.popleft()
                        w['since'] = time.time()
                        conn.send(w['case'])
                for conn, w in list(self.workers.items()):
                    if w['case'] is not None and time.time() - w['since'] > self.case_timeout:
                        idx = w['case'][0]
                        w['proc'].kill()
                        w['proc'].join()
                        del self.workers[conn]
                        conn.close()
                        if idx in again:
                            pending -= 1
                            yield idx, ('violation', 'hang', f'case does not end within {self.case_timeout} s, tried twice'), {}, set(), None, {}, 0.0
                        elif len(again) >= self.n:
                            pending -= 1
                            yield idx, ('error', 'timeout', f'case took more than {self.case_timeout} s'), {}, set(), None, {}, 0.0
                        else:
                            again.add(idx)
                            queue.appendleft((idx, specs[idx]))
                        if queue:
                            self._spawn()
        finally:
            for conn, w in self.workers.items():
                w['proc'].kill()
                w['proc'].join()


def known_findings(prop):
    """Mechanisms recorded as known findings of a property"""
    out = {}
    path = VERIF / 'known_findings.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('finding:'):
                words = line.split()
                fields = dict(w.split('=', 1) for w in words[1:3])
                if fields.get('property') == prop:
                    out[fields['key']] = ' '.join(words[3:])
    return out


def _jsonable(x):
    return json.loads(json.dumps(x, default=str))


def run_check(prop, tier, seed, replay=None, cases=None):
    t0 = time.time()
    module_name = f'vt.checks.{prop}'
    mod = importlib.import_module(module_name)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    if replay:
        specs = [json.loads(Path(replay).read_text())['spec']]
    else:
        specs = mod.plan(tier, seed)
    if cases:
        specs = specs[:cases]
    # Long cases first
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 3000})[tier]
    workers = int(os.environ.get('VT_WORKERS', getattr(mod, 'WORKERS', 8)))
    pool = Pool(workers, module_name, getattr(mod, 'CASE_TIMEOUT', 120), getattr(mod, 'env_setup', None))

    counters, digests, samples, peaks = collections.Counter(), set(), [], {}
    violations, errors, skipped, done = [], [], 0, 0
    for idx, (status, key, message), cnt, dig, sample, scratch, secs in pool.run(specs, t0 + budget):
        counters.update(cnt)
        digests |= dig
        for k, v in scratch.items():
            peaks[k] = max(peaks.get(k, v), v)
        if status == 'skipped':
            skipped += 1
            continue
        done += 1
        if sample is not None and len(samples) < 3:
            samples.append(sample)
        if status == 'violation':
            violations.append((idx, key, message))
        elif status == 'error':
            errors.append((idx, key, message))
        if violations and os.environ.get('VT_FAILFAST'):
            break
    if hasattr(mod, 'finish') and not replay:
        try:
            mod.finish(counters, tier)
        except Violation as err:
            violations.append((-1, err.key, str(err)))

    # ----- Known findings -----
    known = known_findings(prop)
    listed = [v for v in violations if v[1] in known]
    violations = [v for v in violations if v[1] not in known]
    for key in sorted({v[1] for v in listed}):
        print(f'KNOWN-FINDING: property={prop} {known[key]}')

    # ----- Were the monitors reached? -----
    inconclusive = []
    if not replay and not cases:
        for name, minimum in getattr(mod, 'REQUIRE', {'assertions': 1}).items():
            if counters[name] < minimum:
                inconclusive.append(f"'{name}' observed {counters[name]} times, expected at least {minimum}")
        if len(digests) < getattr(mod, 'MIN_DISTINCT', 2):
            inconclusive.append(f'only {len(digests)} distinct non-trivial cases')
        if skipped > 0.5*len(specs):
            inconclusive.append(f'{skipped} of {len(specs)} cases not run')
    for idx, key, message in errors[:5]:
        inconclusive.append(f'case {idx} ({key}): {message}')

    # ----- Evidence -----
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(digests),
            'rule': mod.RULE,
            'samples': _jsonable(samples) or [_jsonable(specs[0])],
            'observed': {k: v for k, v in sorted(counters.items())},
            'largest': {k[4:]: v for k, v in sorted(peaks.items())},
            'cases_not_run': skipped,
            'harness_errors': len(errors),
            'known_findings_seen': sorted({v[1] for v in listed}),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not replay and not cases:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(evidence, indent=1) + '\n')

    # ----- Verdict -----
    if violations:
        folder = VERIF / 'replays'
        folder.mkdir(exist_ok=True)
        seen = set()
        for n, (idx, key, message) in enumerate(sorted(violations)):
            if key in seen and n > 0:
                continue
            seen.add(key)
            path = folder / f'{prop}-{tier}-{seed}-{max(idx, 0)}.json'
            spec = specs[idx] if idx >= 0 else {'finish': True}
            if not replay:
                path.write_text(json.dumps({'property': prop, 'spec': spec, 'key': key, 'message': message}, indent=1))
            print(f'VIOLATION property={prop} replay={replay or path}')
            print(f'  [{key}] {message[:1500]}')
            if len(seen) >= int(os.environ.get("VT_REPORT", "4")):
                break
        print(f'{len(violations)} of {done} cases violate {prop}')
        return 1
    if inconclusive:
        for line in inconclusive:
            print(f'INCONCLUSIVE property={prop}: {line}', file=sys.stderr)
        return 2
    print(f'held: property={prop} tier={tier} seed={seed} cases={done} distinct={len(digests)} '
          f"assertions={counters['assertions']} wall={time.time() - t0:.1f}s")
    return 0
