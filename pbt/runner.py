"""Runs one check:  python3-vt -B -m pbt.runner C01 [--tier quick|thorough] [--replay FILE]

A check module (pbt/checks/cNN.py) provides

  RULE            how cases are made and what makes one non-trivial
  ASSUMPTIONS     list of strings
  jobs(tier)      list of (job, examples): job is a JSON value naming a slice of the domain
  strategy(job)   Hypothesis strategy for JSON-able cases of that slice
  execute(job, case) -> (nontrivial, labels)      raises Violation when the property is broken
  prepare(tier), cleanup()   optional, once in the parent before the workers fork and at the end

Every random choice is made by Hypothesis, seeded from VERIF_SEED and the job's name, so a run is a
function of the code and the seed.  Hypothesis shrinks a failure; the shrunk case is saved as JSON
and is replayed without Hypothesis."""
import argparse
import collections
import gc
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
import zlib

from . import schema

HERE = schema.HERE
TOP = ('CIM14', 'CIM15', 'PyCIM')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    pass


def fail(fmt, *a):
    raise Violation(fmt % a if a else fmt)


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def from_repo(tb):
    """Does the innermost part of the traceback run through the code under test?"""
    root = os.path.realpath(schema.REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class Hang(BaseException):
    """A case that takes minutes, where all the others take milliseconds"""


class Enough(BaseException):
    """Ends a long shrink: the smallest failing case so far is reported"""


HANG = 120
MEMORY = 2 << 30        # bytes the cases of a job may take; they take some tens of megabytes
SHRINK = 40
SURVEY = os.environ.get('VERIF_SURVEY')     # a file: go on after violations, do not shrink, list them there


def ring(*a):
    raise Hang()


def of_library(e):
    """An AttributeError or TypeError from a use of a library object as the properties allow"""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        where = getattr(o, '__name__', '') if isinstance(o, types.ModuleType) else getattr(o if isinstance(o, type) else type(o), '__module__', '')
        return (where or '').split('.')[0] in TOP
    return isinstance(e, TypeError) and re.search(r'\(\) (takes|got|missing) ', str(e)) is not None


def limit_memory():
    """A case that takes all memory must not take the other processes with it"""
    try:
        with open('/proc/self/statm') as f:
            now = int(f.read().split()[5]) * resource.getpagesize()
    except (OSError, LookupError, ValueError):
        now = 1 << 30
    try:
        hard = resource.getrlimit(resource.RLIMIT_DATA)[1]
        resource.setrlimit(resource.RLIMIT_DATA, (now + MEMORY if hard < 0 else min(now + MEMORY, hard), hard))
    except (OSError, ValueError):
        pass


class Sink(logging.Handler):
    """Takes the messages, formats them as a log file would, and drops them"""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass        # as logging itself does


def set_logging(case):
    """A third of the cases each runs without logging, with warnings and errors logged, with everything logged"""
    k = zlib.crc32(canon(case).encode('utf-8', 'surrogatepass')) % 3
    logging.disable((logging.CRITICAL, logging.NOTSET, logging.NOTSET)[k])
    root = logging.getLogger()
    root.setLevel((logging.WARNING, logging.WARNING, logging.DEBUG)[k])
    if not any(isinstance(h, Sink) for h in root.handlers):
        root.addHandler(Sink())


def run_case(mod, job, case):
    """execute(), with an exception that the code under test lets escape turned into a Violation."""
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(HANG)
    set_logging(case)
    try:
        return mod.execute(job, case)
    except Hang:
        raise Hang('the case did not end within %d s' % HANG) from None
    except MemoryError as e:
        signal.alarm(0)
        traceback.clear_frames(e.__traceback__)
        gc.collect()
        raise Hang('the case took more than %d MB' % (MEMORY >> 20)) from None
    except SystemExit as e:
        raise Violation('SystemExit: %s' % e) from None
    except Violation:
        raise
    except schema.Missing as e:
        raise Violation(str(e)) from e
    except Exception as e:
        signal.alarm(0)
        tb, imp = e.__traceback__, isinstance(e, (ImportError, SyntaxError))
        if from_repo(tb) or of_library(e) or imp and any(k in str(e) for k in ('CIM14', 'CIM15', 'PyCIM')):
            last = traceback.extract_tb(tb)[-1]
            raise Violation('%s: %s (at %s:%s)' % (type(e).__name__, e, os.path.basename(last.filename), last.lineno)) from e
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)) and not isinstance(e, schema.BadCase):
            # a result of another type or form than the comparison can take
            raise Violation('a result that cannot be evaluated: %s: %s' % (type(e).__name__, e)) from e
        raise
    finally:
        signal.alarm(0)


def load(check):
    return importlib.import_module('pbt.checks.' + check.lower())


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.violations = []        # (job, case, message)
        self.errors = []
        self.jobs = 0

    def add(self, job, case, nontrivial, labels):
        self.evaluations += 1
        for l in labels:
            self.labels[l] += 1
        if nontrivial:
            key = hashlib.blake2b(canon([job, case]).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
            if key not in self.distinct:
                self.distinct.add(key)
                if len(self.samples) < 2:
                    self.samples.append({'job': job, 'case': case})

    def merge(self, o):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.labels += o.labels
        self.samples += o.samples
        self.violations += o.violations
        self.errors += o.errors
        self.jobs += o.jobs


def run_job(check, mod, job, examples, seed, stats, history):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    h = int.from_bytes(hashlib.sha256(('%d:%s:%s' % (seed, check, canon(job))).encode()).digest()[:8], 'big')
    last = []
    start = len(history)
    limit_memory()

    @hseed(h)
    @settings(max_examples=examples, database=None, deadline=None, derandomize=False,
              phases=[Phase.generate] if SURVEY else [Phase.generate, Phase.shrink], report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(mod.strategy(job))
    def test(case):
        if last and time.time() - last[2] > SHRINK:
            raise Enough()
        history.append((job, case))
        try:
            nontrivial, labels = run_case(mod, job, case)
        except Violation as v:
            last[:] = [case, str(v), last[2] if last else time.time()]
            raise
        except Hang as h:       # reported as it is: shrinking would take hours
            last[:] = [case, str(h), 0]
            raise
        if not last:
            stats.add(job, case, nontrivial, labels)

    stats.jobs += 1
    try:
        test()
    except (Violation, Hang, Enough):
        stats.violations.append((job, last[0], last[1]))
    except Exception as e:
        if last and type(e).__name__ in ('Flaky', 'FlakyFailure', 'ExceptionGroup', 'FlakyReplay'):
            # Failed, then passed on the same input: state leaks from one case to the next.  That is a
            # violation if the sequence of cases fails in a fresh process too.
            for seq in (history[start:], history):
                if sequence_fails(check, seq):
                    stats.violations.append(('sequence', seq, last[1]))
                    break
            else:
                stats.errors.append('flaky in %s: %s' % (canon(job), last[1]))
        else:
            stats.errors.append('%s: %s' % (canon(job), traceback.format_exc()))


def sequence_fails(check, seq):
    with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
        json.dump({'job': 'sequence', 'case': seq}, f)
        f.flush()
        p = subprocess.run([sys.executable, '-B', '-m', 'pbt.runner', check, '--replay', f.name], cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode == 1


def worker(check, tier, seed, jobs, counter, stop, conn):
    stats, history = Stats(), []
    try:
        mod = load(check)
        gc.freeze()
        while not stop.is_set():
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(jobs):
                break
            run_job(check, mod, jobs[i][0], jobs[i][1], seed, stats, history)
            if (stats.violations or stats.errors) and not SURVEY:
                stop.set()
    except BaseException:
        stats.errors.append(traceback.format_exc())
    stats.samples = stats.samples[:2]
    conn.send(stats)
    conn.close()


def run_jobs(check, tier, seed, jobs):
    ctx = multiprocessing.get_context('fork')
    counter, stop = ctx.Value('i', 0), ctx.Event()
    procs = []
    for _ in range(min(WORKERS, len(jobs))):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(check, tier, seed, jobs, counter, stop, w))
        p.start()
        w.close()
        procs.append((p, r))
    total = Stats()
    for p, r in procs:
        try:
            total.merge(r.recv())
        except EOFError:
            total.errors.append('a worker died')
        p.join()
    return total


def prepare(tier):
    """Import all that can be imported before the workers fork."""
    for m in schema.models().values():
        for n in m.names:
            try:
                m.py(n)
            except Exception:
                pass


def findings(check):
    path = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == check]


def trim(x, n=4000):
    s = canon(x)
    return x if len(s) <= n else {'truncated': s[:n]}


def save_replay(check, job, case, message):
    d = os.path.join(HERE, 'replays', check)
    os.makedirs(d, exist_ok=True)
    name = hashlib.sha256(canon([job, case]).encode('utf-8', 'surrogatepass')).hexdigest()[:12] + '.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': check, 'job': job, 'case': case, 'message': message}, f, indent=1)
    return os.path.relpath(path, HERE)


def evidence(check, mod, tier, seed, total, wall, known):
    labels = {k: v for k, v in sorted(total.labels.items())}
    ev = {
        'property': check, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total.evaluations, 'distinct_nontrivial': len(total.distinct), 'rule': mod.RULE,
            'samples': [trim(s) for s in total.samples[:6]],
            'slices_of_the_domain': total.jobs, 'case_classes': labels, 'known_findings_replayed': known,
        },
        'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(total.violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', check + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only jobs whose name contains this')
    a = ap.parse_args()
    t0 = time.time()
    limit_memory()
    mod = load(a.check)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        try:
            if r['job'] == 'sequence':
                for job, case in r['case']:
                    run_case(mod, job, case)
            else:
                run_case(mod, r['job'], r['case'])
        except (Violation, Hang) as v:
            print('reproduced: %s' % v)
            print('VIOLATION property=%s replay=%s' % (a.check, a.replay))
            return 1
        print('no violation')
        return 0

    getattr(mod, 'prepare', prepare)(a.tier)
    bad = 0
    known = 0
    for k in findings(a.check):
        known += 1
        try:
            run_case(mod, k['job'], k['case'])
        except (Violation, Hang) as v:
            if k['expect'] not in str(v):
                bad = 1
                print('unexpected failure of a known finding: %s' % v)
                print('VIOLATION property=%s replay=%s' % (a.check, save_replay(a.check, k['job'], k['case'], str(v))))
            else:
                print('KNOWN-FINDING: property=%s %s' % (a.check, k['what']))
        else:
            print('note: the known finding "%s" no longer reproduces' % k['what'])
    jobs = mod.jobs(a.tier)
    if a.only:
        jobs = [j for j in jobs if a.only in canon(j[0])]
    try:
        total = run_jobs(a.check, a.tier, a.seed, jobs)
    finally:
        getattr(mod, 'cleanup', int)()
    wall = time.time() - t0
    evidence(a.check, mod, a.tier, a.seed, total, wall, known)
    if SURVEY:
        with open(SURVEY, 'w') as f:
            json.dump([[v[0], v[2]] for v in total.violations] + [['error', e[-300:]] for e in total.errors], f)
    for job, case, message in total.violations[:3]:
        path = save_replay(a.check, job, case, message)
        print('%s: %s' % (canon(job), message if len(message) < 3000 else message[:3000] + '...'))
        print('VIOLATION property=%s replay=%s' % (a.check, path))
    print('%s: %d cases, %d distinct non-trivial, %d jobs, %d violations, %.1f s' % (
        a.check, total.evaluations, len(total.distinct), total.jobs, len(total.violations), wall))
    if os.environ.get('VERIF_LABELS'):
        for k, v in sorted(total.labels.items()):
            print('   %7d %s' % (v, k))
    if total.violations or bad:
        return 1
    if total.errors:
        for e in total.errors[:3]:
            print(e, file=sys.stderr)
        print('harness error', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    from pbt import runner      # the same module as the checks import, not a second copy
    try:
        code = runner.main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
