# -*- coding: utf-8 -*-
'''Seeded, sharded property runner with evidence and replay files.'''
import base64
import collections
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

from . import env
from .env import HERE

import hypothesis
from hypothesis import settings, HealthCheck, Phase
import hypothesis.internal.conjecture.engine as _engine

REPLAYS = os.path.join(HERE, 'replays')
CASE_CPU_LIMIT = 150   # CPU seconds for one generated case (typically ~10 ms)


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


class _Hang(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def eq(actual, expected, what=''):
    if actual != expected:
        raise Violation('%s\n  expected: %s\n  actual:   %s' % (
            what, short(expected), short(actual)))


def ok(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def short(x, n=500):
    r = x if isinstance(x, str) else repr(x)
    if len(r) > n:
        r = r[:n // 2] + ' ... ' + r[-n // 2:]
    return r


class Rec(object):
    '''Per-case recorder handed to the check function.'''

    def __init__(self):
        self.labels = set()
        self.non = False
        self.count = 1

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def nontrivial(self, cond=True):
        if cond:
            self.non = True


class Test(object):
    '''One generated check.

    strategy: Hypothesis strategy (or zero-arg callable returning one)
    check(case, rec): raises on violation
    quick/thorough: number of cases for the tier (total over shards)
    examples: explicit regression cases, always run
    '''

    def __init__(self, name, strategy, check, quick, thorough=None,
                 examples=(), serial=False, max_shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 10
        self.examples = list(examples)
        self.max_shards = 1 if serial else max_shards


def case_key(test, case):
    return hashlib.blake2b(pickle.dumps((test.name, case), 4),
                           digest_size=8).digest()


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = {}
        self.per_test = collections.Counter()

    def add(self, test, case, rec):
        self.evaluations += 1
        self.per_test[test.name] += 1
        for l in rec.labels:
            self.labels[test.name + ':' + l] += 1
        if rec.non:
            self.keys.add(case_key(test, case))
            s = self.samples.setdefault(test.name, [])
            if len(s) < 2:
                s.append(short(case, 600))


def _is_harness_fault(e):
    if isinstance(e, Violation):
        return False
    if isinstance(e, (HarnessError, MemoryError)):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    if tb and tb[-1].filename.startswith(os.path.join(env.SRC, 'hwp5') + os.sep):
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError) and str(e).startswith("module '"):
        return True
    if isinstance(e, OSError) and e.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM
        tb = traceback.extract_tb(e.__traceback__)
        if not any('/src/hwp5/' in f.filename for f in tb):
            return True
    return False


def _alarm(signum, frame):
    raise _Hang()


def run_test(test, seed, n, stats):
    '''returns None or a dict describing a failure'''
    last = {}

    def once(case):
        rec = Rec()
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        last['case'] = case
        try:
            test.check(case, rec)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        stats.add(test, case, rec)

    def report(e, case):
        return dict(test=test.name, error=''.join(
            traceback.format_exception(type(e), e, e.__traceback__))[-6000:],
            message=short(str(e) or repr(e), 1600),
            case=base64.b64encode(pickle.dumps(case, 4)).decode('ascii'),
            case_repr=short(case, 20000))

    for case in test.examples:
        try:
            once(case)
        except _Hang:
            return report(Violation('no termination within %d CPU seconds' % CASE_CPU_LIMIT), case)
        except Exception as e:
            if _is_harness_fault(e):
                raise
            return report(e, case)
    if n <= 0:
        return None
    strategy = test.strategy() if callable(test.strategy) and not isinstance(
        test.strategy, hypothesis.strategies.SearchStrategy) else test.strategy

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example],
              report_multiple_bugs=False, print_blob=False)
    @hypothesis.given(strategy)
    def prop(case):
        try:
            once(case)
        except _Hang:
            raise
        except Exception as e:
            if isinstance(e, hypothesis.errors.UnsatisfiedAssumption):
                raise
            last['failed'] = case
            raise

    try:
        prop()
    except _Hang:
        return report(Violation('no termination within %d CPU seconds' % CASE_CPU_LIMIT), last['case'])
    except hypothesis.errors.Flaky as e:
        # re-run the smallest failing case: state shared between cases in the
        # code under test is itself reproducible only from history
        case = last.get('failed')
        try:
            once(case)
        except Exception as e2:
            if _is_harness_fault(e2):
                raise
            return report(e2, case)
        return report(Violation('result depends on history (not reproducible '
                                'in isolation): %s' % e), case)
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:
        if _is_harness_fault(e):
            raise
        return report(e, last['failed'])
    return None


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def worker(prop, tier, seed, shard, shards, scale, only, out):
    t0 = time.time()
    res = dict(shard=shard, failure=None, error=None)
    stats = Stats()
    try:
        _engine.MAX_SHRINKING_SECONDS = 45 if tier == 'quick' else 240
        signal.signal(signal.SIGVTALRM, _alarm)
        mod = load(prop)
        for i, test in enumerate(mod.tests(tier)):
            if only and test.name not in only:
                continue
            nsh = min(shards, test.max_shards or shards)
            if shard >= nsh:
                continue
            total = test.thorough if tier == 'thorough' else test.quick
            total = int(total * scale)
            n = total // nsh + (1 if shard < total % nsh else 0)
            tseed = (seed * 1000003 + shard * 7919 + i * 104729) & 0x7fffffffffffffff
            f = run_test(test, tseed, n, stats)
            if f is not None:
                res['failure'] = f
                break
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-8000:]
    res.update(evaluations=stats.evaluations, keys=[k.hex() for k in stats.keys],
               labels=dict(stats.labels), samples=stats.samples,
               per_test=dict(stats.per_test), wall=time.time() - t0)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def load_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop]


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    mod = load(prop)
    case = pickle.loads(base64.b64decode(data['case']))
    for test in mod.tests('quick'):
        if test.name == data['test']:
            try:
                test.check(case, Rec())
            except Exception:
                traceback.print_exc()
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            print('replay passes')
            return 0
    print('no such test', data['test'])
    return 3


def main(argv):
    prop = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    if '--replay' in opts:
        return replay(prop, opts['--replay'])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    shards = int(opts.get('--shards', 8))
    scale = float(opts.get('--scale', os.environ.get('VERIF_SCALE', '1')))
    only = set(opts['--only'].split(',')) if '--only' in opts else None
    t0 = time.time()
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    outs, pids = [], {}
    for s in range(shards):
        out = os.path.join(env.WORK, '%s-%d-%d.json' % (prop, os.getpid(), s))
        outs.append(out)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                wdir = os.path.join(env.WORK, 'shard%d' % s)
                os.makedirs(wdir, exist_ok=True)
                os.environ['TMPDIR'] = wdir
                import tempfile
                tempfile.tempdir = None
                # whatever is written to a relative path by mistake
                os.chdir(wdir)
                worker(prop, tier, seed, s, shards, scale, only, out)
                rc = 0
            finally:
                sys.stdout.flush()
                os._exit(rc)
        pids[pid] = s
    died = []
    while pids:
        pid, status = os.wait()
        if pid in pids:
            s = pids.pop(pid)
            if status != 0:
                died.append((s, status))
    results = []
    for out in outs:
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            os.unlink(out)
    keys, labels, samples, per_test = set(), collections.Counter(), {}, collections.Counter()
    evaluations = 0
    failures, errors = [], []
    for r in results:
        evaluations += r['evaluations']
        keys.update(r['keys'])
        labels.update(r['labels'])
        per_test.update(r['per_test'])
        for k, v in r['samples'].items():
            samples.setdefault(k, [])
            if len(samples[k]) < 2:
                samples[k].extend(v[:2 - len(samples[k])])
        if r['failure']:
            failures.append(r['failure'])
        if r['error']:
            errors.append(r['error'])
    extra = getattr(mod, 'EVIDENCE', {})
    known = []
    if hasattr(mod, 'known_probes'):
        # deterministic probes of the findings listed in known_findings.json
        for f in load_findings(prop):
            try:
                found = f.get('status') == 'open' and mod.known_probes(f['id'])
            except Exception:   # not as it was found; the tests decide
                found = False
            if found:
                known.append(f)
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys),
            rule=mod.RULE,
            samples=[dict(test=k, case=c) for k, v in sorted(samples.items()) for c in v],
            cases_per_test=dict(per_test),
            labels=dict(sorted(labels.items())),
            known_findings=[f['id'] for f in known], **extra),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, sort_keys=True)
        f.write('\n')
    if failures:
        failures.sort(key=lambda f: len(f['case']))
        f = failures[0]
        os.makedirs(REPLAYS, exist_ok=True)
        name = '%s-%s.json' % (prop, hashlib.sha1(f['case'].encode()).hexdigest()[:10])
        path = os.path.join(REPLAYS, name)
        with open(path, 'w') as fp:
            json.dump(dict(f, property=prop, seed=seed), fp, indent=1)
        print('--- %s/%s: %s' % (prop, f['test'], f['message']))
        print('--- case: %s' % short(f['case_repr'], 1200))
        print('\n'.join(l for l in f['error'].splitlines() if l.startswith('  File'))[-1500:])
        print(short(f['error'][-1200:], 1000))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors or died or len(results) != shards:
        for e in errors[:2]:
            print(e)
        print('HARNESS ERROR property=%s errors=%d died=%r' % (prop, len(errors), died))
        return 3
    if evaluations == 0 or not keys:
        print('HARNESS ERROR property=%s: nothing non-trivial was explored' % prop)
        return 3
    print('OK property=%s evaluations=%d nontrivial=%d wall=%.1fs' % (
        prop, evaluations, len(keys), time.time() - t0))
    return 0
