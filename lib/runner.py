"""Runs the generated checks of one property.

A check module defines PROPERTY, RULE (text) and TESTS, a list of Test. A test
has a Hypothesis strategy that generates *plain data* (Python literals) and a
function check(case, obs) that runs the real code on the case, raises
Violation if the property is broken, and otherwise returns True if the case
was non-trivial. Everything random comes from the strategy, so a case is its
own replay.

Outcomes: exit 0 (held), exit 1 + VIOLATION line, exit 2 (error of the check).
"""
from . import boot

import argparse
import ast
import collections
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

BASE = boot.VERIF
OUT = os.environ.get('VERIF_OUT') or BASE     # where reports go
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SCALE = float(os.environ.get('VERIF_SCALE', '1'))    # for tools/mutate.py
HANG_CPU_S = 40
HANG_WALL_S = 200
SHRINK_S = {'quick': 30, 'thorough': 120}
# Generation stops (inconclusive, not a violation) when this much wall time
# has gone; sized far above what the case counts need.
BUDGET_S = {'quick': 420, 'thorough': 3000}


class Violation(Exception):
    """The property is broken by this case."""


class HangViolation(Violation):
    pass


class KnownFinding(Exception):
    def __init__(self, key):
        self.key = key


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        fail(msg, *args)


class Test:
    """gen is a function of lib.gen.D that returns the case (plain data); or
    strategy is a Hypothesis strategy of cases. quick and thorough are numbers
    of cases."""

    def __init__(self, name, gen, check, quick, thorough=None, size=1024,
                 strategy=None):
        self.name = name
        self.gen = gen
        self.strategy = strategy
        self.size = size
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 20

    def make_strategy(self):
        from hypothesis import strategies as st
        if self.strategy is not None:
            return self.strategy
        # Hypothesis gives the bytes; several lengths, so that the search
        # also sees small cases
        n = self.size
        return st.one_of(st.binary(min_size=n, max_size=n),
                         st.binary(min_size=n // 2, max_size=n),
                         st.binary(min_size=n // 8, max_size=n // 4))


class Obs:
    """What a case exercised: labels for the distribution in the evidence."""

    def __init__(self):
        self.labels = set()

    def label(self, *names):
        self.labels.update(names)


def _short(obj, n=1500):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def _from_hiku(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(boot.HIKU_DIR + os.sep) or \
                tb.tb_frame.f_code.co_filename == '<expr>':
            return True
        tb = tb.tb_next
    return False


def _origin(exc):
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return '?'
    return '%s:%s' % (last.tb_frame.f_code.co_filename, last.tb_lineno)


def run_case(test, case, obs):
    """check(case) with every exception classified."""
    import hypothesis.errors as he

    def on_alarm(signum, frame):
        raise HangViolation('no termination: %ds of CPU time or %ds of wall '
                            'time spent on one small case' % (HANG_CPU_S,
                                                              HANG_WALL_S))
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    old_wall = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
    signal.setitimer(signal.ITIMER_REAL, HANG_WALL_S)
    try:
        return test.check(case, obs)
    except (Violation, KnownFinding):
        raise
    except he.HypothesisException:
        raise
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if _from_hiku(e):
            raise Violation('unexpected exception from hiku: %s: %s\n%s' % (
                type(e).__name__, e,
                ''.join(traceback.format_exception(e)[-8:]))) from e
        if isinstance(e, (MemoryError, OSError, ImportError)):
            raise
        # checks do not fail on what hiku returns when it works
        raise Violation('the result could not be examined: %s: %s\n%s' % (
            type(e).__name__, e,
            ''.join(traceback.format_exception(e)[-4:]))) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        signal.signal(signal.SIGALRM, old_wall)


def _known(prop):
    """Known findings of this property: {key: description}."""
    path = os.path.join(BASE, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k['key']: k for k in data.get('known', [])
            if k['property'] == prop}


def _seed(base, test, worker):
    h = hashlib.sha256(('%s/%s/%s' % (base, test, worker)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def shrink(test, raw, seconds):
    """Minimizes the bytes of a failing case: drop chunks, zero chunks, lower
    bytes; accepts only cases that still violate the property."""
    from .gen import D
    deadline = time.monotonic() + seconds
    best = {'raw': raw}

    def attempt(data):
        d = D(data)
        case = test.gen(d)
        data = data[:d.pos].rstrip(b'\0')
        key = (len(data), data)
        if 'key' in best and key >= best['key']:
            return False
        try:
            run_case(test, case, Obs())
        except HangViolation:
            return False
        except Violation as e:
            best.update(raw=data, key=key, case=case, msg=str(e))
            return True
        except Exception:
            return False
        return False

    if not attempt(raw):
        return test.gen(D(raw)), 'fails only with earlier cases before it'
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best['raw']) // 2)
        while size and time.monotonic() < deadline:
            i = 0
            while i < len(best['raw']) and time.monotonic() < deadline:
                r = best['raw']
                if attempt(r[:i] + r[i + size:]) or (
                        any(r[i:i + size]) and
                        attempt(r[:i] + bytes(len(r[i:i + size])) +
                                r[i + size:])):
                    improved = True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best['raw']) and time.monotonic() < deadline:
            b = best['raw'][i]
            for new in sorted({b // 2, b % 16, b % 4, b - 1, 1}):
                r = best['raw']
                if 0 <= new < b and i < len(r) and attempt(
                        r[:i] + bytes([new]) + r[i + 1:]):
                    improved = True
                    break
            i += 1
    return best['case'], best['msg']


def worker_main(modname, tier, seed, worker, nworkers, out, only=None):
    import hypothesis
    from .gen import D
    from hypothesis import settings, HealthCheck, Phase, given
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, 'MAX_SHRINKING_SECONDS'):
        eng.MAX_SHRINKING_SECONDS = SHRINK_S[tier]
    mod = importlib.import_module('checks.' + modname)
    start = time.monotonic()
    known = _known(mod.PROPERTY)
    res = {'tests': {}, 'violation': None, 'known': {}, 'truncated': False}

    def make_body(test, st, last):
        def body(raw):
            case = raw if test.gen is None else test.gen(D(raw))
            if time.monotonic() - start > BUDGET_S[tier] \
                    and not last.get('failing'):
                st['truncated'] = True
                return
            obs = Obs()
            try:
                nontrivial = run_case(test, case, obs)
            except KnownFinding as k:
                if k.key not in known:
                    raise Violation('finding not listed: %s' % k.key)
                res['known'].setdefault(k.key, repr(case))
                st['known_skipped'] += 1
                nontrivial = False
            except HangViolation as e:
                last['failing'] = True
                last['case'], last['msg'], last['raw'] = case, str(e), raw
                raise KeyboardInterrupt  # do not shrink a hang
            except Violation as e:
                last['failing'] = True
                last['case'], last['msg'], last['raw'] = case, str(e), raw
                raise
            if last.get('failing'):
                return      # shrinking: do not count
            st['evaluations'] += 1
            st['labels'].update(obs.labels)
            if nontrivial:
                h = hashlib.blake2b(repr(case).encode('utf-8',
                                                      'surrogatepass'),
                                    digest_size=8).digest()
                if h not in st['nontrivial']:
                    st['nontrivial'].add(h)
                    if len(st['samples']) < 2 or (
                            len(st['samples']) < 4 and
                            st['evaluations'] % 37 == 0):
                        st['samples'].append(_short(case))
        return body

    for test in mod.TESTS:
        if only and test.name != only:
            continue
        total = max(int(getattr(test, tier) * SCALE), 1)
        n = total // nworkers + (1 if worker < total % nworkers else 0)
        st = res['tests'][test.name] = {
            'evaluations': 0, 'nontrivial': set(), 'labels':
            collections.Counter(), 'samples': [], 'truncated': False,
            'known_skipped': 0,
        }
        if not n:
            continue
        last = {}

        body = make_body(test, st, last)
        f = given(test.make_strategy())(body)
        f = settings(max_examples=n, database=None, deadline=None,
                     phases=(Phase.generate,) if test.gen else
                     (Phase.generate, Phase.shrink),
                     suppress_health_check=list(HealthCheck),
                     report_multiple_bugs=False, print_blob=False,
                     verbosity=hypothesis.Verbosity.quiet)(f)
        f = hypothesis.seed(_seed(seed, test.name, worker))(f)
        try:
            f()
        except BaseException as e:
            if 'case' not in last:
                raise
            del e
        if 'case' in last:
            # confirm the shrunk case without the library
            case, msg = last['case'], last['msg']
            note = ''
            if test.gen is not None and 'no termination' not in msg:
                case, msg = shrink(test, last['raw'], SHRINK_S[tier])
            if 'no termination' not in msg:
                try:
                    run_case(test, case, Obs())
                    note = ('(does not fail when run alone in the same '
                            'process: depends on earlier cases)')
                except Violation as e:
                    msg = str(e)
                except Exception as e:      # pragma: no cover
                    note = '(alone: %r)' % e
            res['violation'] = {'test': test.name, 'case': repr(case),
                                'msg': msg, 'note': note, 'worker': worker}
            break
    for st in res['tests'].values():
        st['labels'] = dict(st['labels'])
    with open(out + '.tmp', 'wb') as fp:
        pickle.dump(res, fp)
    os.rename(out + '.tmp', out)


def regression_cases(mod):
    d = os.path.join(BASE, 'regressions', mod.PROPERTY)
    if not os.path.isdir(d):
        return
    for name in sorted(os.listdir(d)):
        if name.endswith('.json'):
            with open(os.path.join(d, name)) as f:
                data = json.load(f)
            yield name, data['test'], ast.literal_eval(data['case'])


def write_replay(prop, data):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, data['test']))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, ensure_ascii=True)
    return path


def replay(modname, path):
    mod = importlib.import_module('checks.' + modname)
    with open(path) as f:
        data = json.load(f)
    test = {t.name: t for t in mod.TESTS}[data['test']]
    case = ast.literal_eval(data['case'])
    try:
        run_case(test, case, Obs())
    except KnownFinding as k:
        print('KNOWN-FINDING: property=%s %s' % (mod.PROPERTY, k.key))
        return 0
    except Violation as e:
        print(e)
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        return 1
    print('replay passes')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--test')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.worker is not None:
        worker_main(a.module, a.tier, a.seed, a.worker, WORKERS, a.out,
                    a.test)
        return 0
    if a.replay:
        return replay(a.module, a.replay)
    return parent(a)


def parent(a):
    t0 = time.monotonic()
    mod = importlib.import_module('checks.' + a.module)
    prop = mod.PROPERTY
    known = _known(prop)
    tests = {t.name: t for t in mod.TESTS}
    violation = None
    known_hit = {}
    regressions = 0
    for name, tname, case in regression_cases(mod):
        if tname not in tests:
            continue
        regressions += 1
        try:
            run_case(tests[tname], case, Obs())
        except KnownFinding as k:
            if k.key in known:
                known_hit.setdefault(k.key, repr(case))
            else:
                violation = {'test': tname, 'case': repr(case), 'worker': -1,
                             'msg': 'finding not listed: ' + k.key,
                             'note': 'saved case ' + name}
        except Violation as e:
            violation = {'test': tname, 'case': repr(case), 'msg': str(e),
                         'note': 'saved case ' + name, 'worker': -1}
        if violation:
            break

    merged = {}
    errors = []
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if violation is None:
            env = dict(os.environ, PYTHONHASHSEED='0',
                       PYTHONDONTWRITEBYTECODE='1',
                       HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, 'h'))
            procs = []
            for w in range(WORKERS):
                out = os.path.join(tmp, 'w%d' % w)
                log = open(out + '.log', 'wb')
                cmd = [sys.executable, os.path.join(BASE, 'run.py'),
                       a.module, '--tier', a.tier, '--seed', str(a.seed),
                       '--worker', str(w), '--out', out]
                if a.test:
                    cmd += ['--test', a.test]
                procs.append((subprocess.Popen(cmd, env=env, stdout=log,
                                               stderr=log,
                                               start_new_session=True),
                              out, log))
            pending = list(procs)
            results = []
            while pending:
                time.sleep(0.05)
                for p in list(pending):
                    if p[0].poll() is None:
                        continue
                    pending.remove(p)
                    if p[0].returncode == 0 and os.path.exists(p[1]):
                        with open(p[1], 'rb') as f:
                            results.append(pickle.load(f))
                    else:
                        with open(p[1] + '.log', 'rb') as f:
                            errors.append('worker exit %s:\n%s' % (
                                p[0].returncode,
                                f.read().decode('utf-8', 'replace')[-1800:]))
                if any(r['violation'] for r in results):
                    break       # others need not finish
            for p, _, log in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                log.close()
            for r in results:
                if r['violation'] and (
                        violation is None or
                        len(r['violation']['case']) < len(violation['case'])):
                    violation = r['violation']
                for k, v in r['known'].items():
                    known_hit.setdefault(k, v)
                for t, st in r['tests'].items():
                    m = merged.setdefault(t, {
                        'evaluations': 0, 'nontrivial': set(),
                        'labels': collections.Counter(), 'samples': [],
                        'truncated': False, 'known_skipped': 0})
                    m['evaluations'] += st['evaluations']
                    m['nontrivial'] |= st['nontrivial']
                    m['labels'].update(st['labels'])
                    m['samples'] += st['samples']
                    m['truncated'] |= st['truncated']
                    m['known_skipped'] += st['known_skipped']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    wall = time.monotonic() - t0
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(m['evaluations'] for m in merged.values()),
            'distinct_nontrivial': sum(len(m['nontrivial'])
                                       for m in merged.values()),
            'rule': mod.RULE,
            'samples': [{'test': t, 'case': s} for t, m in merged.items()
                        for s in m['samples'][:3]][:12],
            'regression_cases': regressions,
            'per_test': {t: {
                'evaluations': m['evaluations'],
                'distinct_nontrivial': len(m['nontrivial']),
                'excluded_as_known_finding': m['known_skipped'],
                'stopped_by_time_budget': m['truncated'],
                'classes': dict(sorted(m['labels'].items())),
            } for t, m in merged.items()},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    c = ev['coverage']
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (
        prop, a.tier, a.seed, c['evaluations'], c['distinct_nontrivial'],
        wall))
    for t, m in c['per_test'].items():
        print('  %s: %d/%d non-trivial; %s' % (
            t, m['distinct_nontrivial'], m['evaluations'],
            ', '.join('%s=%d' % kv for kv in m['classes'].items())))
    if violation:
        path = write_replay(prop, dict(violation, property=prop, seed=a.seed,
                                       tier=a.tier, module=a.module))
        print('test %s: %s %s' % (violation['test'], violation['msg'],
                                  violation['note']))
        print('case: %s' % _short(violation['case'], 3000))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('\n'.join(errors[:1]), file=sys.stderr)
        return 2
    if not c['distinct_nontrivial'] and not a.test:
        print('no non-trivial case was generated', file=sys.stderr)
        return 2
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (
            prop, known[k]['what_fails']))
    return 0
