"""Runner: decides one property by generated-input search.

Every property has a module checks/cXX.py with a list SUBS of sub-checks.  A
sub-check is a Hypothesis strategy that yields plain Python literals (so that a
case can be written to, and replayed from, a file) and a function that raises
when the case shows the property broken.  A sub-check may also enumerate a
finite list of cases.  Each sub-check is split in shards that run in parallel;
every shard's seed is a function of VERIF_SEED only.

Exit status: 0 held on everything explored; 1 (and a VIOLATION line) broken;
2 the check itself failed (never reported as a violation).
"""
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EBMLITE_REPO', '/repo')      # overridden only for mutation testing
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
SCALE = float(os.environ.get('PBT_SCALE', '1'))
CASE_CPU = 60       # CPU seconds; cases take milliseconds. Means "does not terminate".


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


class Skip(Exception):
    """The case is outside of the property's domain."""


class DoesNotTerminate(BaseException):
    pass


class Sub:
    """One sub-check: `strategy` (or `cases`, a function yielding cases to
    enumerate) and `fn(case, note)`."""
    def __init__(self, name, fn, strategy=None, cases=None, quick=400, thorough=8000,
                 shards=2, rule='', exhaustive=False):
        self.name, self.fn, self.strategy, self.cases = name, fn, strategy, cases
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule, self.exhaustive = rule, exhaustive


class Note:
    """Collects labels and the non-triviality verdict of one case."""
    def __init__(self):
        self.labels, self.nontrivial = {}, False

    def __call__(self, label, n=1):
        self.labels[label] = self.labels.get(label, 0) + n

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def expect(cond, *msg):
    if not cond:
        raise AssertionError(' '.join(m if isinstance(m, str) else repr(m) for m in msg))


def same(a, b, what=''):
    if type(a) is not type(b) and not (isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray))):
        raise AssertionError('%s: %s expected, got %s' % (what, short(b), short(a)))
    if a != b:
        raise AssertionError('%s: %s expected, got %s' % (what, short(b), short(a)))


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d)' % len(r)


def import_repo():
    sys.path.insert(0, REPO)
    import ebmlite
    if not os.path.realpath(ebmlite.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('ebmlite imported from %s' % ebmlite.__file__)


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(repr((SEED,) + parts).encode()).digest()[:6], 'big')


def _alarm(*_):
    raise DoesNotTerminate('no result after %d s of CPU time' % CASE_CPU)


def run_case(sub, case, note):
    """Run one case; returns None or the description of a violation."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        sub.fn(case, note)
        return None
    except (HarnessError, Skip, KeyboardInterrupt, SystemExit):
        raise
    except RecursionError as e:
        return 'RecursionError: %s' % e
    except (Exception, DoesNotTerminate) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return '%s: %s (%s:%d)' % (type(e).__name__, short(str(e), 1500), os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_job(args):
    prop, idx, shard = args
    t0 = time.time()
    res = dict(sub=None, shard=shard, evaluations=0, skipped=0, labels={}, nontrivial=[], samples=[],
               violation=None, error=None)
    try:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        signal.signal(signal.SIGVTALRM, _alarm)
        sub = load(prop)[idx]
        res['sub'] = sub.name
        seen = set()
        last = [None]

        def one(case):
            note = Note()
            res['evaluations'] += 1
            try:
                bad = run_case(sub, case, note)
            except Skip:
                res['skipped'] += 1
                return None
            for k, v in note.labels.items():
                res['labels'][k] = res['labels'].get(k, 0) + v
            if note.nontrivial:
                h = hashlib.md5(repr(case).encode('utf-8', 'surrogatepass')).digest()[:8]
                if h not in seen:
                    seen.add(h)
                    if len(seen) in (2, 30, 200):
                        res['samples'].append(short(case, 600))
            return bad

        if sub.cases is not None:
            n = sub.shards
            for i, case in enumerate(sub.cases()):
                if i % n != shard:
                    continue
                bad = one(case)
                if bad:
                    last[0] = (case, bad)
                    break
        else:
            hyp(sub, prop, shard, one, last)
        if last[0]:
            res['violation'] = (repr(last[0][0]), last[0][1])
        res['nontrivial'] = list(seen)
    except Exception as e:
        res['error'] = traceback.format_exc()
    res['wall'] = time.time() - t0
    return res


def hyp(sub, prop, shard, one, last):
    import hypothesis
    from hypothesis import settings, HealthCheck, given, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    n = sub.quick if TIER == 'quick' else sub.thorough
    n = max(1, int(n * SCALE / sub.shards))
    failing = {}

    class Violation(Exception):
        pass

    @hypothesis.seed(subseed(prop, sub.name, shard))
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=(Phase.generate, Phase.shrink))
    @given(sub.strategy)
    def test(case):
        bad = one(case)
        if bad:
            failing['case'] = (case, bad)
            raise Violation(bad)

    try:
        test()
    except Violation:
        last[0] = failing['case']
    except hypothesis.errors.Flaky:
        if 'case' not in failing:
            raise
        last[0] = (failing['case'][0], failing['case'][1] + ' [not on every repetition]')
    except BaseException:
        if 'case' in failing:       # e.g. an exception group around the violation
            last[0] = failing['case']
        else:
            raise


_loaded = {}


def load(prop):
    if prop not in _loaded:
        import_repo()
        mod = importlib.import_module('pbt.checks.' + prop.lower())
        _loaded[prop] = mod.SUBS
    return _loaded[prop]


def _child(job, conn):
    try:
        conn.send(run_job(job))
    finally:
        conn.close()


def schedule(jobs):
    """Run the jobs in parallel processes; stop at the first violation."""
    ctx = mp.get_context('fork')
    todo, running, results = list(jobs), {}, []
    width = max(2, min(8, os.cpu_count() or 4))
    try:
        while todo or running:
            while todo and len(running) < width:
                job = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(job, w))
                p.start()
                w.close()
                running[r] = (p, job)
            for r in mp.connection.wait(list(running)):
                p, job = running.pop(r)
                try:
                    res = r.recv()
                except EOFError:
                    res = dict(sub=job[1], shard=job[2], evaluations=0, skipped=0, labels={}, nontrivial=[],
                               samples=[], violation=None, error='worker of %r died' % (job,))
                p.join()
                results.append(res)
                if res['violation']:
                    return results
    finally:
        for p, _job in running.values():
            p.kill()
            p.join()
    return results


def write_replay(prop, sub, case, msg):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=msg, seed=SEED, tier=TIER,
                       how='./check.sh %s --replay %s' % (prop, path)), f, indent=1)
    return path


def known_findings(prop):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return [k for k in json.load(f)['known'] if k['property'] == prop]


def main(argv):
    prop = argv[0]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    subs = load(prop)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        signal.signal(signal.SIGVTALRM, _alarm)
        sub = [s for s in subs if s.name == r['sub']][0]
        bad = run_case(sub, ast.literal_eval(r['case']), Note())
        print(bad or 'held')
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(argv[argv.index('--replay') + 1])))
        return 1 if bad else 0
    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    jobs = [(prop, i, s) for i, sub in enumerate(subs) for s in range(sub.shards)
            if only is None or sub.name == only]
    results = schedule(jobs)
    errors = [r for r in results if r['error']]
    bad = [r for r in results if r['violation']]
    labels = {}
    for r in results:
        for k, v in r['labels'].items():
            k = '%s: %s' % (r['sub'], k)
            labels[k] = labels.get(k, 0) + v
    per = {}
    for r in results:
        p = per.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=set(), cpu_s=0))
        p['evaluations'] += r['evaluations']
        p['distinct_nontrivial'].update(r['nontrivial'])
        p['cpu_s'] = round(p['cpu_s'] + r.get('wall', 0), 1)
    for p in per.values():
        p['distinct_nontrivial'] = len(p['distinct_nontrivial'])
    mod = sys.modules['pbt.checks.' + prop.lower()]
    known = []
    for k in known_findings(prop):
        msg = mod.KNOWN[k['key']]()
        if msg:
            known.append(k['key'])
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['key'], msg))
    samples = [s for r in results for s in r['samples']][:24] or \
        [short(r['violation'][0]) for r in bad] or ['none']
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='exploration',
              coverage=dict(
                  evaluations=sum(r['evaluations'] for r in results),
                  distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per.values()),
                  rule=mod.__doc__.strip() + ' || ' + ' | '.join('%s: %s' % (s.name, s.rule) for s in subs),
                  samples=samples, sub_checks=per, labels=labels,
                  out_of_domain=sum(r['skipped'] for r in results),
                  known_findings_seen=known),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        case, msg = bad[0]['violation']
        path = write_replay(prop, bad[0]['sub'], case, msg)
        print('%s/%s: %s\ncase: %s' % (prop, bad[0]['sub'], msg, case[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print(errors[0]['error'], file=sys.stderr)
        print('harness error in %s/%s' % (prop, errors[0]['sub']), file=sys.stderr)
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    if '-v' in argv:
        print(json.dumps(dict(sub=per, labels=labels), indent=1))
    return 0


if __name__ == '__main__':
    import pbt.run as _me       # so that checks and runner share one module
    try:
        sys.exit(_me.main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
