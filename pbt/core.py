"""Runner: drives generated cases through the checks of one property.

A *sub-check* is (strategy, function).  The strategy yields plain Python
literals (so that a case can be written to a replay file with repr and read
back with eval); the function exercises the real code on the case
and raises on any violation.  It returns True when the case was non-trivial by
the rule stated in its registration.
"""
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import contextlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 90          # a single case takes milliseconds
QUICK_FACTOR = 2.5         # multiplies the registered quick counts
REGISTRY = {}              # property -> [Sub]
CORPUS = {}                # (property, sub) -> [case]


class Violation(AssertionError):
    pass


class Hang(BaseException):
    pass


class Sub(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule):
        self.prop, self.name, self.strategy = prop, name, strategy
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.rule = rule


def sub(prop, name, strategy, quick, thorough=None, rule=''):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 40, rule))
        return fn
    return deco


def corpus(prop, name, *cases):
    CORPUS.setdefault((prop, name), []).extend(cases)


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else repr(m)
                                 for m in msg))


def close(a, b, rel=1e-9, absol=1e-9):
    return abs(a - b) <= max(absol, rel * max(abs(a), abs(b)))


# --------------------------------------------------------------------------

def reset_library():
    """Make a case independent of the cases run before it."""
    from concept_formation.cobweb import CobwebNode
    from concept_formation.cobweb3 import Cobweb3Node
    for c in (CobwebNode, Cobweb3Node):
        if '_counter' in vars(c):
            c._counter = 0
    import concept_formation.preprocessor as pp
    if hasattr(pp, '_reset_gensym'):
        pp._reset_gensym()
    random.seed(20240229)


def _alarm(signum, frame):
    raise Hang()


def run_case(s, case):
    """Run one case; any exception is a violation of the property."""
    reset_library()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return s.fn(case)
    except Hang:
        raise Violation('no result within %d s' % CASE_LIMIT_S)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
             for f in tb if 'hypothesis' not in f.filename][-3:]
    return '%s: %s [%s]' % (type(exc).__name__, exc, '; '.join(where))


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(3000)


def shard(args):
    """Run one shard of one sub-check in a worker process."""
    prop, idx, n, seed, first = args
    _limits()
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    try:
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 40
    except Exception:
        pass
    s = REGISTRY[prop][idx]
    st = {'eval': 0, 'hashes': set(), 'samples': [], 'fail': None,
          'trivial_sample': None}
    t0 = time.time()

    def one(case):
        failed_before = st['fail'] is not None
        try:
            nontrivial = run_case(s, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            if type(e).__name__ in ('StopTest', 'UnsatisfiedAssumption'):
                raise
            if not failed_before:
                st['eval'] += 1
            st['fail'] = (case, describe(e))
            raise
        if failed_before:
            return
        st['eval'] += 1
        if nontrivial:
            r = repr(case)
            h = hashlib.blake2b(r.encode('utf8', 'replace'),
                                digest_size=8).digest()
            if h not in st['hashes']:
                st['hashes'].add(h)
                if len(r) < 2500 and len(st['samples']) < 3:
                    st['samples'].append(r)

    if first:
        for case in CORPUS.get((prop, s.name), []):
            try:
                one(case)
            except Exception:
                break
    if st['fail'] is None:
        sd = int.from_bytes(hashlib.blake2b(
            ('%s/%s/%d/%d' % (prop, s.name, seed[0], seed[1])).encode(),
            digest_size=8).digest(), 'big')
        wrapped = hypothesis.seed(sd)(settings(
            max_examples=n, database=None, deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate] if os.environ.get('VERIF_NOSHRINK')
            else [Phase.generate, Phase.shrink],
            report_multiple_bugs=False, print_blob=False,
            verbosity=hypothesis.Verbosity.quiet)(given(s.strategy)(one)))
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), \
                    contextlib.redirect_stderr(buf):
                wrapped()
        except Exception as e:
            if st['fail'] is None:
                # the generator itself failed: an error of the check
                return dict(sub=idx, error=traceback.format_exc())
    return dict(sub=idx, eval=st['eval'], hashes=st['hashes'],
                samples=st['samples'], fail=st['fail'],
                secs=time.time() - t0)


def load_props():
    for m in ('props_flat', 'props_query', 'props_pre', 'props_struct',
              'props_tools', 'props_more'):
        importlib.import_module('pbt.' + m)
    importlib.import_module('pbt.regressions')


def write_replay(prop, s, case, msg):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, sub=s.name, case=repr(case), message=msg)
    tag = hashlib.blake2b(body['case'].encode('utf8', 'replace'),
                          digest_size=4).hexdigest()
    path = os.path.join(d, '%s-%s-%s.json' % (prop, s.name, tag))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def replay(path):
    body = json.load(open(path))
    for s in REGISTRY[body['property']]:
        if s.name == body['sub']:
            case = eval(body['case'], {'__builtins__': {},
                                       'frozenset': frozenset})
            try:
                run_case(s, case)
            except Exception as e:
                print(describe(e))
                print('VIOLATION property=%s replay=%s' % (body['property'],
                                                           path))
                return 1
            print('replay passes')
            return 0
    print('no such sub-check')
    return 2


def main(argv):
    args = list(argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    only = None
    if '--sub' in args:
        i = args.index('--sub')
        only = args[i + 1]
        del args[i:i + 2]
    factor = 1.0
    if '--factor' in args:
        i = args.index('--factor')
        factor = float(args[i + 1])
        del args[i:i + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(3000)
    load_props()
    from pbt import known
    if args and args[0] == '--replay':
        return replay(args[1])
    if args and args[0] == '--selftest':
        import hypothesis
        print('hypothesis %s, %d properties, %d sub-checks' % (
            hypothesis.__version__, len(REGISTRY),
            sum(len(v) for v in REGISTRY.values())))
        return 0
    prop = args[0]
    subs = REGISTRY.get(prop)
    if not subs:
        print('unknown property', prop)
        return 2
    t0 = time.time()
    nproc = max(1, min(int(os.environ.get('VERIF_PROCS', '8')),
                       os.cpu_count() or 1))
    tasks = []
    for idx, s in enumerate(subs):
        if only and s.name != only:
            continue
        n = int((s.quick * QUICK_FACTOR if tier == 'quick'
                 else s.thorough) * factor)
        shards = max(1, min(nproc if tier == 'quick' else nproc * 8,
                            n // 20))
        for k in range(shards):
            tasks.append((prop, idx, max(1, n // shards), (seed, k), k == 0))
    # interleave the sub-checks over time
    tasks.sort(key=lambda t: (t[3][1], t[1]))
    agg = {i: dict(eval=0, hashes=set(), samples=[], secs=0.0)
           for i in range(len(subs))}
    fail = error = None
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(nproc, maxtasksperchild=None)
    try:
        for r in pool.imap_unordered(shard, tasks):
            if 'error' in r:
                error = (subs[r['sub']], r['error'])
                break
            a = agg[r['sub']]
            a['eval'] += r['eval']
            a['hashes'] |= r['hashes']
            a['secs'] += r['secs']
            if len(a['samples']) < 2:
                a['samples'].extend(r['samples'][:2 - len(a['samples'])])
            if r['fail'] is not None:
                fail = (subs[r['sub']],) + r['fail']
                break
    finally:
        pool.terminate()
        pool.join()

    rc = 0
    if fail is not None:
        s, case, msg = fail
        path = write_replay(prop, s, case, msg)
        print('sub-check %s: %s' % (s.name, msg[:1500]))
        print('case: %s' % repr(case)[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif error is not None:
        print('check error in %s:\n%s' % (error[0].name, error[1]))
        rc = 2
    for line in known.lines(prop):
        print(line)

    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=sum(a['eval'] for a in agg.values()),
                  distinct_nontrivial=sum(len(a['hashes'])
                                          for a in agg.values()),
                  rule='Hypothesis-generated cases per sub-check; non-trivial '
                       'by: ' + '; '.join('%s: %s' % (s.name, s.rule)
                                          for s in subs),
                  samples=[dict(sub=subs[i].name, case=c)
                           for i, a in agg.items() for c in a['samples'][:1]]
                  or [dict(note='no sample: run ended early')],
                  per_sub={subs[i].name: dict(
                      evaluations=a['eval'],
                      distinct_nontrivial=len(a['hashes']),
                      worker_seconds=round(a['secs'], 1))
                      for i, a in agg.items()}),
              assumptions=[
                  'generated domain as described in DESIGN.md',
                  'the reference oracle in /verif/pbt is right'],
              wall_s=round(time.time() - t0, 2),
              violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
            prop, ev['coverage']['evaluations'],
            ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return rc
