"""Facets, the worker that searches one facet, and replays."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """A case got no result in time (a BaseException: the library must not swallow it)."""


CASE_SECONDS = int(os.environ.get('JV_CASE_SECONDS') or 90)


def _on_alarm(signum, frame):
    raise Hang()


class HarnessError(Exception):
    """The check itself is at fault (never reported as a violation)."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(obj, n=300):
    try:
        s = repr(obj)
    except Exception as err:   # a half built object of a broken library
        s = '<unrepresentable %s: %s>' % (type(obj).__name__, err)
    return s if len(s) <= n else s[:n - 3] + '...'


class Ctx:
    """Collects what one case exercised."""
    __slots__ = ('nontrivial', 'labels')

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def label(self, *names):
        self.labels.extend(names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, shards=1, tshards=8,
                 max_shrink=None):
        self.name = name
        self.strategy = strategy     # () -> SearchStrategy of JSON-able cases
        self.check = check           # (case, ctx) -> None, raises Violation
        self.quick = quick           # number of cases, all shards together
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards


class Prop:
    def __init__(self, id, rule, facets, assumptions=()):
        self.id = id
        self.rule = rule
        self.facets = facets
        self.assumptions = list(assumptions)

    def facet(self, name):
        for f in self.facets:
            if f.name == name:
                return f
        raise HarnessError('no facet %s in %s' % (name, self.id))


def canon(case):
    return json.dumps(case, sort_keys=False, separators=(',', ':'))


def normal(case):
    return json.loads(canon(case))


def run_case(facet, case, ctx):
    """Judge one case; everything but a HarnessError is a Violation."""
    from hypothesis.errors import UnsatisfiedAssumption
    from jv import world
    world.reset()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            facet.check(case, ctx)
    except (Violation, HarnessError, UnsatisfiedAssumption):
        raise
    except Hang:
        raise Violation('no result within %d s' % CASE_SECONDS) from None
    except Exception as err:
        tb = traceback.format_exc(limit=-6)
        raise Violation('unexpected %s: %s\n%s' % (type(err).__name__, err, tb)) from None
    finally:
        signal.alarm(0)


def derive_seed(*parts):
    h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def search(prop, facet, seed, n):
    """Run hypothesis on one facet. Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 60

    t0 = time.time()
    stats = {'evaluations': 0, 'labels': {}, 'samples': [], 'nontrivial': 0}
    distinct = set()
    best = {}
    state = {'failed': False}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None,
              report_multiple_bugs=False, print_blob=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow,
                                     HealthCheck.large_base_example,
                                     HealthCheck.data_too_large])
    @given(facet.strategy())
    def test(case):
        case = normal(case)
        ctx = Ctx()
        try:
            run_case(facet, case, ctx)
        except Violation as err:
            state['failed'] = True
            key = len(canon(case))
            if not best or key <= best['key']:
                best.update(key=key, case=case, msg=str(err))
            msg = str(err)
        else:
            msg = None
        if not state['failed'] and msg is None:
            stats['evaluations'] += 1
            for lab in ctx.labels:
                stats['labels'][lab] = stats['labels'].get(lab, 0) + 1
            if ctx.nontrivial:
                h = hashlib.md5(canon(case).encode('utf-8', 'surrogatepass')).digest()[:8]
                if h not in distinct:
                    distinct.add(h)
                    if len(distinct) in (3, 40, 150):
                        stats['samples'].append(canon(case)[:700])
        if msg is not None:
            raise Violation(msg)

    error = None
    try:
        test()
    except HarnessError:
        error = traceback.format_exc()
    except BaseException as err:
        if isinstance(err, KeyboardInterrupt):
            raise
        if not best:
            error = traceback.format_exc()
    stats['nontrivial'] = len(distinct)
    result = {'property': prop.id, 'facet': facet.name, 'seed': seed, 'n': n,
              'stats': stats, 'wall_s': time.time() - t0, 'error': error,
              'distinct': [d.hex() for d in distinct],
              'failure': None}
    if best:
        result['failure'] = {'case': best['case'], 'msg': best['msg']}
    return result


def load_prop(pid):
    import importlib
    return importlib.import_module('jv.props.' + pid.lower()).PROP


def worker_main(argv):
    from jv.boot import boot
    boot()
    mode = argv[0]
    if mode == 'search':
        pid, fname, seed, n, out = argv[1:6]
        prop = load_prop(pid)
        res = search(prop, prop.facet(fname), int(seed), int(n))
        with open(out, 'w') as f:
            json.dump(res, f)
        return 0
    if mode == 'replay':
        # exit 0: holds, 1: violation, other: error
        with open(argv[1]) as f:
            rep = json.load(f)
        prop = load_prop(rep['property'])
        facet = prop.facet(rep['facet'])
        if rep.get('kind') == 'session':
            res = search(prop, facet, rep['seed'], rep['n'])
            if res['error']:
                print(res['error'])
                return 3
            if res['failure']:
                print(res['failure']['msg'])
                return 1
            return 0
        try:
            run_case(facet, rep['case'], Ctx())
        except Violation as err:
            print(str(err))
            return 1
        return 0
    raise SystemExit('unknown worker mode')


if __name__ == '__main__':
    import jv.core
    sys.exit(jv.core.worker_main(sys.argv[1:]))
