"""
The explorer: runs the units of a property exhaustively, each in a fresh forked process, and gathers what was covered.

A property module has
    PID, TITLE, TECHNIQUE, LEVEL_NOTE, BOUND (dict tier -> text), ASSUMPTIONS
    units(tier) -> list of JSON-able unit descriptions (the bounded space, partitioned)
    run(unit, ctx)   explores everything in the unit
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAX_FAILURES_PER_UNIT = 3


class Violation(Exception):
    pass


class UnitTimeout(BaseException):
    pass


class StopUnit(Exception):
    pass


def digest(x) -> int:
    """Canonical digest of an observation (ints, str, bytes, None, bool, tuples, lists, dicts)"""
    h = hashlib.blake2b(digest_size=8)

    def feed(v):
        if isinstance(v, bytes):
            h.update(b'b%d:' % len(v))
            h.update(v)
        elif isinstance(v, (tuple, list)):
            h.update(b'(%d:' % len(v))
            for i in v:
                feed(i)
        elif isinstance(v, dict):
            feed(sorted(v.items(), key=lambda kv: repr(kv[0])))
        elif isinstance(v, (set, frozenset)):
            feed(sorted(v, key=repr))
        else:
            r = repr(v).encode()
            h.update(b'r%d:' % len(r))
            h.update(r)
    feed(x)
    return int.from_bytes(h.digest(), 'big')


class Ctx:
    """What a unit reports to the explorer"""

    def __init__(self, tier='quick', verbose=False):
        self.tier = tier
        self.verbose = verbose
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.failures = []
        self.notes = collections.Counter()
        self.case = None

    def state(self, observation):
        """A state (observation) reached. Returns True if it is new in this unit."""
        d = digest(observation)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, outcome='ok', n=1):
        """An execution of the real code that was compared with the reference"""
        self.traces += n
        self.outcomes[outcome] += n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def fail(self, case, message):
        """A property violation.  `case` is a JSON-able description of the failing input, schedule or history"""
        self.failures.append(dict(case=_jsonable(case), message=str(message)[:4000]))
        if len(self.failures) >= MAX_FAILURES_PER_UNIT:
            raise StopUnit()

    def check(self, ok, case, message):
        if not ok:
            self.fail(case() if callable(case) else case, message() if callable(message) else message)
        return ok

    def guard(self, case):
        """with ctx.guard(case): an exception inside is a violation for that case"""
        return _Guard(self, case)


class _Guard:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, StopUnit):
            return False
        self.ctx.fail(self.case() if callable(self.case) else self.case,
                      'unexpected %s: %s\n%s' % (et.__name__, ev, ''.join(traceback.format_tb(tb)[-6:])))
        return True


def _jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    return repr(x)


def raises(fn, *args, **kw):
    """(exception or None, result).  Only Exceptions are caught (AssertionError is one)."""
    try:
        return None, fn(*args, **kw)
    except (StopUnit, Violation):
        raise
    except Exception as e:
        return e, None


class Choices:
    """One execution's answers: replays a prefix, then takes 0 and records how many answers there were."""

    def __init__(self, prefix, ctx=None):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []
        self.cost = []

    def choose(self, n, cost=lambda i: 1 if i else 0):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('nondeterminism: replayed choice %d of %d at point %d' % (c, n, i))
        self.taken.append(c)
        self.arity.append(n)
        self.cost.append([cost(j) for j in range(n)])
        return c


def explore(run, bound, limit=None):
    """
    Depth-first enumeration of all choice sequences with at most `bound` deviations (choices of non-zero cost).
    `run(choices)` performs one complete execution.  Yields (choices, result).
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Choices(prefix)
        result = run(ch)
        if len(ch.taken) < len(prefix):
            raise RuntimeError('nondeterminism: execution ended before its prefix was replayed')
        n += 1
        yield ch, result
        if limit is not None and n >= limit:
            raise RuntimeError('exploration cap reached: %d' % n)
        used = [0]
        for i, c in enumerate(ch.taken):
            used.append(used[-1] + ch.cost[i][c])
        for i in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            for alt in range(1, ch.arity[i]):
                if used[i] + ch.cost[i][alt] <= bound:
                    stack.append(tuple(ch.taken[:i]) + (alt,))


# ---------------------------------------------------------------------------------------------------------------------

def load(pid):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return importlib.import_module('mc.props.%s' % pid.lower())


def _on_alarm(signum, frame):
    raise UnitTimeout()


def _run_unit(args):
    pid, index, unit, tier, timeout, keep_stdout = args
    ctx = Ctx(tier)
    t0 = time.time()
    if not keep_stdout:
        sys.stdout.flush()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(timeout)
    try:
        mod = load(pid)
        mod.run(unit, ctx)
    except StopUnit:
        pass
    except UnitTimeout:
        ctx.failures.append(dict(case=_jsonable(ctx.case), message='no termination within %d s\n%s' % (timeout, traceback.format_exc()[-2000:])))
    except BaseException:
        ctx.failures.append(dict(case=_jsonable(ctx.case), message='unexpected exception\n' + traceback.format_exc()[-4000:]))
    finally:
        signal.alarm(0)
    return dict(index=index, states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, outcomes=ctx.outcomes,
                samples=ctx.samples, failures=ctx.failures, notes=ctx.notes, wall=time.time() - t0)


def _worker_init(mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except ValueError:
        pass


def known_findings(pid):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                    out.append(line)
    except FileNotFoundError:
        pass
    return out


def run_property(pid, tier, seed, jobs=None):
    t0 = time.time()
    mod = load(pid)
    units = mod.units(tier)
    timeout = getattr(mod, 'UNIT_TIMEOUT', {}).get(tier, 600 if tier == 'quick' else 7200)
    order = list(range(len(units)))
    if order:
        r = seed % len(order)
        order = order[r:] + order[:r]
    work = [(pid, i, units[i], tier, timeout, False) for i in order]
    if units:
        work.append((pid, -1, units[order[0]], tier, timeout, False))   # determinism check: the first unit again
    jobs = jobs or getattr(mod, 'JOBS', None) or min(8, os.cpu_count() or 1)
    agg = Ctx(tier)
    failures = []
    first = again = None
    unit_walls = []
    mp = multiprocessing.get_context('fork')
    mem = getattr(mod, 'MEMORY', 6 << 30)
    # every unit runs in a process forked for it from this one, which only has imported the code
    with mp.Pool(jobs, initializer=_worker_init, initargs=(mem,), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_run_unit, work, chunksize=1):
            if r['index'] == -1:
                again = r
                continue
            if r['index'] == order[0]:
                first = r
            agg.states |= r['states']
            agg.transitions += r['transitions']
            agg.traces += r['traces']
            agg.outcomes.update(r['outcomes'])
            agg.notes.update(r['notes'])
            unit_walls.append(r['wall'])
            if len(agg.samples) < 12:
                agg.samples.extend(dict(unit=_jsonable(units[r['index']]), **_jsonable(s)) for s in r['samples'][:1])
            for f in r['failures']:
                failures.append(dict(property=pid, tier=tier, unit=units[r['index']], **f))
            if len(failures) > 20:
                pool.terminate()
                break
    deterministic = None
    if first is not None and again is not None:
        deterministic = first['states'] == again['states'] and first['traces'] == again['traces']
        if not deterministic and not failures and not again['failures']:
            # the same unit explored different things: the run cannot be trusted
            failures.append(dict(property=pid, tier=tier, unit=units[order[0]], case=None,
                                 message='the same unit explored twice gave different observations'))
        for f in again['failures']:
            if not failures:
                failures.append(dict(property=pid, tier=tier, unit=units[order[0]], **f))
    reported = report(pid, failures)
    wall = time.time() - t0
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=len(agg.states), transitions=agg.transitions, traces_validated_against_impl=agg.traces,
            samples=agg.samples[:8] or [dict(note='no sample: the run stopped at a violation')],
            exhaustive=not failures,
            bound=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
            units=len(units), distinct_outcomes=len(agg.outcomes), outcomes=dict(agg.outcomes.most_common(40)),
            notes=dict(agg.notes), replay_deterministic=deterministic,
            slowest_unit_s=round(max(unit_walls), 2) if unit_walls else 0.0),
        assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=reported)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)
    print('%s %s: %d units, %d states, %d transitions, %d executions compared, %d distinct outcomes, %.1f s' % (
        pid, tier, len(units), len(agg.states), agg.transitions, agg.traces, len(agg.outcomes), wall))
    return 1 if reported else 0


def report(pid, failures):
    """Print each failure; those listed as known findings are not violations. Returns the number of violations."""
    known = known_findings(pid)
    used = set()
    n = 0
    for f in failures:
        text = json.dumps(f.get('case'))
        hit = None
        for k in known:
            key = k.split('case=', 1)[1] if 'case=' in k else None
            if key is not None and key == text:
                hit = k
        if hit:
            used.add(hit)
            continue
        n += 1
        if n > 5:
            continue
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%d.json' % (pid, n))
        with open(path, 'w') as out:
            json.dump(f, out, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case: %s' % text[:600])
        for line in f['message'].splitlines()[:12]:
            print('  | ' + line[:300])
    for k in known:
        print(k.split(' case=')[0])
    return n


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    r = _run_unit((rec['property'], 0, rec['unit'], rec['tier'], 3600, True))
    if not r['failures']:
        print('REPLAY property=%s: no violation now' % rec['property'])
        return 0
    for f in r['failures']:
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        print('  case: %s' % json.dumps(f['case']))
        print(f['message'])
    return 1
