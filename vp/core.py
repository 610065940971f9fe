"""Harness core: cases, violations, contexts, generators' building blocks and the Hypothesis driver for one shard."""
from . import env  # noqa: F401  (must come first)
import contextlib
import hashlib
import importlib
import io
import json
import copy
import math
import time
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import strategies as st, settings, HealthCheck, Phase, Verbosity
from hypothesis.errors import UnsatisfiedAssumption

warnings.filterwarnings('ignore')

MFS_ROOT = env.REPO.rstrip('/') + '/mfs/'


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    """The case cannot be decided (e.g. too ill-conditioned for double precision); counted, never a violation."""


class Stop(Exception):
    pass


def to_json(x):
    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return repr(x)
    if hasattr(x, 'tolist'):
        return to_json(np.asarray(x).tolist())
    return repr(x)


class Ctx:
    """Given to a check for one case: comparison helpers, labels, non-triviality."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.calls = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def call(self, name, fn, *args, **kwargs):
        """Call code under test on a valid input: an exception is a violation, and so is a changed input."""
        self.calls += 1
        given = [(a, copy.deepcopy(a)) for a in list(args) + list(kwargs.values()) if isinstance(a, (np.ndarray, list))]
        try:
            out = fn(*args, **kwargs)
            for a, b in given:
                if type(a) is not type(b) or not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(b).dtype.kind in 'fc'):
                    raise Violation(f'{name}: changed its input in place', before=b, after=a)
            return out
        except (KeyboardInterrupt, MemoryError, Stop, Violation, Inconclusive):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            in_mfs = [f for f in tb if f.filename.startswith(MFS_ROOT)]
            if not in_mfs:
                raise
            raise Violation(f'{name}: raised {type(e).__name__} on a valid input',
                            error=str(e)[:600], where=f'{in_mfs[-1].filename}:{in_mfs[-1].name}')

    def arr(self, x, shape=None, name='output', finite=True, dtype=float):
        try:
            a = np.asarray(x)
            if dtype is float:
                a = a.astype(np.float64)
            elif dtype is complex:
                a = a.astype(np.complex128)
        except Exception as e:  # noqa: BLE001
            raise Violation(f'{name}: not a numeric array', error=str(e)[:300])
        if shape is not None and tuple(a.shape) != tuple(shape):
            raise Violation(f'{name}: wrong shape', shape=list(a.shape), expected_shape=list(shape))
        if finite and not np.all(np.isfinite(a)):
            raise Violation(f'{name}: not finite', value=a)
        return a

    def scalar(self, x, name='output', finite=True):
        a = self.arr(x, None, name, finite)
        if a.size != 1:
            raise Violation(f'{name}: expected a scalar', shape=list(a.shape))
        return float(a.reshape(()))

    def close(self, actual, expected, name, rtol=1e-9, atol=0., tol=None, finite=True):
        e = np.asarray(expected)
        dt = complex if np.iscomplexobj(e) else float
        a = self.arr(actual, e.shape, name, finite, dtype=dt)
        t = np.asarray(atol + rtol * np.abs(e)) if tol is None else np.asarray(tol)
        bad = ~(np.abs(a - e) <= t)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(bad, np.abs(a - e) / np.maximum(t, 1e-300), -1.))), bad.shape) \
                if bad.shape else ()
            raise Violation(f'{name}: differs from the expected value', at=list(map(int, i)),
                            actual=a[i], expected=e[i], tolerance=np.broadcast_to(t, bad.shape)[i],
                            n_bad=int(np.sum(bad)))

    def true(self, cond, name, **detail):
        if not bool(cond):
            raise Violation(name, **detail)

    def equal(self, a, b, name):
        if a != b:
            raise Violation(f'{name}: differs', actual=a, expected=b)

    def raises(self, name, exc, fn, *args, **kwargs):
        self.calls += 1
        try:
            fn(*args, **kwargs)
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(f'{name}: raised {type(e).__name__} instead', error=str(e)[:300])
        raise Violation(f'{name}: invalid input accepted')

    def inconclusive(self, why):
        raise Inconclusive(why)


class Sub:
    """One executable statement of (a part of) a property."""

    def __init__(self, name, strategy, check, quick=100, thorough=None, shards=1, pinned=(), rule=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.shards = quick, thorough or quick * 10, shards
        self.pinned, self.rule = list(pinned), rule


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subs = {}

    def sub(self, name, strategy, quick=100, thorough=None, shards=1, pinned=(), rule=''):
        def deco(fn):
            assert name not in self.subs
            self.subs[name] = Sub(name, strategy, fn, quick, thorough, shards, pinned, rule)
            return fn

        return deco


# ------------------------------------------------------------------------------------------------- building blocks
def q(lo, hi, den=64):
    """A float on a dyadic grid: exactly representable, shrinks towards 0."""
    return st.integers(math.ceil(lo * den), math.floor(hi * den)).map(lambda k: k / den)


def qpos(lo, hi, den=64):
    """Positive float on a grid, shrinks towards 1 (or the lower bound)."""
    a, b = max(1, math.ceil(lo * den)), math.floor(hi * den)
    if a <= den <= b:
        return st.integers(a - den, b - den).map(lambda k: (k + den) / den)
    return st.integers(a, b).map(lambda k: k / den)


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def mat(elem, n, m):
    return st.lists(st.lists(elem, min_size=m, max_size=m), min_size=n, max_size=n)


@st.composite
def tril(draw, d, off=1.0, lo=0.25, hi=2.0):
    """Lower triangular factor with positive diagonal -> SPD matrix L L^T."""
    out = [[0.] * d for _ in range(d)]
    for i in range(d):
        for j in range(i):
            out[i][j] = draw(q(-off, off, 16))
        out[i][i] = draw(qpos(lo, hi, 16))
    return out


def spd(L):
    L = np.asarray(L, dtype=float)
    return L @ L.T


@st.composite
def simplex(draw, n, den=64):
    w = [draw(st.integers(1, den)) for _ in range(n)]
    s = sum(w)
    return [v / s for v in w]


@st.composite
def separated(draw, n, gap=0.25, maxgap=1.5, lo=-3., hi=3., den=32):
    """n ascending numbers separated by at least `gap`."""
    x = draw(q(lo, hi, den))
    out = [x]
    for _ in range(n - 1):
        x = x + draw(qpos(gap, maxgap, den))
        out.append(x)
    return out


# ------------------------------------------------------------------------------------------------- driver
def load(pid):
    return importlib.import_module(f'vp.props.{pid.lower()}').PROP


def case_key(case):
    return hashlib.sha1(json.dumps(to_json(case), sort_keys=True).encode()).hexdigest()[:16]


def run_one(sub, case):
    """Returns (ctx, violation|None). Other exceptions are harness errors."""
    ctx = Ctx()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.check(case, ctx)
    except Violation as v:
        return ctx, v
    except Inconclusive as i:
        ctx.labels.append(f'inconclusive: {i}')
        ctx.nontrivial = False
        ctx.inconcl = True
        return ctx, None
    except Exception as e:  # noqa: BLE001  an exception that came out of the code under test is a violation as well
        tb = traceback.extract_tb(e.__traceback__)
        in_mfs = [f for f in tb if f.filename.startswith(MFS_ROOT)]
        if in_mfs and not isinstance(e, (MemoryError, ImportError)):
            return ctx, Violation(f'code under test raised {type(e).__name__}', error=str(e)[:600],
                                  where=f'{in_mfs[-1].filename}:{in_mfs[-1].name}')
        raise
    return ctx, None


def run_shard(pid, name, tier, shard, n_examples, seed, budget, shrink_budget=60.):
    """Run one shard of one sub-check; returns a JSON-able result."""
    t0 = time.time()
    prop = load(pid)
    sub = prop.subs[name]
    res = dict(sub=name, shard=shard, evaluations=0, nontrivial=[], labels={}, inconclusive=0, calls=0, samples=[],
               skipped_budget=0, failure=None, error=None)
    state = dict(fail=None, fail_t=None)

    def note(case, ctx):
        res['evaluations'] += 1
        res['calls'] += ctx.calls
        if getattr(ctx, 'inconcl', False):
            res['inconclusive'] += 1
        for lab in set(ctx.labels):
            res['labels'][lab] = res['labels'].get(lab, 0) + 1
        if ctx.nontrivial:
            res['nontrivial'].append(case_key(case))
            if len(res['samples']) < 2:
                res['samples'].append(to_json(case))

    def execute(case):
        if state['fail'] is None and time.time() - t0 > budget:
            res['skipped_budget'] += 1
            return
        if state['fail_t'] is not None and time.time() - state['fail_t'] > shrink_budget:
            raise Stop()
        ctx, v = run_one(sub, case)
        if state['fail'] is None:
            note(case, ctx)
        if v is not None:
            if state['fail_t'] is None:
                state['fail_t'] = time.time()
            state['fail'] = (case, v)
            raise v

    try:
        if shard == 0:
            for case in sub.pinned:
                execute(case)
        if n_examples > 0:
            s = int.from_bytes(hashlib.sha256(f'{seed}/{pid}/{name}/{shard}'.encode()).digest()[:6], 'big')

            @hypothesis.seed(s)
            @settings(max_examples=n_examples, database=None, deadline=None, derandomize=False,
                      report_multiple_bugs=False, verbosity=Verbosity.quiet, print_blob=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))
            @hypothesis.given(sub.strategy)
            def test(case):
                execute(case)

            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                test()
    except UnsatisfiedAssumption:
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if state['fail'] is None:
            res['error'] = ''.join(traceback.format_exception(e))[-4000:]
    if state['fail'] is not None:
        case, v = state['fail']
        _, v2 = run_one(sub, case)
        res['failure'] = dict(case=to_json(case), what=(v2 or v).what, detail=to_json((v2 or v).detail),
                              reproduced=v2 is not None)
    res['wall'] = time.time() - t0
    return res
