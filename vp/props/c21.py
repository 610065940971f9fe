from ..core import *
import random
import jax
import jax.numpy as jnp
import scipy.stats as ss
from functools import partial
from mfs.classical_filters_smoothers.resampling import systematic, stratified, multinomial, continuous_resampling

PROP = Prop('C21', rule='at least two particles of positive, unequal weight',
            assumptions=['double precision (jax x64) is enabled', 'weights are normalised',
                         'distributional statements are decided by the Dvoretzky-Kiefer-Wolfowitz bound at probability 1e-12 of a false alarm'])
SCHEMES = dict(systematic=systematic, stratified=stratified, multinomial=multinomial)
JIT = {k: jax.jit(f) for k, f in SCHEMES.items()}
_cont = jax.jit(continuous_resampling, static_argnums=(2,))
KINDS = ['dense', 'dense', 'uniform', 'onehot', 'zeros', 'uneven', 'trailing zeros', 'leading zeros']


@st.composite
def weights(draw, ns):
    n = draw(st.sampled_from(ns))
    kind = draw(st.sampled_from(KINDS))
    if kind == 'uniform':
        k = [1] * n
    elif kind == 'onehot':
        k = [0] * n
        k[draw(st.integers(0, n - 1))] = 1
    else:
        r = draw(st.randoms(use_true_random=False)) if n < 1000 else random.Random(draw(st.integers(0, 2 ** 32)))
        k = [r.randint(1, 64) for _ in range(n)]
        if kind == 'zeros':
            k = [0 if r.random() < 0.5 else v for v in k]
        if kind == 'uneven':
            k = [v if r.random() < 0.2 else v * 1e-9 for v in k]
        if kind == 'trailing zeros':
            z = r.randint(0, n - 1)
            k = [v if i < n - z else 0 for i, v in enumerate(k)]
        if kind == 'leading zeros':
            z = r.randint(0, n - 1)
            k = [v if i >= z else 0 for i, v in enumerate(k)]
        if sum(k) == 0:
            k[r.randint(0, n - 1)] = 1
    return dict(kind=kind, k=k)


def normalised(c):
    """Weights; dyadic (exactly representable partial sums) except for the uneven kind."""
    k = np.array(c['k'], dtype=float)
    if c['kind'] in ('uneven', 'uniform'):
        return k / k.sum(), False
    # move to a dyadic simplex: scale to 2^20 and give the remainder to the largest
    w = np.floor(k / k.sum() * 2 ** 20)
    w[np.argmax(w)] += 2 ** 20 - w.sum()
    return w / 2 ** 20, True


@st.composite
def case(draw):
    c = draw(weights([1, 2, 3, 5, 8, 17, 100, 333, 20000]))
    c.update(key=draw(st.integers(0, 2 ** 31 - 1)), jit=draw(st.booleans()))
    return c


def run(c, ctx, name, w):
    key = jax.random.PRNGKey(c['key'])
    f = JIT[name] if c['jit'] else SCHEMES[name]
    idx = np.asarray(ctx.call(name, f, jnp.asarray(w), key))
    n = len(w)
    ctx.true(idx.shape == (n,), f'{name}: wrong number of indices', shape=list(idx.shape))
    ctx.true(np.issubdtype(idx.dtype, np.integer), f'{name}: indices are not integers', dtype=str(idx.dtype))
    ctx.true(np.all((idx >= 0) & (idx < n)), f'{name}: index out of range', idx=idx)
    ctx.true(np.all(np.diff(idx) >= 0), f'{name}: indices not ascending', idx=idx)
    again = np.asarray(f(jnp.asarray(w), key))
    ctx.true(np.array_equal(idx, again), f'{name}: not reproducible')
    return idx


@PROP.sub('selection', case(), quick=600, thorough=8000, shards=4)
def selection(c, ctx):
    """Shape, range, order, zero weights and the deterministic guarantees of each scheme."""
    w, exact = normalised(c)
    n = len(w)
    ctx.label(c['kind'], f'n={n}')
    ctx.nt(np.sum(w > 0) >= 2 and len(set(w[w > 0])) > 1)
    cs = np.cumsum(w)
    lo, hi = np.concatenate([[0.], cs[:-1]]), np.concatenate([cs[:-1], [1.]])
    i = np.arange(n)
    eps = 1e-9 * n
    for name in SCHEMES:
        idx = run(c, ctx, name, w)
        if exact:
            ctx.true(np.all(w[idx] > 0), f'{name}: a particle of zero weight was selected', idx=idx, w=w)
        count = np.bincount(idx, minlength=n)
        if name == 'systematic':
            a, b = np.max(n * lo[idx] - i), np.min(n * hi[idx] - i)
            ctx.true(max(a, 0.) <= min(b, 1.) + eps, 'systematic: no single offset explains the selection', idx=idx, w=w)
            ctx.true(np.all(np.abs(count - n * w) <= 1 + eps), 'systematic: count differs from its expectation by more than one', count=count, w=w)
        if name == 'stratified':
            a, b = n * lo[idx] - i, n * hi[idx] - i
            ctx.true(np.all(np.maximum(a, 0.) <= np.minimum(b, 1.) + eps), 'stratified: a draw is outside its stratum', idx=idx, w=w)
            ctx.true(np.all(np.abs(count - n * w) <= 2 + eps), 'stratified: count differs from its expectation by more than two', count=count, w=w)


KEYS = 20000
EPS = math.sqrt(math.log(2 / 1e-12) / (2 * KEYS))


@partial(jax.jit, static_argnums=(0,))
def many(name, w, key):
    return jax.vmap(lambda k: SCHEMES[name](w, k))(jax.random.split(key, KEYS))


@st.composite
def law_case(draw):
    c = draw(weights([2, 3, 5, 8]))
    c.update(key=draw(st.integers(0, 2 ** 31 - 1)), scheme=draw(st.sampled_from(sorted(SCHEMES))))
    return c


def poisson_binomial(ps):
    v = np.array([1.])
    for p in ps:
        v = np.convolve(v, [1 - p, p])
    return v


@PROP.sub('law', law_case(), quick=100, thorough=1500, shards=4)
def law(c, ctx):
    """Over keys, the count of every particle follows the law of the scheme (and is unbiased)."""
    w, _ = normalised(c)
    n = len(w)
    ctx.label(c['scheme'], c['kind'], f'n={n}')
    ctx.nt(np.sum(w > 0) >= 2 and len(set(w[w > 0])) > 1)
    idx = np.asarray(ctx.call(c['scheme'], many, c['scheme'], jnp.asarray(w), jax.random.PRNGKey(c['key'])))
    ctx.true(idx.shape == (KEYS, n), 'shape')
    cs = np.concatenate([[0.], np.cumsum(w)])
    cs[-1] = 1.
    for j in range(n):
        count = np.sum(idx == j, axis=1)
        if c['scheme'] == 'multinomial':
            pmf = ss.binom.pmf(np.arange(n + 1), n, w[j])
        elif c['scheme'] == 'systematic':
            f = math.floor(n * w[j] + 1e-12)
            pmf = np.zeros(n + 2)
            pmf[f], pmf[f + 1] = 1 - (n * w[j] - f), n * w[j] - f
        else:
            pmf = poisson_binomial([max(0., min(cs[j + 1] * n, i + 1) - max(cs[j] * n, i)) for i in range(n)])
        emp = np.cumsum(np.bincount(count, minlength=len(pmf))[:len(pmf)]) / KEYS
        ctx.true(np.max(np.abs(emp - np.cumsum(pmf))) <= EPS, f'{c["scheme"]}: law of the count of a particle', particle=j, w=w, empirical=np.diff(emp, prepend=0.), expected=pmf)
        ctx.true(abs(np.mean(count) - n * w[j]) <= EPS * (2 if c['scheme'] != 'multinomial' else n), f'{c["scheme"]}: biased', particle=j, mean=np.mean(count), expected=n * w[j])
    # spread of the whole selection: number of distinct survivors is covered by counts; pairs of positions
    if c['scheme'] == 'multinomial':
        # order statistics: index at position k follows the k-th smallest of n independent draws
        F = np.cumsum(w)
        for k in range(n):
            exp = ss.binom.sf(k, n, np.minimum(F, 1.))  # P(at least k+1 draws <= j)
            emp = np.array([np.mean(idx[:, k] <= j) for j in range(n)])
            ctx.true(np.max(np.abs(emp - exp)) <= EPS, 'multinomial: law of the ordered selection', position=k)
    else:
        # position i selects j with probability n |[i/n, (i+1)/n) intersected with the j-th interval of the distribution function|
        for i in range(n):
            exp = np.array([max(0., min(cs[j + 1] * n, i + 1) - max(cs[j] * n, i)) for j in range(n)])
            emp = np.array([np.mean(idx[:, i] == j) for j in range(n)])
            ctx.true(np.max(np.abs(emp - exp)) <= 2 * EPS, f'{c["scheme"]}: law of a position', position=i, expected=exp, empirical=emp)
        if n >= 2 and c['scheme'] == 'stratified':
            # strata are independent: joint law of the first two positions
            p0, p1 = [np.array([max(0., min(cs[j + 1] * n, i + 1) - max(cs[j] * n, i)) for j in range(n)]) for i in (0, 1)]
            for a in range(n):
                for b in range(n):
                    ctx.true(abs(np.mean((idx[:, 0] == a) & (idx[:, 1] == b)) - p0[a] * p1[b]) <= 2 * EPS, 'stratified: strata not independent', pair=[a, b])


@st.composite
def cont_case(draw):
    n = draw(st.sampled_from([2, 3, 4, 7, 50]))
    c = draw(weights([n]))
    c.update(x=draw(separated(n, 0.05, 1.5)), perm=draw(st.permutations(range(n))), m=draw(st.sampled_from([1, 2, 5, 8, 40])), key=draw(st.integers(0, 2 ** 31 - 1)))
    return c


def cdf(xs, w):
    return np.cumsum(w) - 0.5 * w


@PROP.sub('continuous', cont_case(), quick=400, thorough=6000, shards=3)
def continuous(c, ctx):
    """Sorted output in the range of the samples, one draw per stratum of the interpolated distribution function, order of particles irrelevant."""
    w, _ = normalised(c)
    xs, p, m = np.array(c['x']), np.array(c['perm']), c['m']
    n = len(xs)
    ctx.label(c['kind'], f'n={n}', f'm={m}')
    ctx.nt(np.sum(w > 0) >= 2 and len(set(w[w > 0])) > 1)
    key = jax.random.PRNGKey(c['key'])
    out = ctx.arr(ctx.call('continuous_resampling', _cont, jnp.asarray(xs[p]), jnp.asarray(w[p]), m, key), (m,), 'samples')
    ctx.true(np.all(np.diff(out) >= -1e-12), 'output not ascending', out=out)
    ctx.true(np.all((out >= xs[0]) & (out <= xs[-1])), 'output outside the range of the samples', out=out)
    other = np.asarray(ctx.call('continuous_resampling', _cont, jnp.asarray(xs), jnp.asarray(w), m, key))
    if c['kind'] == 'uneven':  # sums in another order: the inverse distribution function may be steep
        ctx.true(np.all(np.isfinite(other)), 'finite')
    else:
        ctx.close(other, out, 'order of the particles', tol=1e-9)
    again = np.asarray(_cont(jnp.asarray(xs[p]), jnp.asarray(w[p]), m, key))
    ctx.true(np.array_equal(again, out), 'not reproducible')
    cs = cdf(xs, w)
    slope = np.max(np.diff(cs) / np.diff(xs))
    eps = 1e-9 * (1 + slope) * m
    for k, v in enumerate(out):
        # interval of levels z whose inverse is v
        lo = -math.inf if v <= xs[0] + 1e-12 else float(np.interp(v, xs, cs))
        hi = math.inf if v >= xs[-1] - 1e-12 else float(np.interp(v, xs, cs))
        ctx.true(lo * m <= k + 1 + eps and hi * m >= k - eps, 'draw outside its stratum of the distribution function', k=k, value=v, levels=[lo, hi])


CK = 4000
CEPS = math.sqrt(math.log(2 / 1e-12) / (2 * CK))


@partial(jax.jit, static_argnums=(2,))
def many_cont(x, w, m, key):
    return jax.vmap(lambda k: continuous_resampling(x, w, m, k))(jax.random.split(key, CK))


@PROP.sub('continuous_law', cont_case(), quick=60, thorough=1000, shards=2)
def continuous_law(c, ctx):
    """Over keys, the k-th output is the inverse distribution function of a uniform level in the k-th stratum."""
    w, _ = normalised(c)
    xs, p, m = np.array(c['x']), np.array(c['perm']), min(c['m'], 8)
    ctx.label(c['kind'], f'n={len(xs)}', f'm={m}')
    ctx.nt(np.sum(w > 0) >= 2 and len(set(w[w > 0])) > 1)
    out = ctx.arr(ctx.call('continuous_resampling', many_cont, jnp.asarray(xs[p]), jnp.asarray(w[p]), m, jax.random.PRNGKey(c['key'])), (CK, m), 'samples')
    cs = cdf(xs, w)
    grid = np.concatenate([xs[:-1] + f * np.diff(xs) for f in (0.25, 0.5, 0.75)])
    F = np.interp(grid, xs, cs)
    for k in range(m):
        exp = np.clip(F * m - k, 0., 1.)
        emp = np.array([np.mean(out[:, k] <= g) for g in grid])
        ctx.true(np.max(np.abs(emp - exp)) <= CEPS, 'law of a draw', k=k, worst=float(np.max(np.abs(emp - exp))), bound=CEPS)
    if m >= 2 and len(xs) <= 7:  # strata are independent: joint law of neighbouring draws
        for k in range(m - 1):
            a, b = np.clip(F * m - k, 0., 1.), np.clip(F * m - k - 1, 0., 1.)
            A, B = (out[:, k, None] <= grid).astype(float), (out[:, k + 1, None] <= grid).astype(float)
            dev = np.abs(A.T @ B / CK - np.outer(a, b))
            ctx.true(np.max(dev) <= 2 * CEPS, 'draws of different strata are not independent', k=k, worst=float(np.max(dev)), bound=2 * CEPS)
