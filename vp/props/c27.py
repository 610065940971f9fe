from ..core import *
from .. import oracles as o
import jax
import jax.numpy as jnp
import mpmath as mp
from fractions import Fraction
from mfs.utils import partial_bell, complete_bell, hermite_probabilist, gamma, factorial, binom, vmap_list_of_funcs

PROP = Prop('C27', rule='order >= 3 with non-zero arguments (Bell), order >= 2 (Hermite), argument above 2 (gamma), at least two functions (list map)',
            assumptions=['double precision (jax x64) is enabled', 'positive arguments of the gamma function'])

AS = dict(list=list, tuple=tuple, numpy=lambda v: np.array(v), jax=lambda v: jnp.asarray(v), jit=lambda v: jnp.asarray(v))


@st.composite
def bell(draw):
    n = draw(st.integers(0, 8))
    k = draw(st.integers(0, 9))
    ty = draw(st.sampled_from(list(AS)))
    extra = draw(st.integers(0, 2))
    m = max(n - k + 1, 1) + extra
    u = 2. ** draw(st.sampled_from([0, 0, 0, -24, 12]))
    return dict(n=n, k=k, ty=ty, xs=[v * u for v in draw(vec(q(-3, 3, 16), max(m, n, 1)))], cut=draw(st.booleans()))




@PROP.sub('partial_bell', bell(), quick=600, shards=3)
def partial(c, ctx):
    n, k = c['n'], c['k']
    xs = c['xs'][:max(n - k + 1, 1)] if c['cut'] else c['xs']  # n - k + 1 arguments are enough
    ctx.label(f'n={n}', c['ty'], 'exactly n-k+1 arguments' if c['cut'] else 'more arguments')
    ctx.nt(n >= 3 and 1 <= k and any(xs))
    ex = float(o.set_partition_bell(n, k, xs))
    size = float(o.set_partition_bell(n, k, [abs(x) for x in xs]))
    f = lambda v: partial_bell(n, k, v)
    if c['ty'] == 'jit':
        f = jax.jit(f)
    got = ctx.call('partial_bell', f, AS[c['ty']](xs))
    ctx.close(ctx.scalar(got, 'partial Bell polynomial'), ex, 'partial Bell polynomial', tol=1e-12 * size + 1e-300)


@st.composite
def high(draw):
    n = draw(st.integers(9, 20))
    k = draw(st.sampled_from([1, 2, 3, n - 3, n - 2, n - 1, n]))
    return dict(n=n, k=k, ty=draw(st.sampled_from(['list', 'tuple', 'numpy'])), xs=draw(vec(q(-3, 3, 16), n)), cut=draw(st.booleans()))


@PROP.sub('partial_bell_high', high(), quick=120, shards=1)
def partial_high(c, ctx):
    """High orders: n! / k! times the coefficient of t^n in (sum x_j t^j / j!)^k, in exact arithmetic."""
    n, k = c['n'], c['k']
    xs = c['xs'][:n - k + 1] if c['cut'] else c['xs']
    ctx.label(f'n={n}', c['ty'])
    ctx.nt(any(xs))

    def ref(v):
        v = [Fraction(0)] + [Fraction(a) / math.factorial(j + 1) for j, a in enumerate(v[:n - k + 1])]
        p = [Fraction(1)] + [Fraction(0)] * n
        for _ in range(k):
            p = [sum(v[j] * p[m - j] for j in range(1, min(m, len(v) - 1) + 1)) for m in range(n + 1)]
        return float(p[n] * math.factorial(n) / math.factorial(k))

    got = ctx.call('partial_bell', partial_bell, n, k, AS[c['ty']](xs))
    ctx.close(ctx.scalar(got, 'partial Bell polynomial'), ref(xs), 'partial Bell polynomial', tol=1e-12 * ref([abs(x) for x in xs]))


@PROP.sub('complete_bell', bell(), quick=400, shards=2)
def complete(c, ctx):
    n = c['n']
    xs = c['xs'][:max(n, 1)] if c['cut'] else c['xs']
    ctx.nt(n >= 3 and any(xs))
    ctx.label(f'n={n}', c['ty'])
    # generating function: exp(sum x_j t^j / j!) = sum B_n t^n / n!
    def B(v):
        b = [Fraction(1)]
        for m in range(1, n + 1):
            b.append(sum(math.comb(m - 1, i - 1) * Fraction(v[i - 1]) * b[m - i] for i in range(1, m + 1)))
        return float(b[n])
    f = lambda v: complete_bell(n, v)
    if c['ty'] == 'jit':
        f = jax.jit(f)
    got = ctx.call('complete_bell', f, AS[c['ty']](xs))
    ctx.close(ctx.scalar(got, 'complete Bell polynomial'), B(xs), 'complete Bell polynomial', tol=1e-12 * B([abs(x) for x in xs]) + 1e-300)
    ex2 = float(sum(o.set_partition_bell(n, j, xs) for j in range(0 if n == 0 else 1, n + 1)))
    ctx.close(ctx.scalar(got, 'complete Bell polynomial'), ex2, 'sum over set partitions', tol=1e-12 * B([abs(x) for x in xs]) + 1e-300)


@PROP.sub('hermite', st.fixed_dictionaries(dict(n=st.integers(0, 14), x=vec(q(-6, 6, 32), 4), ty=st.sampled_from(['scalar', 'numpy', 'jax', 'jit', 'int']))), quick=500, shards=2)
def hermite(c, ctx):
    n, x = c['n'], np.array(c['x'])
    if n > 10 and c['ty'] in ('jit', 'jax'):
        n = n - 6
    co = o.hermite_he(n)
    ex = np.array([float(sum(Fraction(v) ** i * a for i, a in enumerate(co))) for v in c['x']])
    size = np.array([float(sum(Fraction(abs(v)) ** i * abs(a) for i, a in enumerate(co))) for v in c['x']])
    ctx.nt(n >= 2)
    ctx.label(f'n={n}', c['ty'])
    if c['ty'] == 'int':  # an integer is a number too
        i = [int(v) for v in c['x']]
        ex = np.array([float(sum(v ** k * a for k, a in enumerate(co))) for v in i])
        got = np.array([float(ctx.call('hermite', hermite_probabilist, n, v)) for v in i])
        ctx.close(np.asarray(ctx.call('hermite', hermite_probabilist, n, np.array(i))) * np.ones(len(i)), ex, 'Hermite polynomial of an integer array', tol=1e-12 * size)
    elif c['ty'] == 'scalar':
        got = np.array([float(ctx.call('hermite', hermite_probabilist, n, v)) for v in c['x']])
    else:
        f = (lambda v: hermite_probabilist(n, v))
        if c['ty'] == 'jit':
            f = jax.jit(f)
        got = np.broadcast_to(np.asarray(ctx.call('hermite', f, x if c['ty'] == 'numpy' else jnp.asarray(x))), x.shape)
    ctx.close(got, ex, 'Hermite polynomial', tol=1e-12 * size)


@PROP.sub('gamma', st.fixed_dictionaries(dict(x=vec(qpos(1 / 32, 40, 32), 4), big=vec(q(40, 168, 32), 2), n=vec(st.one_of(st.integers(0, 60), st.integers(0, 165)), 4), frac=vec(st.floats(0, 1), 4),
                                              shape=st.sampled_from([(4,), (2, 2)]))), quick=300, shards=1)
def gam(c, ctx):
    x = np.array(c['x'])
    ctx.nt(np.any(x > 2))
    ex = np.array([float(mp.gamma(mp.mpf(v))) for v in c['x']])
    lg = np.array([abs(float(mp.loggamma(mp.mpf(v)))) for v in c['x']])
    ctx.close(ctx.call('gamma', gamma, jnp.asarray(x.reshape(c['shape']))), ex.reshape(c['shape']), 'gamma', tol=(1e-13 * (3 + lg) * 10 * ex).reshape(c['shape']))
    ctx.close(ctx.call('gamma', gamma, float(x[0])), ex[0], 'gamma of a scalar', tol=1e-12 * (3 + lg[0]) * ex[0])
    big = np.array(c['big'])
    ctx.close(ctx.call('gamma', gamma, jnp.asarray(big)), [float(mp.gamma(mp.mpf(v))) for v in c['big']], 'gamma of large arguments', tol=[1e-12 * (3 + float(mp.loggamma(mp.mpf(v)))) * float(mp.gamma(mp.mpf(v))) for v in c['big']])
    n = np.array(c['n'])
    k = np.floor(np.array(c['frac']) * (n + 1)).astype(int).clip(0, n)
    ef = np.array([float(math.factorial(int(v))) for v in n])
    rel = 1e-13 * (3 + n * 5.)
    ctx.close(ctx.call('factorial', factorial, jnp.asarray(n)), ef, 'factorial', tol=rel * ef * 10)
    ctx.close(ctx.call('factorial', factorial, int(n[0])), ef[0], 'factorial of an int', tol=rel[0] * ef[0] * 10)
    eb = np.array([float(math.comb(int(a), int(b))) for a, b in zip(n, k)])
    ctx.close(ctx.call('binom', binom, jnp.asarray(n), jnp.asarray(k)), eb, 'binomial', tol=rel * eb * 30)
    y = np.array([float(mp.gamma(mp.mpf(v) + 1)) for v in c['x']])
    ctx.close(ctx.call('factorial', factorial, jnp.asarray(x)), y, 'factorial of reals', tol=1e-12 * (5 + lg * 2) * y)
    r = x + x[::-1]
    eb = np.array([float(mp.binomial(mp.mpf(a), mp.mpf(b))) for a, b in zip(r, x)])
    ctx.close(ctx.call('binom', binom, jnp.asarray(r), jnp.asarray(x)), eb, 'binomial of reals', tol=1e-10 * eb)


POOL = [(lambda x: jnp.sum(x) * 1.5, lambda x: np.sum(x) * 1.5), (lambda x: jnp.max(x), lambda x: np.max(x)),
        (lambda x: jnp.sum(x ** 2), lambda x: np.sum(x ** 2)), (lambda x: jnp.sum(jnp.sin(x)), lambda x: np.sum(np.sin(x))),
        (lambda x: jnp.prod(x) - 1., lambda x: np.prod(x) - 1.), (lambda x: jnp.sum(0. * x) + 3., lambda x: 3.)]
VPOOL = [(lambda x: x * 2., lambda x: x * 2.), (lambda x: x - 1., lambda x: x - 1.), (lambda x: jnp.cos(x), lambda x: np.cos(x)),
         (lambda x: x ** 3, lambda x: x ** 3)]


@PROP.sub('list_of_funcs', st.fixed_dictionaries(dict(f=st.lists(st.integers(0, 5), min_size=1, max_size=12), x=vec(q(-3, 3, 16), 3),
                                                      kind=st.sampled_from(['scalar', 'vector', 'vector-valued', 'batch', 'jit']))), quick=120, shards=2)
def lof(c, ctx):
    ctx.nt(len(set(c['f'])) >= 2)
    ctx.label(c['kind'], f'{len(c["f"])} functions')
    if c['kind'] == 'vector-valued':
        fs = [VPOOL[i % 4] for i in c['f']]
    else:
        fs = [POOL[i] for i in c['f']]
    z = ctx.call('vmap_list_of_funcs', vmap_list_of_funcs, [f[0] for f in fs])
    if c['kind'] == 'jit':
        z = jax.jit(z)
    x = np.array(c['x'])
    if c['kind'] == 'scalar':
        x = x[0]
    if c['kind'] == 'batch':
        got = ctx.call('mapped functions', jax.vmap(z), jnp.asarray(x))
        ex = np.array([[f[1](v) for f in fs] for v in x])
    else:
        got = ctx.call('mapped functions', z, jnp.asarray(x))
        ex = np.array([f[1](x) for f in fs])
    ctx.close(got, ex, 'each function in order', tol=1e-12 * (1 + np.abs(ex)))
