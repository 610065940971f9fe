from ..core import *
from .. import oracles as o
import jax
import jax.numpy as jnp
import itertools
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
from mfs.multi_dims.moments import extract_moments, extract_mean, extract_cov, marginalise_moments
from mfs.multi_dims.quadratures import nd_cartesian_prod, nd_cartesian_prod_indices, nd_cartesian_prod_2

PROP = Prop('C12', rule='dimension >= 2 and order N >= 2 (tables, extraction), at least two vectors of length two (Cartesian products)')


MAXN = {1: 30, 2: 14, 3: 8, 4: 5, 5: 4, 6: 3, 7: 3, 8: 2, 9: 2}
ALL = [dict(d=d, N=N) for d in MAXN for N in range(1, MAXN[d] + 1)]


@PROP.sub('tables', st.sampled_from(ALL), quick=90, thorough=140, shards=4, pinned=[dict(d=d, N=N) for d, N in ((2, 12), (2, 14), (3, 7), (4, 4), (4, 5), (5, 3), (5, 4), (6, 3))])
def tables(c, ctx):
    d, N = c['d'], c['N']
    ctx.label(f'd={d} N={N}')
    ctx.nt(d >= 2 and N >= 2)
    basis = o.multi_indices(d, N - 1)
    pos = {n: i for i, n in enumerate(o.multi_indices(d, 2 * N - 1))}
    got = np.asarray(ctx.call('index tables', gram_and_hankel_indices_graded_lexico, N, d))
    s = len(basis)
    ctx.equal(tuple(got.shape), (d + 1, s, s), 'shape of the tables')
    for k in range(d + 1):
        e = tuple(1 if i == k - 1 else 0 for i in range(d))
        ex = np.array([[pos[tuple(a + b + z for a, b, z in zip(u, v, e))] for v in basis] for u in basis])
        ctx.true(np.array_equal(got[k], ex), f'table {k}', d=d, N=N)
    if d * N <= 12 and got.flags.writeable:  # a caller owns what it is given
        first = got.copy()
        got += 1
        ctx.true(np.array_equal(np.asarray(ctx.call('index tables', gram_and_hankel_indices_graded_lexico, N, d)), first), 'tables after a caller changed earlier ones in place', d=d, N=N)


@st.composite
def ext(draw):
    d = draw(st.integers(1, 6))
    N = draw(st.integers(2, {1: 9, 2: 6, 3: 4, 4: 3, 5: 3, 6: 2}[d]))
    return dict(d=d, N=N, lead=draw(st.lists(st.integers(1, 3), max_size=3)), jx=draw(st.booleans()), key=draw(st.integers(0, 2 ** 30)), n=draw(st.integers(0, 10 ** 6)),
                unit=draw(st.sampled_from([0, 0, -30, -60, 30])), axis=draw(st.integers(0, d - 1)), ty=draw(st.sampled_from(['tuple', 'list', 'array'])))


@PROP.sub('extraction', ext(), quick=400, shards=2)
def extraction(c, ctx):
    """Moments of random discrete distributions stacked along any leading shape."""
    d, N = c['d'], c['N']
    mi = o.multi_indices(d, 2 * N - 1)
    rng = np.random.default_rng(c['key'])
    lead = tuple(c['lead'])
    u = 2. ** c['unit']  # unit of the state: everything below is homogeneous in it
    x, w = u * rng.normal(size=lead + (6, d)), rng.dirichlet(np.ones(6), size=lead)
    ms = np.stack([np.sum(w * np.prod(x ** np.array(n), axis=-1), axis=-1) for n in mi], axis=-1)
    arr = jnp.asarray(ms) if c['jx'] else ms
    ctx.label(f'd={d}', f'N={N}', f'unit 2^{c["unit"]}', f'lead {len(lead)}d', 'jax' if c['jx'] else 'numpy')
    ctx.nt(d >= 2)
    n = mi[c['n'] % len(mi)]
    seq = {'tuple': n, 'list': list(n), 'array': np.array(n)}[c['ty']]
    ctx.close(ctx.call('extract_moments', extract_moments, arr, seq), np.sum(w * np.prod(x ** np.array(n), axis=-1), axis=-1), 'extracted moment', rtol=1e-12, atol=1e-14 * u ** sum(n))
    ctx.close(ctx.call('extract_mean', extract_mean, arr, d), np.einsum('...i,...ij->...j', w, x), 'mean', rtol=1e-12, atol=1e-13 * u)
    ctx.close(ctx.call('extract_cov', extract_cov, arr, d), np.einsum('...i,...ij,...ik->...jk', w, x, x), 'second moment matrix', rtol=1e-12, atol=1e-13 * u ** 2)
    ex = np.stack([np.sum(w * x[..., c['axis']] ** k, axis=-1) for k in range(2 * N)], axis=-1)
    ctx.close(np.asarray(ctx.call('marginalise_moments', marginalise_moments, arr, d, N, c['axis'])) / u ** np.arange(2 * N), ex / u ** np.arange(2 * N), 'marginal moments', rtol=1e-12, atol=1e-13)
    # central moments give the covariance
    mu = np.einsum('...i,...ij->...j', w, x)[..., None, :]
    cms = np.stack([np.sum(w * np.prod((x - mu) ** np.array(k), axis=-1), axis=-1) for k in mi], axis=-1)
    cov = np.einsum('...i,...ij,...ik->...jk', w, x - mu, x - mu)
    ctx.close(ctx.call('extract_cov', extract_cov, jnp.asarray(cms) if c['jx'] else cms, d), cov, 'covariance', rtol=1e-12, atol=1e-13 * u ** 2)


@st.composite
def cart(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(1, {1: 8, 2: 6, 3: 4, 4: 3}[d]))
    return dict(d=d, n=n, key=draw(st.integers(0, 2 ** 30)), inds=draw(st.booleans()))


def rows(a):
    return sorted(map(tuple, np.asarray(a).tolist()))


@PROP.sub('cartesian', cart(), quick=300, shards=2, pinned=[dict(d=2, n=2, key=0, inds=False), dict(d=3, n=2, key=1, inds=True)])
def cartesian(c, ctx):
    d, n = c['d'], c['n']
    ctx.nt(d >= 2 and n >= 2)
    ctx.label(f'd={d} n={n}')
    x = np.random.default_rng(c['key']).normal(size=(d, n))
    combos = list(itertools.product(range(n), repeat=d))
    inds = np.asarray(ctx.call('indices', nd_cartesian_prod_indices, d, n))
    ctx.equal(tuple(inds.shape), (n ** d, d), 'shape of the index table')
    ctx.equal(sorted(map(tuple, inds.tolist())), sorted(combos), 'index table lists every combination once')
    if inds.flags.writeable:
        first = inds.copy()
        inds += 1
        again = np.asarray(ctx.call('indices', nd_cartesian_prod_indices, d, n))
        ctx.true(np.array_equal(again, first), 'index table after a caller changed an earlier one in place')
        inds = first
    ex = sorted(tuple(float(x[i, k[i]]) for i in range(d)) for k in combos)
    args = (inds,) if c['inds'] else ()
    out = ctx.arr(ctx.call('nd_cartesian_prod', nd_cartesian_prod, jnp.asarray(x), *args), (n ** d, d), 'product')
    ctx.true(rows(out) == ex, 'Cartesian product of vectors', got=out[:10])
    if c['inds']:
        ctx.true(np.array_equal(out, x[np.arange(d)[None, :], inds]), 'product follows the given index table')
    ctx.true(rows(ctx.arr(ctx.call('nd_cartesian_prod_2', nd_cartesian_prod_2, jnp.asarray(x)), (n ** d, d), 'product 2')) == ex, 'second Cartesian product')
    y = np.random.default_rng(c['key'] + 1).normal(size=(d, n, n))
    out = ctx.arr(ctx.call('nd_cartesian_prod', nd_cartesian_prod, jnp.asarray(y), *args), (n ** d, n, d), 'product of matrices')
    ex3 = np.stack([np.stack([y[j, :, k[j]] for j in range(d)], axis=-1) for k in (inds if c['inds'] else combos)])
    if c['inds']:
        ctx.true(np.array_equal(out, ex3), 'product of columns follows the given index table')
    else:
        ctx.true(rows(out.reshape(n ** d, -1)) == rows(ex3.reshape(n ** d, -1)), 'Cartesian product of columns')
    # a sub-table selects the sub-collection
    sub = inds[::2]
    ctx.true(np.array_equal(np.asarray(ctx.call('nd_cartesian_prod', nd_cartesian_prod, jnp.asarray(x), sub)), x[np.arange(d)[None, :], sub]), 'sub-table')
