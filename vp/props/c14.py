from ..core import *
from .. import oracles as o, modelsnd as M
import jax
import jax.numpy as jnp
from functools import partial
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico, generate_graded_lexico_multi_indices

PROP = Prop('C14', rule='dimension >= 2, N >= 2 and an informative likelihood',
            assumptions=['double precision (jax x64) is enabled',
                         'the multidimensional rule may have negative weights: histories where it yields a non-positive likelihood or variance, or an '
                         'ill-conditioned moment matrix, are inconclusive'])
CONF = [(1, 3), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2)]


@st.composite
def case(draw, confs=CONF):
    d, N = draw(st.sampled_from(confs))
    vecy = draw(st.sampled_from([0, 0, 0, 1, 2]))
    units = st.sampled_from([1., 1., 2. ** -20, 2. ** 10, 2. ** -7])
    T = draw(st.sampled_from([1, 4]))
    return dict(d=d, N=N, model=draw(M.model(d)), dist=draw(M.dist(d)), vecy=vecy, ys=[M.measurement(draw, vecy) for _ in range(T)], sig=draw(st.sampled_from(['index', 'multi-index'])),
                stable=draw(st.integers(0, 2)) == 0, u=draw(vec(units, d)) if draw(st.booleans()) else [1.] * d,
                mu=2. ** draw(st.sampled_from([0, 0, 0, 60, -60, -100, 300])))


def check(c, ctx, mode):
    d, N, T = c['d'], c['N'], len(c['ys'])
    P = M.params(c['model'])
    ex, err = M.reference(P, M.start_of(c['dist'], d, N), d, N, c['ys'], c['vecy'])
    tol = 300 * err + 1e-9
    if not tol < 1e-5:
        ctx.inconclusive('ill-conditioned')
    ctx.label(f'd={d} N={N}', f'T={T}', M.LIKS[c['model']['lik']], c['sig'], 'ldl' if c['stable'] else 'chol', ('scalar y', 'vector y', 'matrix y')[c['vecy']])
    ctx.nt(d >= 2 and c['model']['lik'] != 4)
    ms0, mean0, scale0 = M.initial(c['dist'], d, N, mode)
    u = np.array(c['u'])
    mi = M.tables(d, N)[0]
    un = np.prod(u ** mi, axis=1) if mode != 'scaled' else np.ones(len(mi))
    ctx.label('units' if np.any(u != 1) else 'unit 1')
    out = ctx.call(f'{mode} filter', M.run_jit, mode, d, N, c['stable'], c['sig'], c['vecy'], dict(P, mu=np.float64(c['mu'])), ms0 * un, mean0 * u, scale0 * u, c['ys'], u)
    key = dict(raw='rms', central='cms', scaled='scms')[mode]
    ctx.equal(len(out), dict(raw=2, central=3, scaled=4)[mode], 'number of outputs')
    out = [ctx.arr(out[0], (T, len(mi)), f'{mode} moments') / un] + [ctx.arr(v, (T, d), n) / u for v, n in zip(out[1:-1], ('means', 'scales'))] + [out[-1]]
    size = 1. if mode == 'scaled' else np.array([np.prod((sd + (np.abs(mu) if mode == 'raw' else 0.)) ** mi, axis=1) for mu, sd in zip(ex['mean'], ex['std'])])
    ctx.close(out[0], ex[key], f'{mode} moments', tol=tol * (ex['a' + key] + size))
    if mode != 'raw':
        ctx.close(out[1], ex['mean'], 'means', tol=tol * ex['std'])
    if mode == 'scaled':
        ctx.close(out[2], ex['std'], 'scales', tol=tol * ex['std'])
    ctx.close(ctx.scalar(out[-1], 'nell'), ex['nell'][-1] - T * math.log(c['mu']), 'negative log likelihood', tol=(tol + 1e-13 * abs(math.log(c['mu']))) * T)
    m = np.asarray(out[0])
    ctx.close(m[:, 0], np.ones(T), 'zeroth moment', tol=max(tol, 1e-9))
    for i, n in enumerate(mi):
        if mode != 'raw' and np.sum(n) == 1:
            k = int(np.argmax(n))
            ctx.close(m[:, i], np.zeros(T), 'first central moments', tol=tol * (1. if mode == 'scaled' else ex['std'][:, k]))
        if mode == 'scaled' and np.sum(n) == 2 and np.max(n) == 2:
            ctx.close(m[:, i], np.ones(T), 'second scaled moments', tol=tol)


for _mode in ('raw', 'central', 'scaled'):
    PROP.sub(_mode, case(), quick=110, thorough=3000, shards=3)(partial(lambda c, ctx, mode: check(c, ctx, mode), mode=_mode))


@PROP.sub('size_mismatch', st.fixed_dictionaries(dict(d=st.integers(1, 3), N=st.integers(1, 3), M=st.integers(1, 3), mode=st.sampled_from(['raw', 'central', 'scaled']))), quick=30, thorough=60)
def mismatch(c, ctx):
    """Moments whose number does not match the multi-indices are refused."""
    d, N = c['d'], c['N']
    N2 = c['M'] if c['M'] != N else N + 1
    ctx.nt(d >= 2)
    m = dict(d=d, A=np.zeros((d, d)).tolist(), C=np.zeros((d, d)).tolist(), b=[0.] * d, s0=[1.] * d, s1=[0.] * d, nk=0, lik=0, h0=0., h=[1.] * d, r=1.)
    mi, inds = generate_graded_lexico_multi_indices(d, 2 * N - 1), gram_and_hankel_indices_graded_lexico(N, d)
    z = math.comb(2 * N2 - 1 + d, d)
    P = {k: jnp.asarray(v) for k, v in M.params(m).items()}
    ctx.raises('size mismatch', ValueError, M.run_nd, c['mode'], d, N, False, 'index', False, P, jnp.zeros(z), jnp.zeros(d), jnp.ones(d), jnp.zeros(2), mi=mi, inds=inds)
