from ..core import *
from .. import oracles as o, gen, models1d as M
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms

PROP = Prop('C03', rule='at least two nodes, an informative (non-flat) likelihood, and a tolerance below 1e-4',
            assumptions=['double precision (jax x64) is enabled',
                         'histories whose moment matrices lose positive definiteness in double precision are inconclusive'])


@partial(jax.jit, static_argnums=(0, 1, 2, 3))
def run(mode, nm, stable, vecy, p, idx, ms0, mean0, scale0, ys, u=1., mu=1.):
    """u: the state is measured in other units, X -> u X (a power of two, so exact); mu: the unit of the measurement density."""
    lik = lambda y, x: mu * M.jx_lik(p, idx, y, x / u, vecy)
    mean = lambda x: u * M.jx_mean(p, x / u)
    if mode == 'raw':
        return moment_filter_rms(lambda x, n: M.jx_cond(p, idx, x / u, n, 0., 1., nm) * u ** n, lik, ms0, ys, stable=stable)
    if mode == 'central':
        return moment_filter_cms(lambda x, n, c: M.jx_cond(p, idx, x / u, n, c / u, 1., nm) * u ** n, mean, lik, ms0,
                                 mean0, ys, stable=stable)
    return moment_filter_scms(lambda x, n, c, s: M.jx_cond(p, idx, x / u, n, c / u, s / u, nm), lambda x: (mean(x), u ** 2 * M.jx_var(p, x / u)),
                              lik, ms0, mean0, scale0, ys, stable=stable)


@st.composite
def case(draw, mode, nms=(2, 3, 4, 5, 6, 7, 8, 10, 12, 16), Ts=(1, 3, 6)):
    nm = draw(st.sampled_from([k for k in nms if mode != 'scaled' or k >= 4]))
    m = draw(M.model())
    vecy = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    T = draw(st.sampled_from(Ts))
    return dict(nm=nm, model=m, dist=draw(gen.dist1d(nm // 2 + 1)), stable=draw(st.booleans()), vecy=vecy, zero=draw(st.integers(0, 3)) == 0,
                u=draw(st.sampled_from([1., 1., 2. ** -20, 2. ** -12, 2. ** 12, 2. ** 20])), mu=2. ** draw(st.sampled_from([0, 0, 0, 60, -60, -100, 300])),
                ints=draw(st.booleans()), ys=[M.measurement(draw, m, vecy) for _ in range(T)])


def initial(c, mode):
    nm = c['nm']
    ms = gen.normalise(gen.moments1d(c['dist'], max(nm, 3)))
    if c.get('zero'):  # prior mean at exactly zero
        ms = o.shift_scale_mp(ms, ms[1], 1)
    mean, sd = ms[1], mp.sqrt(ms[2] - ms[1] ** 2)
    ms = ms[:nm]
    fm, fs = float(mean), float(sd)
    if mode == 'raw':
        f = o.tofloat(ms)
        return f, fm, fs, f
    rep = o.tofloat(o.shift_scale_mp(ms, fm, fs if mode == 'scaled' else 1))
    back = o.shift_scale_mp([mp.mpf(v) for v in rep], -mp.mpf(fm) / (fs if mode == 'scaled' else 1),
                            1 / mp.mpf(fs) if mode == 'scaled' else 1)
    return rep, fm, fs, back


def check(c, ctx, mode):
    nm = c['nm']
    f, mean0, scale0, raw0 = initial(c, mode)
    ex, err = M.reference(c['model'], raw0, c['ys'], nm, mode)
    tol = 500 * err + 1e-9
    if not tol < 1e-4:
        ctx.inconclusive('ill-conditioned')
    T = len(c['ys'])
    ctx.label(f'nm={nm}', f'T={T}', M.LIKS[c['model']['lik']], f'noise {c["model"]["noise"]}', 'ldl' if c['stable'] else 'chol',
              ('scalar y', 'vector y', 'matrix y')[c['vecy']])
    ctx.nt(nm >= 4 and c['model']['lik'] != 5)
    p, idx = M.pack(c['model'])
    u = c['u']
    un = u ** np.arange(nm) if mode != 'scaled' else np.ones(nm)
    ctx.label(f'unit {u:.2g}', 'zero mean' if mean0 == 0. else 'mean')
    ints = c.get('ints') and not c['vecy'] and c['model']['lik'] in (1, 2)  # counts may well be stored as integers
    ctx.label('integer measurements' if ints else 'real measurements')
    out = ctx.call(f'{mode} filter', run, mode, nm, c['stable'], c['vecy'], p, idx, jnp.asarray(f * un), mean0 * u, scale0 * u,
                   jnp.asarray(np.asarray(c['ys'], dtype=int if ints else float)), u, c['mu'])
    key = dict(raw='rms', central='cms', scaled='scms')[mode]
    ctx.true(isinstance(out, tuple) and len(out) == dict(raw=2, central=3, scaled=4)[mode], 'number of outputs')
    out = [ctx.arr(out[0], (T, nm), f'{mode} moments') / un] + [ctx.arr(v, (T, ), n) / u for v, n in zip(out[1:-1], ('means', 'scales'))] + [out[-1]]
    sd = np.maximum(ex['std'], 1e-3)
    size = 1. if mode == 'scaled' else (sd[:, None] if mode == 'central' else (sd + np.abs(ex['mean']))[:, None])
    ctx.close(out[0], ex[key], f'{mode} moments', tol=tol * (ex['a' + key] + size ** np.arange(nm)))
    if mode != 'raw':
        ctx.close(out[1], ex['mean'], 'means', tol=tol * sd + 1e-13 * np.abs(ex['mean']))
    if mode == 'scaled':
        ctx.close(out[2], ex['std'], 'scales', tol=tol * sd)
    ctx.close(out[-1], ex['nell'][-1] - T * math.log(c['mu']), 'negative log likelihood', tol=(tol + 1e-13 * abs(math.log(c['mu']))) * T)
    m = np.asarray(out[0])
    ctx.close(m[:, 0], np.ones(T), 'zeroth moment', tol=max(tol, 1e-9))
    if mode != 'raw':
        ctx.close(m[:, 1], np.zeros(T), 'first central moment', tol=tol * (sd if mode == 'central' else 1.))
    if mode == 'scaled' and nm > 2:
        ctx.close(m[:, 2], np.ones(T), 'second scaled moment', tol=tol)


for _mode in ('raw', 'central', 'scaled'):
    PROP.sub(_mode, case(_mode), quick=270, thorough=6000, shards=3)(partial(lambda c, ctx, mode: check(c, ctx, mode), mode=_mode))
