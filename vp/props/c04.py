from ..core import *
from .. import oracles as o, gen, models1d as M, modelsnd as MN
from . import c03
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial, lru_cache
from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
from mfs.multi_dims import filtering as F
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico, generate_graded_lexico_multi_indices

PROP = Prop('C04', rule='at least two nodes per coordinate, an informative likelihood and, for the change of variables, a map other than the identity',
            assumptions=['double precision (jax x64) is enabled', 'histories whose moment matrices are ill-conditioned in double precision are inconclusive'])
MODES = ('raw', 'central', 'scaled')


def to_raw(ms, c, s):
    """Raw moments from moments about c at scale s: arrays (T, nm), (T, ), (T, )."""
    T, nm = ms.shape
    out = np.zeros((T, nm))
    for t in range(T):
        f = o.shift_scale_mp([mp.mpf(float(v)) for v in ms[t]], -mp.mpf(float(c[t])) / mp.mpf(float(s[t])), 1 / mp.mpf(float(s[t])))
        out[t] = o.tofloat(f)
    return out


def unpack(out, mode, T):
    out = [np.asarray(v, dtype=float) for v in out]
    ms = out[0]
    mean = out[1] if mode != 'raw' else np.zeros(T)
    scale = out[2] if mode == 'scaled' else np.ones(T)
    return ms, mean, scale, float(out[-1])


# ------------------------------------------------------------------------------------------------ 1D: representations
@PROP.sub('one_dim', c03.case('raw', nms=(2, 3, 4, 7, 12), Ts=(1, 4)), quick=150, thorough=4000, shards=3)
def one_dim(c, ctx):
    nm, T = c['nm'], len(c['ys'])
    modes = MODES if nm >= 4 else MODES[:2]
    raw0 = c03.initial(c, 'raw')[3]
    mm = M.MPModel(c['model'])
    ex = M.summary(M.ref_filter(mm, raw0, c['ys'], nm), nm)
    err = max(M.error_level(ex, mm, raw0, c['ys'], nm, m) for m in modes)
    tol = 500 * err + 1e-9
    if not tol < 1e-4:
        ctx.inconclusive('ill-conditioned')
    ctx.nt(nm >= 4 and c['model']['lik'] != 5)
    ctx.label(f'nm={nm}', f'T={T}', M.LIKS[c['model']['lik']])
    p, idx = M.pack(c['model'])
    res = {}
    for m in modes:
        f, mean0, scale0, _ = c03.initial(c, m)
        for st_ in (False, True):
            if m == 'raw' or st_ == c['stable']:
                out = ctx.call(f'{m} filter', c03.run, m, nm, st_, c['vecy'], p, idx, jnp.asarray(f), mean0, scale0, jnp.asarray(c['ys']))
                ctx.arr(out[0], (T, nm), f'{m} moments')
                res[m, st_] = unpack(out, m, T)
    sd = np.maximum(ex['std'], 1e-3)
    size = (sd + np.abs(ex['mean']))[:, None] ** np.arange(nm) + ex['arms']
    base = res['raw', c['stable']]
    for k, (ms, mean, scale, nell) in res.items():
        name = f'{k[0]}{" LDL" if k[1] else ""} against raw'
        ctx.close(to_raw(ms, mean, scale), base[0], f'raw moments: {name}', tol=2 * tol * size)
        ctx.close(nell, base[3], f'likelihood: {name}', tol=2 * tol * T)
        if k[0] != 'raw':
            ctx.close(mean, base[0][:, 1], f'means: {name}', tol=2 * tol * (sd + np.abs(ex['mean'])))
    if nm >= 4:
        c_, s_ = res['central', c['stable']], res['scaled', c['stable']]
        pw = s_[2][:, None] ** np.arange(nm)
        ctx.close(s_[0] * pw, c_[0], 'central moments: scaled against central', tol=2 * tol * (ex['acms'] + sd[:, None] ** np.arange(nm)))
        ctx.close(s_[2] ** 2, c_[0][:, 2], 'variances: scaled against central', tol=4 * tol * sd ** 2)
        ctx.close(s_[1], c_[1], 'means: scaled against central', tol=2 * tol * sd + 1e-13 * np.abs(ex['mean']))


# ------------------------------------------------------------------------------------------------ 1D: affine maps
@partial(jax.jit, static_argnums=(0, 1, 2, 3))
def run_affine(mode, nm, stable, vecy, p, idx, al, be, ms0, mean0, scale0, ys):
    inv = lambda x: (x - be) / al
    lik = lambda y, x: M.jx_lik(p, idx, y, inv(x), vecy)
    cond = lambda x, n, c, s: M.jx_cond(p, idx, inv(x), n, inv(c), s / al, nm)
    if mode == 'raw':
        return moment_filter_rms(lambda x, n: cond(x, n, 0., 1.), lik, ms0, ys, stable=stable)
    if mode == 'central':
        return moment_filter_cms(lambda x, n, c: cond(x, n, c, 1.), lambda x: al * M.jx_mean(p, inv(x)) + be, lik, ms0, mean0, ys, stable=stable)
    return moment_filter_scms(cond, lambda x: (al * M.jx_mean(p, inv(x)) + be, al ** 2 * M.jx_var(p, inv(x))), lik, ms0, mean0, scale0, ys, stable=stable)


@st.composite
def affine_case(draw):
    mode = draw(st.sampled_from(MODES))
    c = draw(c03.case(mode, nms=(4, 7, 10), Ts=(1, 4)))
    small = mode == 'raw'
    c.update(mode=mode, al=draw(st.sampled_from([-1., 1., 2., -0.5, 0.5, -3.] if small else [-1., 1., 100., -0.01, 5., -20., 1e3, 1e-4])), be=draw(q(-1, 1, 8) if small else st.one_of(q(-50, 50, 8), st.sampled_from([1e5, -1e6, 1e6, 3e5]))))
    return c


@PROP.sub('affine_1d', affine_case(), quick=150, thorough=4000, shards=3)
def affine(c, ctx):
    mode, nm, T, al, be = c['mode'], c['nm'], len(c['ys']), c['al'], c['be']
    f, mean0, scale0, raw0 = c03.initial(c, mode)
    mm = M.MPModel(c['model'])
    am = M.Affine(mm, al, be)
    raw1 = o.shift_scale_mp(raw0, -mp.mpf(be) / al, 1 / mp.mpf(al))
    ex = M.summary(M.ref_filter(mm, raw0, c['ys'], nm), nm)
    ex1 = M.summary(M.ref_filter(am, raw1, c['ys'], nm), nm)
    err = max(M.error_level(ex, mm, raw0, c['ys'], nm, mode), M.error_level(ex1, am, raw1, c['ys'], nm, mode) if mode == 'raw' else 0.)
    ratio = abs(be) / abs(al)
    tol = 500 * err + 1e-9 + 1e-14 * ratio * (10 if mode != 'raw' else 1) * 100
    if ratio > 1e4:  # the nodes themselves are only known to eps * |beta|
        tol = 1e-9 + 500 * max(err, 1e-16) * (1 + ratio / np.min(ex['std']))
    if not tol < 1e-4 or np.min(ex['std']) < 1e-3:
        ctx.inconclusive('ill-conditioned')
    ctx.nt(c['model']['lik'] != 5 and (al, be) != (1., 0.))
    ctx.label(mode, f'nm={nm}', f'alpha={al}')
    p, idx = M.pack(c['model'])
    J = jnp.asarray
    n = np.arange(nm)
    if mode == 'raw':
        f1 = o.tofloat(raw1)
    else:
        f1 = np.array(f) * (al if mode == 'central' else math.copysign(1., al)) ** n
    base = unpack(ctx.call(f'{mode} filter', c03.run, mode, nm, c['stable'], c['vecy'], p, idx, J(f), mean0, scale0, J(c['ys'])), mode, T)
    out = ctx.call(f'{mode} filter', run_affine, mode, nm, c['stable'], c['vecy'], p, idx, J(al), J(be), J(f1), J(al * mean0 + be), J(abs(al) * scale0), J(c['ys']))
    ctx.arr(out[0], (T, nm), 'moments of the mapped model')
    got = unpack(out, mode, T)
    sd = ex['std']
    if mode == 'raw':
        want = to_raw(base[0], np.full(T, be), np.full(T, 1.))  # placeholder for shape
        want = np.array([o.tofloat(o.shift_scale_mp([mp.mpf(float(v)) for v in r], -mp.mpf(be) / al, 1 / mp.mpf(al))) for r in base[0]])
        size = ex1['arms'] + (ex1['std'] + np.abs(ex1['mean']))[:, None] ** n + (abs(al) * (sd + np.abs(ex['mean'])) + abs(be))[:, None] ** n
    elif mode == 'central':
        want, size = base[0] * al ** n, (ex['acms'] + sd[:, None] ** n) * abs(al) ** n
    else:
        want, size = base[0] * math.copysign(1., al) ** n, ex['ascms'] + 1.
    ctx.close(got[0], want, f'{mode} moments of the mapped model', tol=2 * tol * size)
    ctx.close(got[3], base[3], 'likelihood of the mapped model', tol=2 * tol * T)
    if mode != 'raw':
        ctx.close(got[1], al * base[1] + be, 'means of the mapped model', tol=2 * tol * sd * abs(al) + 1e-12 * (abs(be) + np.abs(al * base[1])))
    if mode == 'scaled':
        ctx.close(got[2], abs(al) * base[2], 'scales of the mapped model', tol=2 * tol * sd * abs(al))


# ------------------------------------------------------------------------------------------------ ND
@lru_cache(maxsize=None)
def binom_table(d, N):
    mi, _, _ = MN.tables(d, N)
    pos = {tuple(n): i for i, n in enumerate(mi.tolist())}
    rows = []
    for n in mi.tolist():
        r = []
        for k in itertools_product([range(v + 1) for v in n]):
            r.append((pos[tuple(k)], math.prod(math.comb(a, b) for a, b in zip(n, k)), tuple(a - b for a, b in zip(n, k))))
        rows.append(r)
    return rows


def itertools_product(rs):
    import itertools
    return itertools.product(*rs)


def nd_raw(ms, c, s, d, N):
    """Raw moments (z, ) from moments about c (d, ) at scales s (d, )."""
    mi, _, _ = MN.tables(d, N)
    u = ms * np.prod(s ** mi, axis=1)
    return np.array([sum(b * u[i] * np.prod(c ** np.array(e)) for i, b, e in row) for row in binom_table(d, N)])


def nd_unpack(out, mode, T, d):
    out = [np.asarray(v, dtype=float) for v in out]
    return out[0], (out[1] if mode != 'raw' else np.zeros((T, d))), (out[2] if mode == 'scaled' else np.ones((T, d))), float(out[-1])


@st.composite
def nd_case(draw, confs=((1, 3), (2, 2), (2, 3), (3, 2))):
    d, N = draw(st.sampled_from(confs))
    vecy = draw(st.sampled_from([0, 0, 0, 1, 2]))
    T = draw(st.sampled_from([1, 3]))
    return dict(d=d, N=N, model=draw(MN.model(d)), dist=draw(MN.dist(d)), vecy=vecy, ys=[MN.measurement(draw, vecy) for _ in range(T)], stable=draw(st.booleans()))


def nd_setup(c, ctx):
    d, N = c['d'], c['N']
    P = MN.params(c['model'])
    ex, err = MN.reference(P, MN.start_of(c['dist'], d, N), d, N, c['ys'], c['vecy'])
    tol = 300 * err + 1e-9
    if not tol < 1e-5:
        ctx.inconclusive('ill-conditioned')
    return P, ex, tol


@PROP.sub('several_dims', nd_case(), quick=90, thorough=2500, shards=3)
def several(c, ctx):
    d, N, T = c['d'], c['N'], len(c['ys'])
    P, ex, tol = nd_setup(c, ctx)
    mi, _, _ = MN.tables(d, N)
    ctx.nt(d >= 2 and c['model']['lik'] != 4)
    ctx.label(f'd={d} N={N}', f'T={T}', MN.LIKS[c['model']['lik']])
    res = {}
    for i, m in enumerate(MODES):
        ms0, mean0, scale0 = MN.initial(c['dist'], d, N, m)
        stab = c['stable'] if i else not c['stable']
        out = ctx.call(f'{m} filter', MN.run_jit, m, d, N, stab, 'index' if i != 1 else 'multi-index', c['vecy'], P, ms0, mean0, scale0, c['ys'])
        ctx.arr(out[0], (T, len(mi)), f'{m} moments')
        res[m] = nd_unpack(out, m, T, d)
    sz = np.array([np.prod((sd + np.abs(mu)) ** mi, axis=1) for mu, sd in zip(ex['mean'], ex['std'])])
    base = res['raw']
    first = [int(np.where(np.all(mi == np.eye(d, dtype=int)[k], axis=1))[0][0]) for k in range(d)]
    for m in MODES[1:]:
        ms, mean, scale, nell = res[m]
        got = np.array([nd_raw(ms[t], mean[t], scale[t], d, N) for t in range(T)])
        ctx.close(got, base[0], f'raw moments: {m} against raw', tol=3 * tol * (ex['arms'] + sz))
        ctx.close(nell, base[3], f'likelihood: {m} against raw', tol=2 * tol * T)
        ctx.close(mean, base[0][:, first], f'means: {m} against raw', tol=3 * tol * (ex['std'] + np.abs(ex['mean'])))
    s_, c_ = res['scaled'], res['central']
    pw = np.array([np.prod(s ** mi, axis=1) for s in s_[2]])
    ctx.close(s_[0] * pw, c_[0], 'central moments: scaled against central', tol=3 * tol * (ex['acms'] + np.array([np.prod(sd ** mi, axis=1) for sd in ex['std']])))
    ctx.close(s_[1], c_[1], 'means: scaled against central', tol=2 * tol * ex['std'])


@partial(jax.jit, static_argnums=(0, 1, 2, 3, 4))
def run_affine_nd(mode, d, N, stable, vecy, P, al, be, ms0, mean0, scale0, ys):
    mi, inds = generate_graded_lexico_multi_indices(d, 2 * N - 1), gram_and_hankel_indices_graded_lexico(N, d)
    Jm = jnp.asarray(mi)
    inv = lambda x: (x - be) / al
    lik = lambda y, x: MN.likelihood(P, y, inv(x), jnp, vecy)
    cond = lambda x, n, c, s: MN.cond_moments(P, inv(x), Jm[n], inv(c), s / al, jnp)

    def mv(x):
        m, v = MN.cond_mean_var(P, inv(x), jnp)
        return al * m + be, al ** 2 * v

    if mode == 'raw':
        return F.moment_filter_nd_rms((lambda x, n: cond(x, n, jnp.zeros(d), jnp.ones(d)), 'index'), lik, ys, (mi, inds), ms0, stable=stable)
    if mode == 'central':
        return F.moment_filter_nd_cms((lambda x, n, c: cond(x, n, c, jnp.ones(d)), 'index'), lambda x: mv(x)[0], lik, ys, (mi, inds), ms0, mean0, stable=stable)
    return F.moment_filter_nd_scms((cond, 'index'), mv, lik, ys, (mi, inds), ms0, mean0, scale0, stable=stable)


@st.composite
def nd_affine(draw):
    c = draw(nd_case(((2, 2), (2, 3), (3, 2))))
    d = c['d']
    c['mode'] = draw(st.sampled_from(MODES))
    raw = c['mode'] == 'raw'
    c.update(al=draw(vec(st.sampled_from([1., -1., 0.5, -2.] if raw else [1., -1., 30., -0.02, 4.]), d)), be=[0.] * d if raw else draw(vec(q(-20, 20, 4), d)))
    return c


@PROP.sub('affine_nd', nd_affine(), quick=80, thorough=2500, shards=3)
def affine_nd(c, ctx):
    d, N, T, mode = c['d'], c['N'], len(c['ys']), c['mode']
    P, ex, tol = nd_setup(c, ctx)
    mi, _, _ = MN.tables(d, N)
    al, be = np.array(c['al']), np.array(c['be'])
    ctx.nt(c['model']['lik'] != 4 and (np.any(al != 1) or np.any(be)))
    ctx.label(mode, f'd={d} N={N}')
    tol = tol + 1e-12 * float(np.max(np.abs(be) / np.abs(al)))
    ms0, mean0, scale0 = MN.initial(c['dist'], d, N, mode)
    base = nd_unpack(ctx.call(f'{mode} filter', MN.run_jit, mode, d, N, c['stable'], 'index', c['vecy'], P, ms0, mean0, scale0, c['ys']), mode, T, d)
    sg = al if mode != 'scaled' else np.sign(al)
    fac = np.prod(sg ** mi, axis=1)
    J = jnp.asarray
    out = ctx.call(f'{mode} filter', run_affine_nd, mode, d, N, c['stable'], c['vecy'], {k: J(v) for k, v in P.items()}, J(al), J(be), J(ms0 * fac), J(al * mean0 + be), J(np.abs(al) * scale0), J(c['ys']))
    ctx.arr(out[0], (T, len(mi)), 'moments of the mapped model')
    got = nd_unpack(out, mode, T, d)
    key = dict(raw='arms', central='acms', scaled='ascms')[mode]
    size = 1. if mode == 'scaled' else np.array([np.prod((sd + (np.abs(mu) if mode == 'raw' else 0.)) ** mi, axis=1) for mu, sd in zip(ex['mean'], ex['std'])])
    ctx.close(got[0], base[0] * fac, f'{mode} moments of the mapped model', tol=3 * tol * (ex[key] + size) * np.abs(fac))
    ctx.close(got[3], base[3], 'likelihood of the mapped model', tol=3 * tol * T)
    if mode != 'raw':
        ctx.close(got[1], al * base[1] + be, 'means of the mapped model', tol=3 * tol * ex['std'] * np.abs(al) + 1e-12 * (np.abs(be) + np.abs(al * base[1])))
    if mode == 'scaled':
        ctx.close(got[2], np.abs(al) * base[2], 'scales of the mapped model', tol=3 * tol * ex['std'] * np.abs(al))
