from ..core import *
from .. import oracles as o, gen, models1d as M, modelsnd as MN
from . import c03, c06
import itertools
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.multi_dims import filtering as F
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico, generate_graded_lexico_multi_indices

PROP = Prop('C15', rule='at least two nodes per coordinate and an informative likelihood; for relabelling, a permutation other than the identity',
            assumptions=['double precision (jax x64) is enabled', 'histories whose moment matrices are ill-conditioned in double precision are inconclusive',
                         'permutations other than full reversal (in three dimensions) are judged on polynomial and finite-state models, for which the rule is exact'])
MODES = ('raw', 'central', 'scaled')


# ------------------------------------------------------------------------------------------------ products of 1D models, through the ND filters
@partial(jax.jit, static_argnums=(0, 1, 2, 3, 4, 5))
def run_product(mode, d, N, stable, sig, vecy, ps, idxs, u, ms0, mean0, scale0, ys):
    """d one-dimensional models side by side, coordinate i measured in units of 1 / u[i]; measurements (T, d) or, for d = 1, those of the 1D model."""
    nm = 2 * N
    mi, inds = generate_graded_lexico_multi_indices(d, nm - 1), gram_and_hankel_indices_graded_lexico(N, d)
    Jm = jnp.asarray(mi)
    get = (lambda n: n) if sig == 'multi-index' else (lambda n: Jm[n])

    def cond(x, n, c, s):
        n = get(n)
        return jnp.prod(jnp.stack([M.jx_cond(ps[i], idxs[i], x[:, i] / u[i], n[:, i], c[i] / u[i], s[i] / u[i], nm) for i in range(d)]), axis=0)

    def mv(x):
        return tuple(jnp.stack([f(ps[i], x[:, i] / u[i]) * u[i] ** k for i in range(d)], axis=1) for k, f in ((1, M.jx_mean), (2, M.jx_var)))

    def lik(y, x):
        if d == 1:
            return M.jx_lik(ps[0], idxs[0], y, x[0] / u[0], vecy)
        return jnp.prod(jnp.stack([M.jx_lik(ps[i], idxs[i], y[i], x[i] / u[i], vecy) for i in range(d)]))

    one, zero = jnp.ones(d), jnp.zeros(d)
    if mode == 'raw':
        return F.moment_filter_nd_rms((lambda x, n: cond(x, n, zero, one), sig), lik, ys, (mi, inds), ms0, stable=stable)
    if mode == 'central':
        return F.moment_filter_nd_cms((lambda x, n, c: cond(x, n, c, one), sig), lambda x: mv(x)[0], lik, ys, (mi, inds), ms0, mean0, stable=stable)
    return F.moment_filter_nd_scms((cond, sig), mv, lik, ys, (mi, inds), ms0, mean0, scale0, stable=stable)


@st.composite
def product_case(draw, confs):
    d, N = draw(st.sampled_from(confs))
    T = draw(st.sampled_from([1, 4] if d == 1 else [1, 3]))
    vecy = draw(st.integers(0, 4)) == 0
    cs = []
    for _ in range(d):
        m = draw(M.model())
        cs.append(dict(model=m, dist=draw(gen.dist1d(N + 1)), ys=[M.measurement(draw, m, vecy) for _ in range(T)]))
    return dict(d=d, N=N, T=T, vecy=vecy, mode=draw(st.sampled_from(MODES)), stable=draw(st.booleans()), stable1=draw(st.booleans()),
                sig=draw(st.sampled_from(['index', 'multi-index'])), c=cs, unit=draw(vec(st.sampled_from([0, 0, 0, -13, -22, 12]), d)))


def product(c, ctx):
    d, N, T, mode, nm = c['d'], c['N'], c['T'], c['mode'], 2 * c['N']
    if N == 1 and mode == 'scaled':
        mode = 'central'
    mi = MN.tables(d, N)[0]
    key = dict(raw='rms', central='cms', scaled='scms')[mode]
    tol, singles, exs, starts = 1e-9, [], [], []
    for k in c['c']:
        cc = dict(k, nm=nm)
        f, mean0, scale0, raw0 = c03.initial(cc, mode)
        ex, err = M.reference(k['model'], raw0, k['ys'], nm, mode)
        tol += 500 * err
        exs.append(ex), starts.append((f, mean0, scale0))
    if d > 1:
        tol *= 10
    if not tol < 1e-4:
        ctx.inconclusive('ill-conditioned')
    for k, (f, mean0, scale0) in zip(c['c'], starts):
        p, idx = M.pack(k['model'])
        out = ctx.call(f'1D {mode} filter', c03.run, mode, nm, c['stable1'], c['vecy'], p, idx, jnp.asarray(f), mean0, scale0, jnp.asarray(k['ys']))
        singles.append([np.asarray(v) for v in out])
    ctx.nt(N >= 2 and any(k['model']['lik'] != 5 or c['vecy'] for k in c['c']))
    ctx.label(f'd={d} N={N}', mode, f'T={T}', c['sig'])
    J = jnp.asarray
    u = 2. ** np.array(c.get('unit', [0] * d), dtype=float)  # powers of two: a change of units is exact
    un = np.prod(u ** mi, axis=1) if mode != 'scaled' else np.ones(len(mi))
    ms0 = un * np.prod([np.asarray(s[0])[mi[:, i]] for i, s in enumerate(starts)], axis=0)
    packs = [M.pack(k['model']) for k in c['c']]
    ys = np.array(c['c'][0]['ys'], dtype=float) if d == 1 else np.stack([np.array(k['ys'], dtype=float) for k in c['c']], axis=1)
    out = ctx.call(f'ND {mode} filter', run_product, mode, d, N, c['stable'], c['sig'], c['vecy'], J([p for p, _ in packs]), J([i for _, i in packs]), J(u), J(ms0),
                   J(u * np.array([s[1] for s in starts], dtype=float)), J(u * np.array([s[2] for s in starts], dtype=float)), J(ys))
    ctx.true(isinstance(out, tuple) and len(out) == dict(raw=2, central=3, scaled=4)[mode], 'number of outputs')
    want = un * np.prod([s[0][:, mi[:, i]] for i, s in enumerate(singles)], axis=0)
    size = un
    for i, ex in enumerate(exs):
        sd = np.maximum(ex['std'], 1e-3)[:, None]
        b = 1. if mode == 'scaled' else (sd if mode == 'central' else sd + np.abs(ex['mean'])[:, None])
        size = size * (ex['a' + key] + b ** np.arange(nm))[:, mi[:, i]]
    ctx.close(out[0], want, f'{mode} moments: ND filter against 1D filters', tol=2 * tol * size)
    if mode != 'raw':
        m1 = u * np.stack([s[1] for s in singles], axis=1)
        sd = u * np.stack([np.maximum(e['std'], 1e-3) for e in exs], axis=1)
        ctx.close(out[1], m1, 'means: ND filter against 1D filters', tol=2 * tol * sd + 1e-12 * np.abs(m1))
        if mode == 'scaled':
            ctx.close(out[2], u * np.stack([s[2] for s in singles], axis=1), 'scales: ND filter against 1D filters', tol=2 * tol * sd)
    ctx.close(out[-1], sum(float(s[-1]) for s in singles), 'likelihood: ND filter against 1D filters', tol=2 * tol * T * d)


@PROP.sub('one_dim_reduction', product_case(((1, 1), (1, 2), (1, 3), (1, 4))), quick=140, thorough=3000, shards=2)
def reduction(c, ctx):
    product(c, ctx)


@PROP.sub('independent_2d', product_case(((2, 2), (2, 3), (2, 4))), quick=100, thorough=2500, shards=3)
def independent_2d(c, ctx):
    product(c, ctx)


@PROP.sub('independent_3d', product_case(((3, 2),)), quick=60, thorough=1500, shards=1)
def independent_3d(c, ctx):
    product(c, ctx)


# ------------------------------------------------------------------------------------------------ relabelling
FAM = dict(c06.FAMILIES, general=(lambda P, x, mi, c, s, xp: MN.cond_moments(P, x, mi, c, s, xp), lambda P, x, xp: MN.cond_mean_var(P, x, xp),
                                  lambda P, y, x, xp: MN.likelihood(P, y, x, xp, np.ndim(y) == 1)))


@partial(jax.jit, static_argnums=(0, 1, 2, 3, 4, 5, 6))
def run_perm(family, mode, d, N, stable, sig, perm, P, ms0, mean0, scale0, ys):
    """The filter for the state z = x[perm], everything given in terms of z."""
    cond, mv, lik = FAM[family]
    mi, inds = generate_graded_lexico_multi_indices(d, 2 * N - 1), gram_and_hankel_indices_graded_lexico(N, d)
    Jm, inv, pm = jnp.asarray(mi), np.argsort(perm), np.array(perm)
    get = (lambda n: n) if sig == 'multi-index' else (lambda n: Jm[n])
    C = lambda z, n, c, s: cond(P, z[:, inv], get(n)[:, inv], c[inv], s[inv], jnp)
    MV = lambda z: tuple(v[:, pm] for v in mv(P, z[:, inv], jnp))
    L = lambda y, z: lik(P, y, z[inv][None, :], jnp)[0]
    one, zero = jnp.ones(d), jnp.zeros(d)
    if mode == 'raw':
        return F.moment_filter_nd_rms((lambda x, n: C(x, n, zero, one), sig), L, ys, (mi, inds), ms0, stable=stable)
    if mode == 'central':
        return F.moment_filter_nd_cms((lambda x, n, c: C(x, n, c, one), sig), lambda x: MV(x)[0], L, ys, (mi, inds), ms0, mean0, stable=stable)
    return F.moment_filter_nd_scms((C, sig), MV, L, ys, (mi, inds), ms0, mean0, scale0, stable=stable)


def relabel(c, ctx, family, P, start, ms0, mean0, std0, rem, err):
    """Run twice, compare. rem: per step, the degree up to which moments are determined; the likelihood is compared while it is >= 0."""
    d, N, mode, T = c['d'], c['N'], c['mode'], len(c['ys'])
    mi = MN.tables(d, N)[0]
    tol = 500 * err + 1e-9
    if not tol < 1e-4:
        ctx.inconclusive('ill-conditioned')
    perm = tuple(c['perm'])
    pos = {tuple(n): i for i, n in enumerate(mi.tolist())}
    p = np.array([pos[tuple(n)] for n in mi[:, np.argsort(perm)].tolist()])  # z^n = x^(n[inv])
    J = jnp.asarray
    PJ = {k: J(v) for k, v in P.items()}
    a = [np.asarray(v) for v in ctx.call(f'{mode} filter', run_perm, family, mode, d, N, c['stable'], c['sig'], tuple(range(d)), PJ, J(ms0), J(mean0), J(std0), J(c['ys']))]
    b = [np.asarray(v) for v in ctx.call(f'{mode} filter', run_perm, family, mode, d, N, c['stable'], c['sig'], perm, PJ, J(ms0[p]), J(mean0[list(perm)]), J(std0[list(perm)]),
                                         J(c['ys']))]
    ctx.label(f'd={d} N={N}', mode, family, f'permutation {list(perm)}')
    tot = np.sum(mi, axis=1)
    for t, r in enumerate(rem):
        if r < dict(raw=0, central=1, scaled=2)[mode]:
            continue
        mean, std, ab = start(t)
        if mode != 'raw':
            ctx.close(b[1][t], a[1][t][list(perm)], 'means after relabelling', tol=tol * std[list(perm)] + 1e-12 * np.abs(mean[list(perm)]))
        if mode == 'scaled':
            ctx.close(b[2][t], a[2][t][list(perm)], 'scales after relabelling', tol=tol * std[list(perm)])
        size = np.prod((np.ones(d) if mode == 'scaled' else std + (np.abs(mean) if mode == 'raw' else 0.)) ** mi, axis=1) + ab
        sel = tot <= r
        ctx.close(b[0][t][sel], a[0][t][p][sel], 'moments after relabelling', tol=2 * tol * size[p][sel])
    if rem[-1] >= 0:
        ctx.close(float(b[-1]), float(a[-1]), 'likelihood after relabelling', tol=2 * tol * T)


@st.composite
def general_case(draw):
    d, N = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (2, 4)]))
    vecy = draw(st.integers(0, 3)) == 0
    T = draw(st.sampled_from([1, 3]))
    y = (lambda: [draw(q(-2, 2, 16)), draw(q(-2, 2, 16))]) if vecy else (lambda: draw(q(-2, 2, 16)))
    return dict(d=d, N=N, model=draw(MN.model(d)), dist=draw(MN.dist(d)), vecy=vecy, ys=[y() for _ in range(T)], stable=draw(st.booleans()), mode=draw(st.sampled_from(MODES)),
                sig=draw(st.sampled_from(['index', 'multi-index'])), perm=list(range(d))[::-1])


@PROP.sub('reversal', general_case(), quick=100, thorough=2500, shards=3)
def reversal(c, ctx):
    """Reversing the order of the coordinates transposes the chain of rules: any model."""
    d, N, mode = c['d'], c['N'], c['mode']
    P = MN.params(c['model'])
    ex, err = MN.reference(P, MN.start_of(c['dist'], d, N), d, N, c['ys'], c['vecy'])
    ms0, mean0, std0 = MN.initial(c['dist'], d, N, mode)
    key = dict(raw='arms', central='acms', scaled='ascms')[mode]
    ctx.nt(c['model']['lik'] != 4)
    relabel(c, ctx, 'general', P, lambda t: (ex['mean'][t], ex['std'][t], ex[key][t]), ms0, mean0, std0, [2 * N - 1] * len(c['ys']), err)


@st.composite
def with_perm(draw, base):
    c = draw(base)
    return dict(c, perm=list(draw(st.permutations(range(c['d'])))))


def exact_family(c, ctx, family, P, x0, w0, laws, rem):
    d, N, mode = c['d'], c['N'], c['mode']
    mi = MN.tables(d, N)[0]
    err = c06.conditioning(c, P, family, x0, w0, mi)
    ms0, mean0, std0 = c06.start(c, x0, w0, mi)

    def sizes(t):
        x, w = laws[t]
        mean = w @ x
        std = np.sqrt(np.maximum(w @ (x - mean) ** 2, 1e-8))
        cc, ss = (np.zeros(d), np.ones(d)) if mode == 'raw' else ((mean, np.ones(d)) if mode == 'central' else (mean, std))
        return mean, std, c06.moments_of(x, w, mi, cc, ss)[1]

    relabel(c, ctx, family, P, sizes, ms0, mean0, std0, rem, err)


@PROP.sub('permutation_polynomial', with_perm(st.sampled_from([(3, 2), (2, 3)]).flatmap(lambda t: c06.poly_case(t[0], (t[1],)))), quick=50, thorough=1500, shards=1)
def perm_poly(c, ctx):
    d, N = c['d'], c['N']
    P = c06.poly_params(c)
    x0, w0 = c06.prior_atoms(c['pk'], d, 14)
    laws, rem, left, x, w = [], [], 2 * N - 1, x0, w0
    for y in c['ys']:
        n, pr = c06.poly_next(P, x, np)
        x, w = n.reshape(-1, d), (w[:, None] * pr).reshape(-1)
        l = c06.poly_lik(P, np.array(y), x, np)
        w = w * l / (w @ l)
        left -= int(y[0])
        laws.append((x, w)), rem.append(left)
    ctx.nt(c['perm'] != sorted(c['perm']) and rem[0] >= 0 and any(y[0] for y in c['ys']))
    exact_family(c, ctx, 'poly', P, x0, w0, laws, rem)


@PROP.sub('permutation_finite_state', with_perm(c06.chain_case(3, (2,))), quick=50, thorough=1500, shards=1)
def perm_chain(c, ctx):
    f = lambda k: np.array(c[k], dtype=float)
    P = dict(states=f('states') * c['gap'] + f('off'), th=f('th'), ph=f('ph'), h=f('h'), unit=np.float64(c.get('unit', 1.)))
    x0, w0 = P['states'], f('p0') / np.sum(c['p0'])
    tr = c06.chain_next(P, x0, np)[1]
    laws, w = [], w0
    for y in c['ys']:
        w = w @ tr
        l = c06.chain_lik(P, np.array(y), x0, np)
        w = w * l / (w @ l)
        laws.append((x0, w))
    ctx.nt(c['perm'] != sorted(c['perm']) and any(y[0] != 3 for y in c['ys']))
    exact_family(c, ctx, 'chain', P, x0, w0, laws, [2 * c['N'] - 1] * len(laws))
