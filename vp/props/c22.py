from ..core import *
from .. import oracles as o
import jax
import jax.numpy as jnp
from functools import partial
from jax.experimental import io_callback
from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
from mfs.classical_filters_smoothers.resampling import systematic, stratified, multinomial

PROP = Prop('C22', rule='at least two particles and weights that are not all equal',
            assumptions=['double precision (jax x64) is enabled', 'at least one particle has positive likelihood',
                         'for the independence of draws, user-supplied samplers consume the key they are given directly (see known findings for samplers that split it)'])
SCHEMES = dict(systematic=systematic, stratified=stratified, multinomial=multinomial)
REC = []


def rec(tag, *arrays):
    io_callback(lambda *a: REC.append((tag, [np.asarray(x) for x in a])), None, *arrays, ordered=True)


# ------------------------------------------------------------------------------------------------ model: x' = b + A x + C sin x + s * noise
def mean(P, x, xp):
    return P['b'] + x @ P['A'].T + xp.sin(x) @ P['C'].T


def lik(P, y, x, xp):
    """y (dy, ), x (n, d) -> (n, ); deliberately unnormalised in x."""
    e = (y - x @ P['H'].T) / P['r']
    return xp.exp(-0.5 * xp.sum(e ** 2, axis=-1)) * (1.25 + xp.sin(x[..., 0])) * P['u'] + P['f'] * P['u']


def trans_pdf(P, x, a, xp):
    e = (x - mean(P, a, xp)) / P['s']
    return xp.exp(-0.5 * xp.sum(e ** 2, axis=-1)) / xp.prod(P['s'] * math.sqrt(2 * math.pi))


def prop_mean(P, a, y, xp):
    return mean(P, a, xp) + P['g'] * xp.sum(y)


def prop_pdf(P, x, a, y, xp):
    e = (x - prop_mean(P, a, y, xp)) / P['t']
    return xp.exp(-0.5 * xp.sum(e ** 2, axis=-1)) / xp.prod(P['t'] * math.sqrt(2 * math.pi))


def col(x, flat):
    return x[:, None] if flat else x


@partial(jax.jit, static_argnums=(0, 1, 2, 3, 4))
def run(kind, n, scheme, flat, record, P, key, ys):
    """kind: bootstrap | general | as_transition | continuous."""
    r = rec if record else (lambda *a: None)
    un = (lambda x: x[:, 0]) if flat else (lambda x: x)
    d = P['b'].shape[0]

    def init(k, m):
        x = un(P['m0'] + jax.random.normal(k, (m, d)) * P['s0'])
        r('init', jnp.asarray(m), k, x)
        return x

    def trans(x, k):
        z = un(mean(P, col(x, flat), jnp) + jax.random.normal(k, (x.shape[0], d)) * P['s'])
        r('move', x, k, z)
        return z

    def prop(x, y, k):
        z = un(prop_mean(P, col(x, flat), y, jnp) + jax.random.normal(k, (x.shape[0], d)) * P['t'])
        r('move', x, k, z, y)
        return z

    def resample(w, k):
        idx = SCHEMES[scheme](w, k)
        r('select', w, k, idx)
        return idx

    like = lambda y, x: lik(P, y, col(x, flat), jnp)
    if kind in ('bootstrap', 'continuous'):
        return bootstrap_filter(trans, like, ys, init, key, n, resample, **({} if kind == 'bootstrap' else dict(conti_resampling=True)))
    if kind == 'as_transition':
        td = lambda x, a: trans_pdf(P, col(x, flat), col(a, flat), jnp)
        return particle_filter(lambda x, y, k: trans(x, k), lambda x, a, y: td(x, a), td, like, ys, init, key, n, resample)
    return particle_filter(prop, lambda x, a, y: prop_pdf(P, col(x, flat), col(a, flat), y, jnp), lambda x, a: trans_pdf(P, col(x, flat), col(a, flat), jnp), like, ys, init,
                           key, n, resample)


CONF = [(1, 1, True), (1, 1, False), (2, 1, False), (2, 2, False), (3, 2, False)]


@st.composite
def case(draw, kinds):
    d, dy, flat = draw(st.sampled_from(CONF))
    kind = draw(st.sampled_from(kinds))
    if kind == 'continuous':
        d, dy, flat = 1, draw(st.integers(1, 2)), True
    n, T = draw(st.one_of(st.tuples(st.sampled_from([1, 2, 7, 30]), st.sampled_from([1, 2, 4])), st.tuples(st.sampled_from([1, 2, 7, 30]), st.sampled_from([1, 2, 4])),
                          st.sampled_from([(300, 2), (7, 12)])))  # many particles, a long record
    return dict(kind=kind, d=d, dy=dy, flat=flat, n=n, scheme=draw(st.sampled_from(sorted(SCHEMES))), T=T,
                A=draw(mat(q(-1, 1, 8), d, d)), C=draw(mat(q(-1, 1, 8), d, d)), b=draw(vec(q(-1, 1, 8), d)), s=draw(vec(qpos(0.25, 1.5, 8), d)),
                t=draw(vec(qpos(0.5, 2, 8), d)), g=draw(vec(q(-0.5, 0.5, 8), d)), H=draw(mat(q(-1, 1, 8), dy, d)), r=draw(vec(qpos(0.25, 2, 8), dy)),
                m0=draw(vec(q(-2, 2, 8), d)), s0=draw(vec(qpos(0.25, 1.5, 8), d)), u=2. ** draw(st.sampled_from([0, 0, 0, 30, -30, 60, -60, -100, 200])),
                f=draw(st.sampled_from([1e-3, 1e-3, 2. ** -40, 0.])), key=draw(st.integers(0, 2 ** 31 - 1)), ys=draw(mat(q(-2, 2, 8), max(T, 4), dy)))


def params(c):
    return {k: np.array(c[k], dtype=float) for k in ('A', 'C', 'b', 's', 't', 'g', 'H', 'r', 'm0', 's0', 'u', 'f')}


def check(c, ctx):
    P = params(c)
    n, T, flat = c['n'], c['T'], c['flat']
    ys = np.array(c['ys'])[:T]
    shape = (n,) if flat else (n, c['d'])
    ctx.label(c['kind'], f'd={c["d"]}', f'dy={c["dy"]}', f'n={n}', f'T={T}', c['scheme'])
    J = {k: jnp.asarray(v) for k, v in P.items()}
    args = (c['kind'], n, c['scheme'], flat)
    key = jax.random.PRNGKey(c['key'])
    REC.clear()
    out = ctx.call(c['kind'], run, *args, True, J, key, jnp.asarray(ys))
    jax.effects_barrier()
    log = list(REC)
    boot = c['kind'] in ('bootstrap', 'continuous')
    if boot:
        ctx.equal(len(out), 2, 'number of outputs')
        xs, nell = ctx.arr(out[0], (T,) + shape, 'samples'), ctx.scalar(out[1], 'negative log likelihood')
    else:
        xs, nell = ctx.arr(out, (T,) + shape, 'samples'), None
    inits, moves, sels = ([e for t, e in log if t == k] for k in ('init', 'move', 'select'))
    ctx.true(len(inits) == 1 and len(moves) == T, 'the samplers were not called once at the start and once per measurement', calls=[len(inits), len(moves), len(sels)])
    ctx.equal(int(inits[0][0]), n, 'number of initial particles')
    prev, total = inits[0][2], 0.
    for k in range(T):
        ctx.true(np.allclose(moves[k][0], prev, rtol=1e-9, atol=1e-9), 'the particles propagated are not those of the previous time', time=k)
        new = moves[k][2]
        cn, ca = (new[:, None], prev[:, None]) if flat else (new, prev)
        w = lik(P, ys[k], cn, np)
        if c['kind'] == 'general':
            ctx.true(np.allclose(moves[k][3], ys[k], rtol=1e-9, atol=1e-9), 'the proposal was given another measurement', time=k)
            w = w * trans_pdf(P, cn, ca, np) / prop_pdf(P, cn, ca, ys[k], np)
        if not np.sum(w) > 1e-250:
            ctx.inconclusive('all weights underflow')
        total -= math.log(np.mean(w))
        wn = w / np.sum(w)
        ctx.nt(n >= 2 and np.ptp(wn) > 1e-6)
        if c['kind'] == 'continuous':
            o_ = np.argsort(new)
            sx, sw = new[o_], wn[o_]
            cs = np.cumsum(sw) - sw / 2
            v = xs[k]
            ctx.true(np.all(np.diff(v) >= -1e-12) and np.all((v >= sx[0] - 1e-9) & (v <= sx[-1] + 1e-9)), 'continuous resampling outside the particles', time=k)
            for i, x in enumerate(v):
                lo = -math.inf if x <= sx[0] + 1e-9 else float(np.interp(x, sx, cs))
                hi = math.inf if x >= sx[-1] - 1e-9 else float(np.interp(x, sx, cs))
                ctx.true(lo * n <= i + 1 + 1e-6 and hi * n >= i - 1e-6, 'continuously resampled particle outside its stratum', time=k, i=i)
        else:
            ctx.equal(len(sels), T, 'number of calls of the resampler')
            ctx.close(sels[k][0], wn, 'weights handed to the resampler', tol=1e-10)
            ctx.true(np.allclose(xs[k], new[sels[k][2]], rtol=1e-9, atol=1e-9), 'returned particles are not the selected propagated ones', time=k)
        prev = xs[k]
    if boot:
        ctx.close(nell, total, 'negative log likelihood', tol=1e-10 * T * (1 + abs(total)))
    keys = [tuple(e[1].reshape(-1).tolist()) for e in inits + moves + sels]
    ctx.equal(len(set(keys)), len(keys), 'number of distinct random keys handed out')
    again = run(*args, False, J, key, jnp.asarray(ys))
    again = again[0] if boot else again
    ctx.close(again, xs, 'reproducible from the key', tol=1e-9)


PROP.sub('bootstrap', case(['bootstrap', 'bootstrap', 'continuous']), quick=250, thorough=5000, shards=3)(check)
PROP.sub('general', case(['general']), quick=200, thorough=5000, shards=3)(check)


@PROP.sub('proposal_is_transition', case(['as_transition']), quick=120, thorough=3000, shards=2)
def same(c, ctx):
    """A proposal equal to the transition reproduces the bootstrap filter, key for key."""
    P = params(c)
    ys = jnp.asarray(np.array(c['ys'])[:c['T']])
    ctx.label(f'd={c["d"]}', f'n={c["n"]}', f'T={c["T"]}', c['scheme'])
    J = {k: jnp.asarray(v) for k, v in P.items()}
    key = jax.random.PRNGKey(c['key'])
    a = ctx.call('bootstrap', run, 'bootstrap', c['n'], c['scheme'], c['flat'], False, J, key, ys)[0]
    b = ctx.call('particle_filter', run, 'as_transition', c['n'], c['scheme'], c['flat'], False, J, key, ys)
    ctx.nt(c['n'] > 1)
    ctx.close(b, np.asarray(a), 'bootstrap filter reproduced', tol=1e-9)
    c2 = jax.random.PRNGKey(c['key'] ^ 1)
    a2 = run('bootstrap', c['n'], c['scheme'], c['flat'], False, J, c2, ys)[0]
    ctx.true(not np.array_equal(np.asarray(a), np.asarray(a2)), 'another key gives the same particles')


# ------------------------------------------------------------------------------------------------ independence of the draws
NI = 4000


@partial(jax.jit, static_argnums=(0, 1, 2))
def noises(how, scheme, T, key):
    """Normal scores of the initial draw, of the moves and the uniform scores of the resampler, for samplers that consume keys as told."""
    hi, ht = how
    derive = dict(direct=lambda k: k, split0=lambda k: jax.random.split(k)[0])

    def init(k, n):
        return jnp.stack([jax.random.normal(derive[hi](k), (n,)), jnp.zeros(n)], axis=1)

    def trans(x, k):
        return jnp.stack([x[:, 0], jax.random.normal(derive[ht](k), (x.shape[0],))], axis=1)

    idn = lambda w, k: jnp.arange(w.shape[0])
    xs, _ = bootstrap_filter(trans, lambda y, x: jnp.ones(x.shape[0]), jnp.zeros((T, 1)), init, key, NI, idn)
    # the resampler's key, exposed through the selection: the order of its own draws
    perm = lambda w, k: jnp.argsort(jax.random.normal(k, (w.shape[0],)))
    ys, _ = bootstrap_filter(trans, lambda y, x: jnp.ones(x.shape[0]), jnp.zeros((T, 1)), init, key, NI, perm)
    return xs, ys


@PROP.sub('independence', st.fixed_dictionaries(dict(init=st.just('direct'), move=st.just('direct'), T=st.sampled_from([1, 2, 3, 5]), key=st.integers(0, 2 ** 31 - 1))),
          quick=24, thorough=400, shards=2)
def independence(c, ctx):
    """Initial noise, noises of different times and resampling draws are uncorrelated over 4000 particles (bound: probability of a false alarm 1e-12)."""
    T = c['T']
    ctx.label(f'init {c["init"]}', f'move {c["move"]}', f'T={T}')
    ctx.nt()
    xs, ys = (np.asarray(v) for v in ctx.call('bootstrap_filter', noises, (c['init'], c['move']), 'none', T, jax.random.PRNGKey(c['key'])))
    series = [('initial', xs[0, :, 0])] + [(f'move {k}', xs[k, :, 1]) for k in range(T)]
    bound = 8 / math.sqrt(NI)
    for i in range(len(series)):
        for j in range(i):
            r = float(np.mean(series[i][1] * series[j][1]))
            ctx.true(abs(r) <= bound, 'draws are not independent', pair=[series[j][0], series[i][0]], correlation=r)
    # resampling draws ordered the particles: if they shared randomness with the move, the moved noises come out sorted
    for k in range(T):
        z = ys[k, :, 1]
        ranks = np.argsort(np.argsort(z)) / (NI - 1) - 0.5
        r = float(np.mean(ranks * np.linspace(-0.5, 0.5, NI))) * 12
        ctx.true(abs(r) <= bound, 'resampling and propagation draws are not independent', time=k, correlation=r)


# ------------------------------------------------------------------------------------------------ convergence
@st.composite
def lg(draw):
    d = draw(st.integers(1, 2))
    return dict(d=d, A=draw(mat(q(-0.75, 0.75, 8), d, d)), s=draw(vec(qpos(0.5, 1.25, 8), d)), H=[draw(vec(q(-1, 1, 8), d))], r=draw(qpos(0.75, 2, 8)), m0=draw(vec(q(-1, 1, 8), d)),
                s0=draw(vec(qpos(0.5, 1.25, 8), d)), ys=draw(mat(q(-1.5, 1.5, 8), 4, 1)), scheme=draw(st.sampled_from(sorted(SCHEMES))), general=draw(st.booleans()), g=draw(vec(q(-0.25, 0.25, 8), d)), key=draw(st.integers(0, 2 ** 31 - 1)))


NP = 20000


@partial(jax.jit, static_argnums=(0, 1, 2))
def lg_run(d, general, scheme, P, key, ys):
    init = lambda k, n: P['m0'] + jax.random.normal(k, (n, d)) * P['s0']
    trans = lambda x, k: x @ P['A'].T + jax.random.normal(k, x.shape) * P['s']
    like = lambda y, x: jnp.exp(-0.5 * ((y[0] - x @ P['H'][0]) / P['r']) ** 2) / (P['r'] * math.sqrt(2 * math.pi))
    if not general:
        return bootstrap_filter(trans, like, ys, init, key, NP, SCHEMES[scheme])
    pm = lambda x, y: x @ P['A'].T + P['g'] * y[0]
    npdf = lambda e, s: jnp.exp(-0.5 * jnp.sum((e / s) ** 2, axis=1)) / jnp.prod(s)
    return particle_filter(lambda x, y, k: pm(x, y) + jax.random.normal(k, x.shape) * P['s'] * 1.25, lambda x, a, y: npdf(x - pm(a, y), P['s'] * 1.25),
                           lambda x, a: npdf(x - a @ P['A'].T, P['s']), like, ys, init, key, NP, SCHEMES[scheme]), None


@PROP.sub('kalman_limit', lg(), quick=60, thorough=800, shards=3)
def limit(c, ctx):
    """With many particles, means, covariances and likelihood are those of the Kalman filter."""
    d = c['d']
    P = {k: np.array(c[k], dtype=float) for k in ('A', 's', 'H', 'r', 'm0', 's0', 'g')}
    ys = np.array(c['ys'])
    ctx.label(f'd={d}', c['scheme'], 'general' if c['general'] else 'bootstrap')
    ctx.nt(np.any(P['H']))
    m, V, n, _, _ = o.kalman(P['A'], np.diag(P['s'] ** 2), P['H'], np.array([[c['r'] ** 2]]), P['m0'], np.diag(P['s0'] ** 2), ys)
    xs, nell = ctx.call('particle filter', lg_run, d, c['general'], c['scheme'], {k: jnp.asarray(v) for k, v in P.items()}, jax.random.PRNGKey(c['key']), jnp.asarray(ys))
    xs = ctx.arr(xs, (4, NP, d), 'samples')
    sd = np.sqrt(np.array([np.diag(v) for v in V]))
    ctx.close(np.mean(xs, axis=1), m, 'posterior means', tol=0.2 * sd)
    cov = np.array([np.cov(x.T).reshape(d, d) for x in xs])
    ctx.close(cov, V, 'posterior covariances', tol=0.3 * sd[:, :, None] * sd[:, None, :])
    if nell is not None:
        ctx.close(ctx.scalar(nell, 'nell'), n[-1], 'negative log likelihood', tol=0.2)
