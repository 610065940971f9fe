from ..core import *
from .. import oracles as o, sde
import jax
import jax.numpy as jnp
from functools import lru_cache
from mfs.one_dim.moments import sde_cond_moments_tme, sde_cond_moments_tme_normal, sde_cond_moments_euler

PROP = Prop('C07', rule='a state-dependent drift and an order of at least two',
            assumptions=['double precision (jax x64) is enabled', 'drift and dispersion in the ring of polynomials and sines, evaluated element-wise'])
FORMS = ('raw', 'central', 'scaled', 'mean', 'mean_var')


def build(kind, order, N, a, b, dt, const=None, u=1.):
    """u: the state in other units, X -> u X (a power of two, so exact)."""
    f = lambda x: u * sde.f1(a, x / u)
    g = (lambda x: u * sde.g1(b, x / u)) if const is None else (lambda x: u * const)
    if kind == 'tme':
        return sde_cond_moments_tme(f, g, dt, order)
    if kind == 'tme_normal':
        return sde_cond_moments_tme_normal(f, g, dt, order, N)
    return sde_cond_moments_euler(f, g, dt, N)


@lru_cache(maxsize=None)
def runner(kind, order, N):
    def run(a, b, dt, x, n, mean, scale, u=1.):
        F = build(kind, order, N, a, b, dt, u=u)
        x, mean, scale = u * x, u * mean, u * scale
        m, v = F[4](x)
        return F[0](x, n) / u ** n, F[1](x, n, mean) / u ** n, F[2](x, n, mean, scale), F[3](x) / u, (m / u, v / u ** 2)

    return jax.jit(run)


@st.composite
def case(draw, linear=None, kind=None):
    third = kind is not None
    kind = kind or draw(st.sampled_from(['tme', 'tme_normal', 'euler']))
    c = draw(sde.sde1(linear=linear))
    # few shapes, so that compiled programs are reused; the orders in them come in any sequence, repeated or missing
    N = draw(st.sampled_from([1, 3, 6] if kind == 'euler' else [1, 4]))
    order = 0 if kind == 'euler' else draw(st.integers(1, 2))
    k, z = draw(st.sampled_from([(1, 1), (1, 2 * N), (4, 2 * N), (3, 2)] if kind == 'euler' else [(1, 1), (4, 2 * N)]))
    if third:
        order, N, k, z = 3, 4, 4, 8
    n = draw(st.permutations(range(2 * N))) if z == 2 * N and draw(st.booleans()) else draw(vec(st.integers(0, 2 * N - 1), z))
    xs = draw(vec(q(-3, 3, 16), k))
    mean = draw(st.one_of(st.sampled_from(xs), q(-3, 3, 16), st.just(0.)))
    c.update(kind=kind, order=order, N=N, x=xs, n=list(n), mean=mean, scale=draw(qpos(0.25, 4, 16)), dt=draw(st.one_of(qpos(0.01, 0.75, 128), qpos(0.01, 0.75, 128), st.sampled_from([2. ** -10, 2. ** -16, 2. ** -24]))),
             u=draw(st.sampled_from([1., 1., 1., 2. ** -24, 2. ** -12, 2. ** 12])), jit=third or draw(st.integers(0, 11)) > 0)
    return c


def normal_raw(m, v, n):
    """E[X^n] for N(m, v), with the sum of absolute terms (v may be negative: the formula is a polynomial in v)."""
    t = [math.comb(n, 2 * j) * m ** (n - 2 * j) * v ** j * math.prod(range(2 * j - 1, 0, -2)) for j in range(n // 2 + 1)]
    s = [math.comb(n, 2 * j) * (abs(m) + 1e-3) ** (n - 2 * j) * abs(v) ** j * math.prod(range(2 * j - 1, 0, -2)) for j in range(n // 2 + 1)]
    return sum(t), sum(s)


def expected(c):
    """dict form -> (value, size)"""
    t = sde.tme1(c)
    R = t.R
    a, b, dt, mean, scale = c['a'], c['b'], c['dt'], c['mean'], c['scale']
    k, z = len(c['x']), len(c['n'])
    out = {f: (np.zeros((k, z)), np.zeros((k, z))) for f in FORMS[:3]}
    m, v, sm, sv = np.zeros(k), np.zeros(k), np.zeros(k), np.zeros(k)
    for i, x in enumerate(c['x']):
        X = np.array([x])
        if c['kind'] == 'euler':
            m[i], v[i] = x + sde.f1(a, x, np) * dt, sde.g1(b, x, np) ** 2 * dt
            sm[i], sv[i] = abs(x) + sum(abs(u) for u in a) * (1 + abs(x)) ** 3 * dt, v[i]
        else:
            mm, C, S = t.mean_cov(c['order'], dt, X)
            m[i], v[i] = mm[0], C[0, 0]
            sm[i], sv[i] = t.expect(R.x(0), c['order'], dt, X)[1], S
        if c['kind'] == 'tme':
            ps = dict(raw=R.x(0), central=R.add(R.x(0), R.const(-mean)), scaled=R.add(R.x(0), R.const(-mean)))
            for nn in set(c['n']):
                for f, p in ps.items():
                    e, s = t.expect(R.power(p, nn), c['order'], dt, X)
                    s += 1e-3 * (abs(x) + abs(mean) + 1) ** nn
                    if f == 'scaled':
                        e, s = e / scale ** nn, s / scale ** nn
                    for j, w in enumerate(c['n']):
                        if w == nn:
                            out[f][0][i, j], out[f][1][i, j] = e, s
        else:
            for j, nn in enumerate(c['n']):
                for f, cc, sc in (('raw', 0., 1.), ('central', mean, 1.), ('scaled', mean, scale)):
                    e, s = normal_raw(m[i] - cc, v[i], nn)
                    # conditioning in the mean and the variance
                    big = normal_raw(abs(m[i] - cc) + sm[i] + abs(cc), abs(v[i]) + sv[i], nn)[0]
                    out[f][0][i, j], out[f][1][i, j] = e / sc ** nn, (s + big) / sc ** nn
    if c['kind'] == 'tme_normal' and np.any(v <= 1e-9 * sv):
        raise Inconclusive('expansion without a positive variance: no such Normal')
    out['mean'], out['var'] = (m, sm), (v, sv)
    return out


@PROP.sub('forms', case(), quick=300, thorough=6000, shards=4)
def forms(c, ctx):
    e = expected(c)
    ctx.nt(any(c['a'][1:]) and max(c['n']) >= 2)
    ctx.label(c['kind'], f"order={c['order']}", f"N={c['N']}", 'state at the centre' if c['mean'] in c['x'] else 'centre elsewhere', f"unit {c['u'] if c['jit'] else 1.:.2g}", 'compiled' if c['jit'] else 'plain')
    J = lambda v: jnp.asarray(np.asarray(v, dtype=float))
    args = (J(c['x']), jnp.asarray(np.array(c['n'])), J(c['mean']), J(c['scale']))
    if c['jit']:
        got = ctx.call('conditional moments', runner(c['kind'], c['order'], c['N']), J(c['a']), J(c['b']), J(c['dt']), *args, c['u'])
    else:  # plain call: python floats, constant dispersion as a python float where it is constant
        F = build(c['kind'], c['order'], c['N'], c['a'], c['b'], c['dt'], c['b'][0] if c['kind'] == 'euler' and c['b'][1:] == [0., 0.] else None)
        x, n, mean, scale = args[0], args[1], c['mean'], c['scale']
        got = [ctx.call('raw', F[0], x, n), ctx.call('central', F[1], x, n, mean), ctx.call('scaled', F[2], x, n, mean, scale), ctx.call('mean', F[3], x), ctx.call('mean_var', F[4], x)]
    for f, g in zip(FORMS[:3], got):
        ctx.close(g, e[f][0], f'{f} conditional moments', tol=1e-12 * e[f][1] + 1e-300)
    ctx.close(got[3], e['mean'][0], 'conditional mean', tol=1e-12 * (e['mean'][1] + 1e-3))
    ctx.close(got[4][0], e['mean'][0], 'mean of mean_var', tol=1e-12 * (e['mean'][1] + 1e-3))
    v = np.asarray(got[4][1])
    ctx.close(np.broadcast_to(v, (len(c['x']),)) if v.shape == () else v, e['var'][0], 'conditional variance', tol=1e-12 * e['var'][1] + (1e-15 * (e['mean'][1] + 1e-3) ** 2 if c['kind'] != 'euler' else 0.))
    if c['kind'] == 'tme' and not any(c['a'][2:]) and not any(c['b'][1:]):
        linear(c, ctx, got)


def linear(c, ctx, got):
    """Linear SDE: the expansion agrees with the exact Normal law up to its truncation order."""
    a0, a1, s, dt = c['a'][0], c['a'][1], c['b'][0], c['dt']
    F = math.exp(a1 * dt)
    u = a0 * (math.expm1(a1 * dt) / a1 if a1 else dt)
    Q = s * s * (math.expm1(2 * a1 * dt) / (2 * a1) if a1 else dt)
    ctx.label('linear')
    k = c['order']
    for i, x in enumerate(c['x']):
        m = F * x + u
        for j, n in enumerate(c['n']):
            if n > 3:
                continue
            # remainder: sum of dt^r / r! |A^r phi| beyond the order, |A| <= n |a1| + ... on polynomials of degree n
            L = n * (abs(a1) + abs(a0) + s * s * n / 2 + 0.1)
            rem = 2 * (1 + abs(x) + abs(c['mean'])) ** n * sum((L * dt) ** r / math.factorial(r) for r in range(k + 1, k + 60))
            for f, cc, sc in ((0, 0., 1.), (1, c['mean'], 1.), (2, c['mean'], c['scale'])):
                e = normal_raw(m - cc, Q, n)[0] / sc ** n
                ctx.close(np.asarray(got[f])[i, j], e, f'{FORMS[f]} moment of order {n} of a linear SDE', tol=rem / sc ** n + 1e-11 * (1 + (1 + abs(x) + abs(cc)) ** n / sc ** n))


@PROP.sub('tme_3', case(kind='tme'), quick=60, thorough=1500)
def tme3(c, ctx):
    forms(c, ctx)


@PROP.sub('tme_normal_3', case(kind='tme_normal'), quick=60, thorough=1500)
def tme_normal3(c, ctx):
    forms(c, ctx)


@st.composite
def shape_case(draw):
    c = draw(case())
    c['x'] = (c['x'] * 4)[:4]
    c['mean'] = draw(q(-2, 2, 16))
    return c


@PROP.sub('elementwise', shape_case(), quick=50, thorough=1000, shards=2)
def elementwise(c, ctx):
    """One state and one order at a time give the entries of the joint call; forms are related by the binomial formula."""
    J = lambda v: jnp.asarray(np.asarray(v, dtype=float))
    N = c['N']
    r = runner(c['kind'], c['order'], N)
    a, b, dt = J(c['a']), J(c['b']), J(c['dt'])
    n = np.arange(2 * N)
    e = expected(dict(c, n=n.tolist()))
    full = ctx.call('conditional moments', r, a, b, dt, J(c['x']), jnp.asarray(n), J(c['mean']), J(c['scale']), c['u'])
    raw, cen, sca = (ctx.arr(v, (4, 2 * N), f) for v, f in zip(full[:3], FORMS[:3]))
    ctx.nt(N >= 2 and any(c['a'][1:]))
    ctx.label(c['kind'], f"order={c['order']}", f'N={N}')
    for i in range(4):
        one = ctx.call('conditional moments', r, a, b, dt, J(c['x'][i:i + 1]), jnp.asarray(n[-1:]), J(c['mean']), J(c['scale']), c['u'])
        for f in range(3):
            ctx.close(np.asarray(one[f]), np.asarray(full[f])[i:i + 1, -1:], f'{FORMS[f]}: one at a time', tol=1e-12 * e[FORMS[f]][1][i:i + 1, -1:])
        ctx.close(one[3], np.asarray(full[3])[i:i + 1], 'mean: one at a time', rtol=1e-12, atol=1e-12)
    # central about the mean argument from raw; scaled from central
    M = c['mean']
    for k in n:
        want = sum(math.comb(int(k), int(j)) * (-M) ** int(k - j) * raw[:, j] for j in range(k + 1))
        size = sum(math.comb(int(k), int(j)) * abs(M) ** int(k - j) * (np.abs(raw[:, j]) + e['raw'][1][:, j]) for j in range(k + 1))
        ctx.close(cen[:, k], want, f'central moment {k} from the raw ones', tol=1e-11 * size)
        ctx.close(sca[:, k], cen[:, k] / c['scale'] ** k, f'scaled moment {k} from the central one', tol=1e-11 * e['scaled'][1][:, k])
    ctx.close(raw[:, 0], np.ones(4), 'moment of order zero', tol=1e-13)
    if N >= 2:
        m, v = np.asarray(full[4][0]), np.asarray(full[4][1])
        ctx.close(raw[:, 1], m, 'first moment and mean', tol=1e-11 * (1e-3 + e['mean'][1]))
        if c['kind'] != 'tme':
            ctx.close(raw[:, 2] - raw[:, 1] ** 2, np.broadcast_to(v, (4,)), 'second moment and variance', tol=1e-11 * (e['raw'][1][:, 2] + 1e-3))
