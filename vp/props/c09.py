from ..core import *
from .. import oracles as o
import jax
import jax.numpy as jnp
import mpmath as mp
import itertools
from fractions import Fraction
from mfs.one_dim.moments import central_moment_of_normal, raw_moment_of_standard_normal, raw_moment_of_normal
from mfs.multi_dims.moments import raw_moments_mvn_mgf, central_moments_mvn_kan, raw_moments_mvn_kan, moments_nd_uniform

PROP = Prop('C09', rule='total order >= 2; in several dimensions at least two coordinates involved',
            assumptions=['double precision (jax x64) is enabled'])


@PROP.sub('scalar_normal', st.fixed_dictionaries(dict(p=st.integers(0, 24), m=q(-3, 3, 16), v=qpos(0.05, 4, 32), jx=st.booleans(), unit=st.one_of(st.just(1.), st.just(1.), st.sampled_from([1e-5, 1e-9, 1e4])), munit=st.sampled_from([1., 1., 1e-6, 1e3]))), quick=500, shards=2)
def scalar(c, ctx):
    un = c.get('unit', 1.)
    p, m, v = c['p'], c['m'] * un * c.get('munit', 1.), c['v'] * un ** 2
    ctx.nt(p >= 2 and m != 0)
    ctx.label(f'p={p}', 'jax' if c['jx'] else 'float')
    mm, vv = (jnp.float64(m), jnp.float64(v)) if c['jx'] else (m, v)
    ex = o.normal_raw_mp(m, v, max(p + 1, 2))[p]
    size = o.normal_raw_mp(abs(m), v, max(p + 1, 2))[p]
    got = ctx.scalar(ctx.call('raw_moment_of_normal', raw_moment_of_normal, mm, vv, p), 'raw moment')
    ctx.close(got, float(ex), 'raw moment of a Normal', tol=1e-13 * (p + 3) * float(size))
    std = float(mp.fac2(p - 1)) if p % 2 == 0 else 0.
    ctx.close(ctx.scalar(ctx.call('standard normal', raw_moment_of_standard_normal, p)), std, 'standard Normal moment', rtol=1e-13)
    cen = std * v ** (p / 2)
    ctx.close(ctx.scalar(ctx.call('central moment', central_moment_of_normal, vv, p)), cen, 'central moment', rtol=1e-12)
    ctx.close(ctx.scalar(ctx.call('raw_moment_of_normal', raw_moment_of_normal, 0. * mm, vv, p)), cen, 'raw moment about zero mean', rtol=1e-12)


UNIT = st.one_of(st.just(1.), st.just(1.), st.sampled_from([1e-5, 1e-9, 1e4]))  # units of the state


@st.composite
def mvn(draw):
    d = draw(st.integers(1, 4))
    cap = {1: 12, 2: 10, 3: 8, 4: 6}[d]
    tot = draw(st.integers(0, cap))
    n = [0] * d
    for _ in range(tot):
        n[draw(st.integers(0, d - 1))] += 1
    return dict(d=d, n=n, m=draw(vec(q(-2, 2, 16), d)), L=draw(tril(d)), ty=draw(st.sampled_from(['numpy', 'jax'])), seq=draw(st.sampled_from(['tuple', 'list', 'array'])),
                perm=draw(st.permutations(list(range(d)))), zero=draw(st.integers(0, 4)) == 0, degenerate=draw(st.integers(0, 5)) == 0,
                unit=draw(UNIT), munit=draw(st.sampled_from([1., 1., 1., 1e-6, 1e3])))


def kan_size(mean, cov, n, central):
    """Size of the terms in Kan's formula (they cancel)."""
    s, n = sum(n), np.array(n)
    vs = np.array(list(itertools.product(*[range(k + 1) for k in n])))
    h = n / 2 - vs
    co = np.array([math.prod(math.comb(int(a), int(b)) for a, b in zip(n, v)) for v in vs], dtype=float)
    qf = np.einsum('ij,jk,ik->i', np.abs(h), np.abs(cov), np.abs(h)) / 2
    if central:
        return float(np.sum(co * qf ** (s / 2))) / math.factorial(s // 2)
    hm = np.abs(h) @ np.abs(mean)
    return float(sum(np.sum(co * qf ** r * hm ** (s - 2 * r)) / math.factorial(r) / math.factorial(s - 2 * r) for r in range(s // 2 + 1)))


def as_seq(n, how):
    return {'tuple': tuple(n), 'list': list(n), 'array': np.array(n)}[how]


@PROP.sub('mvn', mvn(), quick=500, shards=4, pinned=[
    dict(d=2, n=[11, 10], m=[0.5, -0.25], L=[[1., 0.], [0.25, 0.5]], ty='jax', seq='tuple', perm=[1, 0], zero=False, degenerate=False)])
def mvn_check(c, ctx):
    d, n = c['d'], c['n']
    un = c.get('unit', 1.)
    mean, cov = np.array(c['m']) * (0. if c['zero'] else un * c.get('munit', 1.)), spd(c['L']) * un ** 2
    if c['degenerate'] and d > 1:
        cov[-1, :] = 0.
        cov[:, -1] = 0.
    s = sum(n)
    ctx.label(f'd={d}', f'|n|={s}', c['ty'], c['seq'], f'unit {un:g}')
    ctx.nt(s >= 2 and (d == 1 or sum(1 for k in n if k) >= 2))
    ex = float(o.gauss_moments_exact(mean.tolist(), cov)(n))
    cex = float(o.gauss_moments_exact([0.] * d, cov)(n))
    conv = (lambda a: jnp.asarray(a)) if c['ty'] == 'jax' else (lambda a: np.asarray(a))
    seq = as_seq(n, c['seq'])
    tol = 1e-14 * (10 + s) * (kan_size(mean, cov, n, False) + float(o.gauss_abs_moments(mean, cov)(n))) + 1e-14 * un ** s
    got = ctx.scalar(ctx.call('raw Kan', raw_moments_mvn_kan, conv(mean), conv(cov), seq), 'raw moment')
    ctx.close(got, ex, 'raw moment (Kan)', tol=tol)
    ctol = 1e-14 * (10 + s) * (kan_size(mean, cov, n, True) if s % 2 == 0 else 0.) + 1e-14 * un ** s
    if s % 2 == 0:
        got = ctx.scalar(ctx.call('central Kan', central_moments_mvn_kan, conv(cov), seq), 'central moment')
        ctx.close(got, cex, 'central moment (Kan)', tol=ctol)
    else:
        ctx.true(ctx.scalar(ctx.call('central Kan', central_moments_mvn_kan, conv(cov), seq), 'central moment') == 0., 'odd central moments vanish')
    got0 = ctx.scalar(ctx.call('raw Kan', raw_moments_mvn_kan, conv(0. * mean), conv(cov), seq), 'raw moment')
    ctx.close(got0, cex, 'raw moment with zero mean', tol=1e-14 * (10 + s) * kan_size(0 * mean, cov, n, False) + ctol)
    p = c['perm']
    gp = ctx.scalar(ctx.call('raw Kan', raw_moments_mvn_kan, conv(mean[p]), conv(cov[np.ix_(p, p)]), as_seq([n[i] for i in p], c['seq'])), 'raw moment')
    ctx.close(gp, ex, 'order of the coordinates', tol=tol)
    if d == 1:
        g1 = float(ctx.call('raw_moment_of_normal', raw_moment_of_normal, float(mean[0]), float(cov[0, 0]), n[0]))
        ctx.close(g1, ex, 'scalar routine', tol=tol)


@st.composite
def mgf(draw):
    d = draw(st.integers(1, 3))
    tot = draw(st.integers(0, 4))
    n = [0] * d
    for _ in range(tot):
        n[draw(st.integers(0, d - 1))] += 1
    return dict(d=d, n=n, m=draw(vec(q(-2, 2, 16), d)), L=draw(tril(d)), seq=draw(st.sampled_from(['tuple', 'list', 'array'])), ty=draw(st.sampled_from(['numpy', 'jax'])), unit=draw(UNIT))


@PROP.sub('mgf', mgf(), quick=60, shards=4)
def mgf_check(c, ctx):
    un = c.get('unit', 1.)
    mean, cov = np.array(c['m']) * un, spd(c['L']) * un ** 2
    ctx.nt(sum(c['n']) >= 2)
    ctx.label(f'd={c["d"]}', f'|n|={sum(c["n"])}')
    ex = float(o.gauss_moments_exact(mean.tolist(), cov)(c['n']))
    conv = (lambda a: jnp.asarray(a)) if c['ty'] == 'jax' else (lambda a: np.asarray(a))
    got = ctx.scalar(ctx.call('mgf moment', raw_moments_mvn_mgf, conv(mean), conv(cov), as_seq(c['n'], c['seq'])), 'moment')
    ctx.close(got, ex, 'moment by the generating function', tol=1e-12 * (un ** sum(c['n']) + float(o.gauss_abs_moments(mean, cov)(c['n']))))


@st.composite
def uni(draw):
    d = draw(st.integers(1, 5))
    lo = draw(vec(q(-3, 3, 16), d))
    return dict(d=d, lo=lo, hi=[a + draw(qpos(0.25, 4, 16)) for a in lo], n=draw(vec(st.one_of(st.integers(0, 7), st.integers(0, 18)), d)), c=draw(st.one_of(st.none(), vec(q(-3, 3, 16), d))),
                seq=draw(st.sampled_from(['tuple', 'list', 'array'])), perm=draw(st.permutations(list(range(d)))))


@PROP.sub('uniform', uni(), quick=600, shards=1)
def uniform(c, ctx):
    d = c['d']
    ctx.nt(sum(c['n']) >= 2 and (d == 1 or sum(1 for k in c['n'] if k) >= 2))
    ctx.label(f'd={d}', 'centred' if c['c'] else 'raw')
    ce = c['c'] or [0.] * d
    ex, size = Fraction(1), 1.
    for a, b, m, p in zip(c['lo'], c['hi'], ce, c['n']):
        A, B = Fraction(a) - Fraction(m), Fraction(b) - Fraction(m)
        ex *= sum(A ** i * B ** (p - i) for i in range(p + 1)) / (p + 1)
        size *= (abs(float(A)) ** (p + 1) + abs(float(B)) ** (p + 1)) / (p + 1) / (b - a)

    def call(perm):
        b = [(c['lo'][i], c['hi'][i]) for i in perm]
        kw = {} if c['c'] is None else dict(means=as_seq([ce[i] for i in perm], c['seq']))
        if c['seq'] == 'array':
            b = np.array(b)
        return ctx.scalar(ctx.call('uniform', moments_nd_uniform, b, as_seq([c['n'][i] for i in perm], c['seq']), **kw), 'uniform moment')

    ctx.close(call(range(d)), float(ex), 'uniform moment', tol=1e-13 * d * size)
    ctx.close(call(c['perm']), float(ex), 'uniform moment, coordinates relabelled', tol=1e-13 * d * size)
