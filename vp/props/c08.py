from ..core import *
from .. import oracles as o, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from mfs.one_dim.moments import raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central, sms_to_cumulants

PROP = Prop('C08', rule='at least four moments and a non-zero mean (conversions); order >= 3 (cumulants)',
            assumptions=['double precision (jax x64) is enabled'])


J = {f.__name__: jax.jit(f) for f in (raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central)}


def binom_sum(ms, c):
    """sum_k C(n,k) ms_k c^(n-k) exactly, and the sum of absolute values."""
    ms, c = [mp.mpf(float(v)) for v in ms], mp.mpf(c)
    ex = [mp.fsum([math.comb(n, k) * ms[k] * c ** (n - k) for k in range(n + 1)]) for n in range(len(ms))]
    ab = [mp.fsum([abs(math.comb(n, k) * ms[k] * c ** (n - k)) for k in range(n + 1)]) for n in range(len(ms))]
    return o.tofloat(ex), o.tofloat(ab)


@st.composite
def conv(draw):
    num = draw(st.one_of(st.integers(2, 16), st.integers(2, 16), st.integers(17, 40)))
    return dict(num=num, kind=draw(st.sampled_from(['dist', 'free'])), dist=draw(gen.dist1d(3)), free=draw(vec(q(-3, 3, 16), num)),
                mean=draw(q(-4, 4, 16)), scale=draw(st.one_of(st.none(), qpos(0.1, 5, 32))), shift=draw(q(-5, 5, 8)),
                jit=draw(st.integers(0, 3)) > 0, u=draw(st.sampled_from([1., 1., 2. ** -20, 2. ** -7, 2. ** 15])), zero=draw(st.integers(0, 4)) == 0)


@PROP.sub('conversions', conv(), quick=600, shards=4)
def conversions(c, ctx):
    num = c['num']
    if c['kind'] == 'dist':
        ms = gen.normalise(gen.moments1d(c['dist'], max(num, 3)))
        ms = o.shift_scale_mp(ms, ms[1] if c['zero'] else -mp.mpf(c['shift']), 1)
        var = float(ms[2] - ms[1] ** 2)
        ms = ms[:num]
        rms, mean = o.tofloat(ms), float(ms[1])
    else:  # the identities are linear: any numbers will do
        rms, mean = np.array([1.] + c['free'][1:]), c['free'][1]
        var = rms[2] - rms[1] ** 2 if num > 2 else 1.
    # other units: X -> u X
    u = c['u']
    un = u ** np.arange(num)
    rms, mean, var = rms * un, mean * u, var * u ** 2
    scale = c['scale'] if c['scale'] is None else c['scale'] * u
    ctx.label(f'num={num}', c['kind'], f'unit {u:.2g}')
    ctx.nt(num >= 4 and mean != 0)
    fn = J if c['jit'] else {k: globals()[k] for k in J}
    cms, size = binom_sum(rms, -rms[1])
    E = 1e-13 * num
    got = ctx.arr(ctx.call('raw_to_central', fn['raw_to_central'], jnp.asarray(rms)), (num,), 'central moments')
    ctx.close(got, cms, 'raw_to_central', tol=E * size)
    back, bsize = binom_sum(cms, mean)
    got = ctx.call('central_to_raw', fn['central_to_raw'], jnp.asarray(cms), mean)
    ctx.close(got, back, 'central_to_raw', tol=E * bsize)
    # any sequence about any mean, not only with vanishing first moment
    free = np.array([1.] + c['free'][1:])
    fr, fsize = binom_sum(free * un, c['mean'] * u)
    ctx.close(ctx.call('central_to_raw', fn['central_to_raw'], jnp.asarray(free * un), c['mean'] * u), fr, 'central_to_raw of any sequence', tol=E * fsize)
    # scaled
    if scale is not None or (num > 2 and var > 1e-3 * u ** 2):
        s = scale if scale is not None else math.sqrt(var)
        pw = s ** np.arange(num)
        args = (jnp.asarray(rms),) if scale is None else (jnp.asarray(rms), s)
        ctx.label('default scale' if scale is None else 'given scale')
        # the default scale is a difference of rounded numbers: relative error of the variance
        rel = 0. if scale is not None else 1e-15 * (abs(rms[2]) + rms[1] ** 2) / var * num
        got = ctx.call('raw_to_scaled', fn['raw_to_scaled'], *args)
        ctx.close(got, cms / pw, 'raw_to_scaled', tol=(E + rel) * size / pw)
        got2 = ctx.call('scaled_to_central', fn['scaled_to_central'], jnp.asarray(free), s)
        ctx.close(got2, free * pw, 'scaled_to_central', rtol=1e-12, atol=1e-300)
        ctx.close(ctx.call('scaled_to_central', fn['scaled_to_central'], got, s), cms, 'scaled_to_central inverts raw_to_scaled', tol=(2 * E + 2 * rel) * size)
    # round trip through the code only
    rt = ctx.call('round trip', lambda: fn['central_to_raw'](fn['raw_to_central'](jnp.asarray(rms)), rms[1]))
    tot, _ = binom_sum(np.abs(size), abs(rms[1]))
    ctx.close(rt, rms, 'raw -> central -> raw', tol=4 * E * tot)


@st.composite
def cum(draw):
    num = draw(st.integers(2, 10))
    return dict(num=num, kind=draw(st.sampled_from(['dist', 'dist', 'free'])), dist=draw(gen.dist1d(3)), other=draw(gen.dist1d(3)),
                s=draw(st.one_of(st.none(), qpos(0.1, 4, 32))), shift=draw(q(-5, 5, 8)), free=draw(vec(q(-2, 2, 16), num)),
                asraw=draw(st.booleans()), u=draw(st.sampled_from([1., 1., 2. ** -20, 2. ** 10])), zero=draw(st.integers(0, 4)) == 0)


def call_cum(ctx, sms, mean, scale, u=1.):
    """Asked in units u, returned in units 1 (u is a power of two)."""
    return ctx.arr(ctx.call('sms_to_cumulants', sms_to_cumulants, jnp.asarray(sms), mean * u, scale * u), (len(sms) - 1,), 'cumulants') / u ** np.arange(1, len(sms))


@PROP.sub('cumulants', cum(), quick=240, shards=4)
def cumulants(c, ctx):
    num = c['num']
    ctx.nt(num >= 4)
    if c['kind'] == 'free':  # any standardised sequence 1, 0, s2, s3, ... : formal identity
        sms = np.array(([1., 0.] + c['free'])[:num])
        scale, mean = c['s'] or 1., c['shift']
        cms = [mp.mpf(float(v)) * mp.mpf(scale) ** i for i, v in enumerate(sms)]
        k = o.cumulants_exact(cms)
        k[0] = k[0] + mp.mpf(mean)
        size = o.cumulants_exact([-abs(v) for v in cms])  # same-sign expansion bounds the terms
    else:
        ms = gen.normalise(gen.moments1d(c['dist'], max(num, 3)))
        ms = o.shift_scale_mp(ms, ms[1] if c['zero'] else -mp.mpf(c['shift']), 1)
        mean = float(ms[1])
        sd = math.sqrt(float(ms[2] - ms[1] ** 2))
        if c['asraw']:  # documented special case: raw moments are "scaled moments" with mean 0 and scale 1
            mean_, scale, rep = 0., 1., o.tofloat(ms)
        else:
            mean_, scale = mean, (sd if c['s'] is None else c['s'])
            rep = o.tofloat(o.shift_scale_mp(ms, mean, scale))
        sms = rep[:num]
        cms = [mp.mpf(float(v)) * mp.mpf(scale) ** i for i, v in enumerate(sms)]
        k = o.cumulants_exact(cms)
        size = o.cumulants_exact([-abs(v) for v in cms])
        k[0] = mp.mpf(mean)
        mean = mean_
    ctx.label(f'num={num}', c['kind'])
    tol = 1e-12 * np.array([abs(float(v)) for v in size]) + 1e-12 * (1 + abs(float(k[0])))
    tol = np.maximum(tol, 1e-12 * np.abs(o.tofloat(k)))
    u = 1. if c['asraw'] and c['kind'] != 'free' else c['u']
    ctx.label(f'unit {u:.2g}')
    got = call_cum(ctx, sms, mean, scale, u)
    ctx.close(got, o.tofloat(k), 'cumulants', tol=tol)
    if c['kind'] == 'free' or c['asraw']:
        return
    # translation changes only the first cumulant
    got2 = call_cum(ctx, sms, mean + 2.5, scale, u)
    ctx.close(got2[1:], got[1:], 'cumulants above the first under translation', tol=tol[1:] * 2 + 1e-300)
    ctx.close(got2[0], got[0] + 2.5, 'first cumulant under translation', tol=1e-12 * (5 + abs(mean)))
    # additivity over independent sums
    ot = gen.normalise(gen.moments1d(c['other'], max(num, 3)))
    tot = [mp.fsum([math.comb(n, j) * ms[j] * ot[n - j] for j in range(n + 1)]) for n in range(max(num, 3))]
    ks = []
    for mm in (ot, tot):
        me, sd_ = float(mm[1]), math.sqrt(float(mm[2] - mm[1] ** 2))
        ks.append(call_cum(ctx, o.tofloat(o.shift_scale_mp(mm, me, sd_))[:num], me, sd_, u))
    cs = [o.shift_scale_mp(mm, mm[1], 1) for mm in (ms, ot, tot)]
    sz = sum(np.array([abs(float(v)) for v in o.cumulants_exact([-abs(x) for x in m][:num])]) for m in cs)
    ctx.close(got + ks[0], ks[1], 'additivity of cumulants', tol=1e-11 * sz + 1e-11 * (1 + abs(mean) + abs(float(tot[1]))))


@PROP.sub('normal_cumulants', st.fixed_dictionaries(dict(m=q(-5, 5, 16), s=qpos(0.1, 4, 16), num=st.integers(3, 10), u=st.sampled_from([1., 2. ** -20, 2. ** 10]))), quick=40)
def normal_cumulants(c, ctx):
    sms = np.array([0. if k % 2 else float(mp.fac2(k - 1)) for k in range(c['num'])])
    ctx.nt()
    got = call_cum(ctx, sms, c['m'], c['s'], c['u'])
    ex = np.zeros(c['num'] - 1)
    ex[0], ex[1] = c['m'], c['s'] ** 2
    size = o.cumulants_exact([-abs(float(v)) * c['s'] ** i for i, v in enumerate(sms)])
    ctx.close(got, ex, 'Normal cumulants', tol=1e-12 * np.abs(np.array(size, dtype=float)) + 1e-12 * (1 + abs(c['m'])))
