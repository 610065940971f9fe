"""Shared generators of distributions (returned as JSON-able dicts) and their exact moments."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from .core import q, qpos, vec, mat, tril, simplex, separated
from . import oracles as o


@st.composite
def dist1d(draw, n, kinds=('atoms', 'atoms_exact', 'mix', 'normal', 'uniform', 'expo')):
    """A 1D distribution with at least n points of support."""
    kind = draw(st.sampled_from(kinds))
    if kind == 'atoms_exact':
        return dict(kind='atoms', x=draw(separated(n, 0.25)), w=draw(simplex(n)))
    if kind == 'atoms':
        m = n + draw(st.integers(1, 4))
        return dict(kind='atoms', x=draw(separated(m, 0.25, 1.)), w=draw(simplex(m)))
    if kind == 'mix':
        m = draw(st.integers(2, 3))
        return dict(kind='mix', m=draw(vec(q(-3, 3, 32), m)), v=draw(vec(qpos(0.25, 2.5, 32), m)), w=draw(simplex(m)))
    if kind == 'normal':
        return dict(kind='mix', m=[draw(q(-3, 3, 32))], v=[draw(qpos(0.1, 3, 32))], w=[1.])
    if kind == 'uniform':
        a = draw(q(-3, 3, 32))
        return dict(kind='uniform', a=a, b=a + draw(qpos(0.5, 4, 32)))
    a = draw(q(-2, 2, 32))
    return dict(kind='expo', a=a, s=draw(qpos(0.25, 2, 32)))


def moments1d(d, num):
    """Exact raw moments (50 digits)."""
    k = d['kind']
    if k == 'atoms':
        return o.atom_moments_mp(d['w'], d['x'], num)
    if k == 'mix':
        per = [o.normal_raw_mp(m, v, num) for m, v in zip(d['m'], d['v'])]
        return [mp.fsum([mp.mpf(w) * p[i] for w, p in zip(d['w'], per)]) for i in range(num)]
    if k == 'uniform':
        a, b = mp.mpf(d['a']), mp.mpf(d['b'])
        return [(b ** (i + 1) - a ** (i + 1)) / ((i + 1) * (b - a)) for i in range(num)]
    a, s = mp.mpf(d['a']), mp.mpf(d['s'])
    return [mp.fsum([mp.binomial(i, j) * a ** (i - j) * s ** j * mp.factorial(j) for j in range(i + 1)])
            for i in range(num)]


def hull(d):
    """Convex hull of the support (None = unbounded)."""
    k = d['kind']
    if k == 'atoms':
        return min(d['x']), max(d['x'])
    if k == 'uniform':
        return d['a'], d['b']
    if k == 'expo':
        return d['a'], None
    return None, None


def normalise(ms):
    """Divide by the zeroth moment (simplex weights are floats and sum to one only up to rounding)."""
    return [m / ms[0] for m in ms]
