"""SDEs with coefficients in the ring R[x_1..x_d, sin x_1.., cos x_1..], and the Taylor moment expansion computed in that ring
(independently of the tme package): E[phi(X_dt) | x] ~ sum_r dt^r / r! A^r phi(x)."""
import math
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from .core import q, qpos, vec, mat


class Ring:
    def __init__(self, d):
        self.d = d

    def const(self, v):
        return {(0,) * (3 * self.d): float(v)} if v else {}

    def x(self, i):
        e = [0] * (3 * self.d)
        e[i] = 1
        return {tuple(e): 1.}

    def sin(self, i):
        e = [0] * (3 * self.d)
        e[self.d + i] = 1
        return {tuple(e): 1.}

    @staticmethod
    def add(*ps):
        out = {}
        for p in ps:
            for k, v in p.items():
                out[k] = out.get(k, 0.) + v
        return {k: v for k, v in out.items() if v != 0.}

    @staticmethod
    def scale(a, p):
        return {k: a * v for k, v in p.items()} if a else {}

    @staticmethod
    def mul(p, r):
        out = {}
        for a, u in p.items():
            for b, v in r.items():
                k = tuple(i + j for i, j in zip(a, b))
                out[k] = out.get(k, 0.) + u * v
        return out

    def power(self, p, n):
        out = self.const(1.)
        for _ in range(n):
            out = self.mul(out, p)
        return out

    def diff(self, p, i):
        d, out = self.d, {}
        for k, v in p.items():
            for j, dj, sg in ((i, None, 1.), (d + i, 2 * d + i, 1.), (2 * d + i, d + i, -1.)):
                if k[j]:
                    e = list(k)
                    e[j] -= 1
                    if dj is not None:
                        e[dj] += 1
                    e = tuple(e)
                    out[e] = out.get(e, 0.) + sg * v * k[j]
        return out

    def eval(self, p, x):
        """Value and sum of absolute terms."""
        z = np.concatenate([x, np.sin(x), np.cos(x)])
        v = a = 0.
        for k, c in p.items():
            t = c
            for j, e in enumerate(k):
                if e:
                    t *= z[j] ** e
            v += t
            a += abs(t)
        return v, a


class TME:
    """Expansion for drift polynomials f (list) and diffusion Gamma (list of lists)."""

    def __init__(self, ring, f, L):
        self.R, self.f = ring, f
        d, w = ring.d, len(L[0])
        self.G = [[ring.add(*[ring.mul(L[i][k], L[j][k]) for k in range(w)]) for j in range(d)] for i in range(d)]

    def gen(self, p):
        R, d = self.R, self.R.d
        D = [R.diff(p, i) for i in range(d)]
        out = [R.mul(self.f[i], D[i]) for i in range(d) if self.f[i] and D[i]]
        for i in range(d):
            for j in range(d):
                if self.G[i][j] and D[i]:
                    H = R.diff(D[i], j)
                    if H:
                        out.append(R.scale(0.5, R.mul(self.G[i][j], H)))
        return R.add(*out) if out else {}

    def powers(self, p, order):
        out = [p]
        for _ in range(order):
            out.append(self.gen(out[-1]))
        return out

    def expect(self, p, order, dt, x):
        """Value and size of the truncated expansion."""
        v = a = 0.
        for r, g in enumerate(self.powers(p, order)):
            e, s = self.R.eval(g, x)
            v += dt ** r / math.factorial(r) * e
            a += dt ** r / math.factorial(r) * s
        return v, a

    def mean_cov(self, order, dt, x):
        """TME mean and covariance (the covariance is truncated at dt^order)."""
        R, d = self.R, self.R.d
        P1 = [[R.eval(g, x) for g in self.powers(R.x(i), order)] for i in range(d)]
        m = np.array([sum(dt ** r / math.factorial(r) * P1[i][r][0] for r in range(order + 1)) for i in range(d)])
        C, S = np.zeros((d, d)), np.zeros((d, d))
        for i in range(d):
            for j in range(d):
                pw = [R.eval(g, x) for g in self.powers(R.mul(R.x(i), R.x(j)), order)]
                for r in range(1, order + 1):
                    t = pw[r][0] - sum(math.comb(r, s) * P1[i][s][0] * P1[j][r - s][0] for s in range(r + 1))
                    u = pw[r][1] + sum(math.comb(r, s) * P1[i][s][1] * P1[j][r - s][1] for s in range(r + 1))
                    C[i, j] += dt ** r / math.factorial(r) * t
                    S[i, j] += dt ** r / math.factorial(r) * u
        return m, C, np.max(S)


# ------------------------------------------------------------------------------------------------ 1D family (element-wise functions)
@st.composite
def sde1(draw, linear=None, positive=False):
    lin = draw(st.integers(0, 3)) == 0 if linear is None else linear
    z = st.just(0.)
    return dict(a=[draw(q(-1, 1, 16)), draw(q(-1.5, 1.5, 16)), draw(z if lin else q(-0.5, 0.25, 16)), draw(z if lin else q(-1, 1, 16))],
                b=[draw(qpos(0.25, 1.25, 16)), draw(z if lin or positive else q(-0.5, 0.5, 16)), draw(z if lin else q(-0.2, 0.2, 16))])


def f1(a, x, xp=jnp):
    return a[0] + a[1] * x + a[2] * x ** 3 + a[3] * xp.sin(x)


def g1(b, x, xp=jnp):
    return b[0] + b[1] * x + b[2] * xp.sin(x)


def tme1(m):
    R = Ring(1)
    x, s = R.x(0), R.sin(0)
    f = R.add(R.const(m['a'][0]), R.scale(m['a'][1], x), R.scale(m['a'][2], R.power(x, 3)), R.scale(m['a'][3], s))
    g = R.add(R.const(m['b'][0]), R.scale(m['b'][1], x), R.scale(m['b'][2], s))
    return TME(R, [f], [[g]])


# ------------------------------------------------------------------------------------------------ ND family
@st.composite
def sden(draw, d, w, linear=None):
    lin = draw(st.integers(0, 3)) == 0 if linear is None else linear
    Z = lambda n, m: [[0.] * m for _ in range(n)]
    return dict(d=d, w=w, b=draw(vec(q(-1, 1, 8), d)), A=draw(mat(q(-1, 1, 8), d, d)), C=Z(d, d) if lin else draw(mat(q(-1, 1, 8), d, d)),
                Q=[0.] * d if lin else draw(vec(q(-0.5, 0.5, 8), d)), L=draw(mat(q(-1, 1, 8), d, w)), M=Z(d, w) if lin else draw(mat(q(-0.5, 0.5, 8), d, w)))


def fn(P, x):
    """drift (d, ) -> (d, ): b + A x + C sin x + Q x_i x_{i+1}."""
    return P['b'] + P['A'] @ x + P['C'] @ jnp.sin(x) + P['Q'] * x * jnp.roll(x, -1)


def gn(P, x):
    """dispersion (d, ) -> (d, w): L + M * x_i."""
    return P['L'] + P['M'] * x[:, None]


def fn_np(P, x):
    return P['b'] + P['A'] @ x + P['C'] @ np.sin(x) + P['Q'] * x * np.roll(x, -1)


def gn_np(P, x):
    return P['L'] + P['M'] * x[:, None]


def paramsn(m):
    return {k: np.array(m[k], dtype=float) for k in ('b', 'A', 'C', 'Q', 'L', 'M')}


def tmen(m):
    d, w = m['d'], m['w']
    R = Ring(d)
    f, L = [], []
    for i in range(d):
        f.append(R.add(R.const(m['b'][i]), *[R.scale(m['A'][i][j], R.x(j)) for j in range(d)], *[R.scale(m['C'][i][j], R.sin(j)) for j in range(d)],
                       R.scale(m['Q'][i], R.mul(R.x(i), R.x((i + 1) % d)))))
        L.append([R.add(R.const(m['L'][i][k]), R.scale(m['M'][i][k], R.x(i))) for k in range(w)])
    return TME(R, f, L)
