"""Nonlinear models with hand-written Jacobians, and textbook references of the Gaussian filters and smoothers (NumPy only)."""
import math

import numpy as np


class Sys:
    """x' = m(x) + noise Q(x); y = h(x) + noise R(x). `np` may be numpy or jax.numpy. `mild`: bounded derivatives everywhere."""

    def __init__(self, dx, dy, constR=True, linear=False, mild=False):
        self.dx, self.dy, self.constR, self.linear, self.mild = dx, dy, constR, linear, mild
        self.A = np.array([[0.8, -0.5, 0.3], [0.4, 0.9, -0.2], [-0.6, 0.1, 0.7]])[:dx, :dx]
        self.b = np.array([0.3, -0.2, 0.5])[:dx]
        self.H = np.array([[1., -0.4, 0.3], [0.5, 1., -0.2], [-0.3, 0.6, 0.9]])[:dy, :dx]
        self.c = np.array([0.1, -0.3, 0.2])[:dy]
        self.Q0 = np.array([[0.5, 0.1, 0.05], [0.1, 0.4, -0.1], [0.05, -0.1, 0.6]])[:dx, :dx]
        self.R0 = np.array([[0.6, 0.15, -0.1], [0.15, 0.5, 0.1], [-0.1, 0.1, 0.8]])[:dy, :dy]
        self.m0 = np.array([0.5, -0.7, 0.2])[:dx]
        self.v0 = np.array([[0.7, 0.2, -0.1], [0.2, 0.9, 0.1], [-0.1, 0.1, 0.5]])[:dx, :dx]
        self.L = np.array([[0.6, 0.1], [-0.2, 0.5], [0.3, 0.7]])[:dx]

    # discrete
    def m(self, x, dt, np=np):
        if self.linear:
            return x + dt * (self.A @ x + self.b)
        return x + dt * np.sin(self.A @ x) + dt * self.b

    def dm(self, x, dt):
        if self.linear:
            return np.eye(self.dx) + dt * self.A
        return np.eye(self.dx) + dt * np.cos(self.A @ x)[:, None] * self.A

    def Q(self, x, dt, np=np):
        if self.linear:
            return dt * self.Q0
        if self.mild:
            return dt * self.Q0 * (1. + 0.3 * np.sin(x[0]))
        return dt * (self.Q0 + 0.1 * np.outer(x, x))

    def h(self, x, np=np):
        if self.linear:
            return self.H @ x + self.c
        if self.mild:
            return self.H @ x + 0.2 * np.sin(self.H @ x) + self.c
        return self.H @ x + 0.2 * (self.H @ x) ** 2 + self.c

    def dh(self, x):
        if self.linear:
            return self.H
        if self.mild:
            return self.H * (1 + 0.2 * np.cos(self.H @ x))[:, None]
        return self.H * (1 + 0.4 * (self.H @ x))[:, None]

    def R(self, x, np=np):
        if self.constR or self.linear:
            return self.R0 + 0. * x[0]
        if self.mild:
            return self.R0 * (1. + 0.3 * np.sin(x[0]) ** 2)
        return self.R0 * (1. + 0.3 * x[0] ** 2)

    # continuous
    def f(self, x, np=np):
        return self.A @ x + self.b if self.linear else np.sin(self.A @ x) - 0.5 * x + self.b

    def df(self, x):
        return self.A if self.linear else np.cos(self.A @ x)[:, None] * self.A - 0.5 * np.eye(self.dx)

    def D(self, x, np=np):
        return self.L + 0. * x[0] if self.linear else self.L * (1. + 0.2 * np.sin(x[0]))


def sigma_rule(kind, d):
    """Unit points and weights, generated independently."""
    if kind == 'cubature':
        xi = np.concatenate([np.eye(d), -np.eye(d)]) * math.sqrt(d)
        return xi, np.full(2 * d, 0.5 / d)
    x, w = np.polynomial.hermite.hermgauss(int(kind))
    g = np.stack(np.meshgrid(*[x] * d, indexing='ij'), -1).reshape(-1, d) * math.sqrt(2)
    ww = np.stack(np.meshgrid(*[w] * d, indexing='ij'), -1).reshape(-1, d).prod(1) / math.pi ** (d / 2)
    return g, ww


def nll(r, S):
    return 0.5 * (r @ np.linalg.solve(S, r) + np.linalg.slogdet(S)[1] + len(r) * math.log(2 * math.pi))


def moments(rule, m, v, fm, fv):
    """Mean, covariance of z with conditional mean fm(x), covariance fv(x), x ~ N(m, v), and the cross covariance."""
    xi, w = rule
    chi = m + xi @ np.linalg.cholesky(v).T
    ev = np.array([fm(x) for x in chi])
    mu = w @ ev
    S = np.einsum('k,ki,kj->ij', w, ev - mu, ev - mu) + np.einsum('k,kij->ij', w, np.array([fv(x) for x in chi]))
    C = np.einsum('k,ki,kj->ij', w, chi - m, ev - mu)
    return mu, S, C


def rk4(f, y, h):
    k1 = f(y)
    k2 = f([a + h / 2 * b for a, b in zip(y, k1)])
    k3 = f([a + h / 2 * b for a, b in zip(y, k2)])
    k4 = f([a + h * b for a, b in zip(y, k3)])
    return [a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(y, k1, k2, k3, k4)]


class Filter:
    """kind: 'ekf' or a sigma rule; cd: continuous-discrete."""

    def __init__(self, sys, kind, cd, dt):
        self.s, self.kind, self.cd, self.dt = sys, kind, cd, dt
        self.rule = None if kind == 'ekf' else sigma_rule(kind, sys.dx)

    def ode(self, y):
        m, v = y
        s = self.s
        if self.rule is None:
            J, D = s.df(m), s.D(m)
            return s.f(m), J @ v + v @ J.T + D @ D.T
        xi, w = self.rule
        chi = m + xi @ np.linalg.cholesky(v).T
        ev = np.array([s.f(x) for x in chi])
        c = np.einsum('k,ki,kj->ij', w, chi - m, ev)
        return w @ ev, c + c.T + s.L @ s.L.T

    def predict(self, m, v):
        s, dt = self.s, self.dt
        if self.cd:
            mp, vp = rk4(self.ode, [m, v], dt)
            return mp, vp, None
        if self.rule is None:
            J = s.dm(m, dt)
            return s.m(m, dt), J @ v @ J.T + s.Q(m, dt), v @ J.T
        return moments(self.rule, m, v, lambda x: s.m(x, dt), lambda x: s.Q(x, dt))

    def update(self, m, v, y):
        s = self.s
        if self.rule is None:
            J = s.dh(m)
            mu, S, C = s.h(m), J @ v @ J.T + s.R(m), v @ J.T
        else:
            mu, S, C = moments(self.rule, m, v, s.h, s.R)
        K = np.linalg.solve(S, C.T).T
        v = v - K @ S @ K.T
        return m + K @ (y - mu), (v + v.T) / 2, nll(y - mu, S)  # otherwise rounding errors grow when the transition is not stable

    def step(self, m, v, n, y):
        mp, vp, _ = self.predict(m, v)
        m, v, q = self.update(mp, vp, y)
        return m, v, n + q

    def smooth(self, ms, vs):
        """Backward recursion from filtering results."""
        s, dt = self.s, self.dt
        om, ov = [ms[-1]], [vs[-1]]
        for m, v in zip(ms[-2::-1], vs[-2::-1]):
            if self.cd:
                iv = np.linalg.inv(v)
                if self.rule is None:
                    def ode(y):
                        a, b = y
                        G = s.D(a) @ s.D(a).T
                        J = s.df(a) + G @ iv
                        return s.f(a) + G @ iv @ (a - m), J @ b + b @ J.T - G
                else:
                    G = s.L @ s.L.T

                    def ode(y):
                        a, b = y
                        e, c = self.ode(y)
                        return e + G @ iv @ (a - m), c + G @ iv @ b + b @ iv @ G - 2 * G
                a, b = rk4(ode, [om[0], ov[0]], -dt)
            else:
                mp, vp, C = self.predict(m, v)
                G = np.linalg.solve(vp, C.T).T
                a, b = m + G @ (om[0] - mp), v + G @ (ov[0] - vp) @ G.T
            om.insert(0, a), ov.insert(0, (b + b.T) / 2)
        return np.array(om), np.array(ov)
