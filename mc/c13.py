"""C13: continuous-discrete filters and smoothers against reference Runge-Kutta integration of the moment ODEs, for every history."""
import numpy as np

from mc import c12
from mc.common import FLOAT_TRUST, words
from mc.nonlin import Filter, Sys, rk4

RULE = ('A state is the Gaussian approximation (mean, covariance, log-likelihood) after one measurement history; a transition integrates the '
        'mean/covariance ODE over one sampling interval with classical RK4 and conditions on one measurement. All histories over the alphabet up '
        'to the horizon are explored for every shape, rule, noise type and flag, filters and smoothers are compared at every step; the linear '
        'units additionally compare with the exact transition density, whose distance must shrink with order dt^5 per step.')
ASSUMPTIONS = c12.ASSUMPTIONS
KINDS = c12.KINDS


def cfg(tier):
    return c12.cfg(tier)


def bounds(tier):
    return c12.bounds(tier)


def units(tier):
    us = []
    for dx in (1, 2, 3):
        for dy in (1, 2, 3):
            for k in KINDS:
                if k == '5' and dx == 3 and tier == 'quick':
                    continue
                if tier == 'quick' and dy == 2 and dx != 2:
                    continue
                for c in (True, False):
                    us.append((f'{k} dx={dx} dy={dy} constant noise={c}', ['nonlinear', k, dx, dy, c], 5 + dx * dy))
            for k in KINDS[:4]:
                us.append((f'{k} units of measurement dx={dx} dy={dy}', ['units', k, dx, dy, (dx + dy) % 2 == 1], 6 + dx * dy))
                us.append((f'{k} outliers dx={dx} dy={dy}', ['outliers', k, dx, dy, (dx + dy) % 2 == 0], 5 + dx * dy))
        for k in KINDS[:4]:
            us.append((f'{k} linear dx={dx}', ['linear', k, dx, 2, True], 4 + dx))
        us.append((f'rk4 dx={dx}', ['rk4', 'ekf', dx, 1, True], 2))
    return us


def run_unit(ctx, tier, kind, rule, dx, dy, const):
    {'linear': linear, 'nonlinear': nonlinear, 'rk4': runge, 'outliers': outliers, 'units': in_units}[kind](ctx, tier, rule, dx, dy, const)


def forms_of(s, kind, const, D=None, E=None, c=0., e=0.):
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import gfs
    D, E = np.ones(s.dx) if D is None else D, np.ones(s.dy) if E is None else E
    drift = lambda x: s.f((x - c) / D, jnp) * D
    disp = lambda x: s.D((x - c) / D, jnp) * D[:, None]
    meas = lambda x: (s.h((x - c) / D, jnp) * E + e, s.R((x - c) / D, jnp) * (E[:, None] * E))
    L = jnp.asarray(s.L) * D[:, None]
    if kind == 'ekf':
        return [('default', lambda m, v, dt, ys: gfs.cd_ekf(drift, disp, meas, m, v, dt, ys), lambda a, b, dt: gfs.cd_eks(drift, disp, a, b, dt)),
                ('fwd_jacobian', lambda m, v, dt, ys: gfs.cd_ekf(drift, disp, meas, m, v, dt, ys, fwd_jacobian=True), None)]
    sg = c12.rule_of(kind, s.dx)
    out = [('default', lambda m, v, dt, ys: gfs.cd_sgp_filter(drift, L, meas, sg, m, v, dt, ys), lambda a, b, dt: gfs.cd_sgp_smoother(drift, L, sg, a, b, dt))]
    if const:
        out.append(('const_measurement_cov', lambda m, v, dt, ys: gfs.cd_sgp_filter(drift, L, meas, sg, m, v, dt, ys, const_measurement_cov=True), None))
    return out


def nonlinear(ctx, tier, kind, dx, dy, const):
    s = Sys(dx, dy, constR=const)
    c12.explore(ctx, tier, s, kind, True, forms_of(s, kind, const), dict(rule=kind, dx=dx, dy=dy, constant_noise=const))


def outliers(ctx, tier, kind, dx, dy, const):
    s = Sys(dx, dy, constR=const, mild=True)
    c12.outliers(ctx, s, kind, True, forms_of(s, kind, const), dict(rule=kind, dx=dx, dy=dy, constant_noise=const))


def in_units(ctx, tier, kind, dx, dy, const):
    s = Sys(dx, dy, constR=const, mild=True)
    for D, E, c, e, name in c12.scales(dx, dy):
        c12.outliers(ctx, s, kind, True, c12.convert(forms_of(s, kind, const, D, E, c, e), D, E, c, e), dict(rule=kind, dx=dx, dy=dy, constant_noise=const, powers_of_two=name), T=2)


def linear(ctx, tier, kind, dx, dy, const):
    """Linear SDE: also against the exact discretisation, with the RK4 error order."""
    import jax
    import jax.numpy as jnp
    import scipy.linalg
    s = Sys(dx, dy, linear=True)
    forms = forms_of(s, kind, True)
    c12.explore(ctx, tier, s, kind, True, forms, dict(rule=kind, dx=dx, dy=dy, linear=True))
    hist = words(range(3), 3)
    A = c12.letters(dy)
    flt = jax.jit(jax.vmap(forms[0][1], in_axes=[None, None, None, 0]))
    smo = jax.jit(jax.vmap(forms[0][2], in_axes=[0, 0, None]))
    err = []
    for dt in (0.2, 0.1):
        big = np.zeros((dx + 1, dx + 1))
        big[:dx, :dx], big[:dx, dx] = s.A, s.b
        E = scipy.linalg.expm(big * dt)
        F, u = E[:dx, :dx], E[:dx, dx]
        V = scipy.linalg.expm(np.block([[s.A, s.L @ s.L.T], [np.zeros((dx, dx)), -s.A.T]]) * dt)
        S = V[:dx, dx:] @ F.T
        got = flt(jnp.asarray(s.m0), jnp.asarray(s.v0), dt, jnp.asarray(A[np.array(hist)]))
        worst = 0.
        for k, w in enumerate(hist):
            m, v, n = s.m0, s.v0, 0.
            for t, i in enumerate(w):
                m, v = F @ m + u, F @ v @ F.T + S
                Sy = s.H @ v @ s.H.T + s.R0
                K = np.linalg.solve(Sy, s.H @ v).T
                r = A[i] - s.H @ m - s.c
                n += 0.5 * (r @ np.linalg.solve(Sy, r) + np.linalg.slogdet(2 * np.pi * Sy)[1])
                m, v = m + K @ r, v - K @ Sy @ K.T
                worst = max(worst, np.abs(np.asarray(got[0][k, t]) - m).max(), np.abs(np.asarray(got[1][k, t]) - v).max(), abs(float(got[2][k, t]) - n))
            ctx.state((kind, dx, dt, w))
            ctx.trans(3)
        err.append(worst)
        ctx.trace(len(hist))
    case = dict(rule=kind, dx=dx, errors=err)
    ctx.ok(err[1] < 1e-4 and err[0] / max(err[1], 1e-14) > 16, 'distance to the exact transition is not of fourth order', case, err)


def runge(ctx, tier, kind, dx, dy, const):
    """rk4_m_cov and rk4_m_cov_backward themselves, on ODEs of all the polynomial degrees."""
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.quadratures import rk4_m_cov, rk4_m_cov_backward
    s = Sys(dx, 1)
    for deg in range(5):
        for dt in (0.3, -0.3, 0.01, 1., 0.):
            def f(m, v, mod):
                return s.A @ m ** deg + v @ m - 0.3 * m + s.b, 0.5 * (s.A @ v + v @ s.A.T) + 0.1 * mod.outer(m, m) + 0.05 * deg * v @ v
            g = rk4_m_cov(lambda m, v: f(m, v, jnp), jnp.asarray(s.m0), jnp.asarray(s.v0), dt)
            w = rk4(lambda y: f(*y, np), [s.m0, s.v0], dt)
            case = dict(dx=dx, degree=deg, dt=dt)
            ctx.close('RK4 mean', g[0], w[0], 1e-12, rtol=1e-12, case=case)
            ctx.close('RK4 covariance', g[1], w[1], 1e-12, rtol=1e-12, case=case)
            mf, vf = s.m0 * 2 - 0.3, s.v0 + 0.4 * s.Q0
            fb = lambda m, v, a, b, mod: (f(m, v, mod)[0] + 0.3 * b @ (m - a), f(m, v, mod)[1] + 0.2 * b @ v @ b - 0.1 * mod.outer(a, a))
            g = rk4_m_cov_backward(lambda m, v, a, b: fb(m, v, a, b, jnp), jnp.asarray(s.m0), jnp.asarray(s.v0), jnp.asarray(mf), jnp.asarray(vf), dt)
            w = rk4(lambda y: fb(*y, mf, vf, np), [s.m0, s.v0], dt)
            ctx.close('backward RK4 mean', g[0], w[0], 1e-12, rtol=1e-12, case=case)
            ctx.close('backward RK4 covariance', g[1], w[1], 1e-12, rtol=1e-12, case=case)
            ctx.state(('rk4', dx, deg, dt))
            ctx.trans(2)
            ctx.trace(2)
            ctx.outcomes.add(float(w[0][0]))
    ctx.sample(dict(dx=dx, degree=2, dt=0.3))
