"""C20: exact discretisation of linear SDEs, simulation of SDE trajectories, and evaluation of lists of functions."""
import itertools
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.common import FLOAT_TRUST, fl
from mc.c17 import Keys
from mc.tape import patched, shape_of

RULE = ('Discretisation: a state is one (A, B, dt) with all small integer drift matrices enumerated, the oracle is the power series of the Lyapunov '
        'equation (60 digits), and composition of steps is a transition (semigroup law). Simulation: a state is a prefix of a trajectory, a '
        'transition consumes one vector of Normal increments; the generator is replaced by a tape, and all tapes over the alphabet are enumerated, '
        'for all flags. Lists of functions: all words over a set of functions.')
ASSUMPTIONS = [FLOAT_TRUST]


def cfg(tier):
    if tier == 'quick':
        return dict(dts=[Fr(0), Fr(1, 2 ** 20), Fr(1, 1024), Fr(1, 100), Fr(1, 2), Fr(1), Fr(2)], three=30, cap=90, funcs=3)
    return dict(dts=[Fr(0), Fr(1, 2 ** 30), Fr(1, 2 ** 20), Fr(1, 1000), Fr(1, 100), Fr(1, 2), Fr(1), Fr(2), Fr(4)], three=300, cap=800, funcs=4)


def bounds(tier):
    c = cfg(tier)
    return dict(drift_matrices='all 1x1 and 2x2 with entries in {-1, 0, 1}, a set of 3x3', time_steps=c['dts'], tape_alphabet=[-1, 0, 1.5], words_of_functions=c['funcs'])


def units(tier):
    us = []
    for d in (1, 2, 3):
        for w in (1, 2, 3):
            us.append((f'discretisation d={d} w={w}', ['lti', d, w, 0], 4 + d))
    for d, T, sub in [(1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 2, 1), (2, 1, 2), (1, 4, 1), (1, 1, 4), (3, 1, 1)]:
        for diag in (False, True):
            us.append((f'simulation d={d} T={T} sub-steps={sub} diagonal={diag}', ['sim', d, T, [sub, diag]], 4))
    us.append(('simulation compiled', ['comp', 0, 0, 0], 8))
    us.append(('lists of functions', ['funcs', 0, 0, 0], 5))
    us.append(('Gaussian-sum samplers', ['sampler', 0, 0, 0], 5))
    return us


def run_unit(ctx, tier, what, *a):
    {'lti': lti, 'sim': sim, 'comp': comp, 'funcs': funcs, 'sampler': sampler}[what](ctx, tier, *a)


def matrices(d, count):
    if d < 3:
        return [np.array(e).reshape(d, d) for e in itertools.product((-1, 0, 1), repeat=d * d)]
    out = []
    for k in range(count):
        out.append(np.array([((k * 7 + 3 * i * i + 5 * i) % 5) - 2 for i in range(9)]).reshape(3, 3))
    return out


def dispersions(d, w):
    out = [np.array([[(i + 1 + j) % 2 for j in range(w)] for i in range(d)]), np.array([[(2 * i - 3 * j) % 4 - 1 for j in range(w)] for i in range(d)])]
    z = np.zeros((d, w), dtype=int)
    z[-1, -1] = 2
    return out + [z, np.zeros((d, w), dtype=int)]


def series(A, B, dt):
    """Exact power series (rational arithmetic in mpmath)."""
    d = A.shape[0]
    A, G = mp.matrix(A.tolist()), mp.matrix((B @ B.T).tolist())
    dt = mp.mpf(dt.numerator) / dt.denominator
    F, term = mp.eye(d), mp.eye(d)
    Q, q = mp.zeros(d), G * dt
    for k in range(1, 200):
        term = A * term * (dt / k)
        F = F + term
        Q = Q + q
        q = (A * q + q * A.T) * (dt / (k + 1))
        if mp.mnorm(term, 1) < 1e-40 and mp.mnorm(q, 1) < 1e-40:
            break
    return np.array(F.tolist(), dtype=float).reshape(d, d), np.array(Q.tolist(), dtype=float).reshape(d, d)


def lti(ctx, tier, d, w, _):
    import jax
    import jax.numpy as jnp
    from mfs.utils import discretise_lti_sde
    c = cfg(tier)
    fn = jax.jit(discretise_lti_sde)
    As, Bs = matrices(d, c['three']), dispersions(d, w)
    for A in As:
        for B in Bs:
            prev = {}
            for dt in c['dts']:
                F, Q = map(np.asarray, fn(jnp.asarray(A, dtype='float64'), jnp.asarray(B, dtype='float64'), float(dt)))
                wF, wQ = series(A, B, dt)
                case = dict(A=A.tolist(), B=B.tolist(), dt=dt)
                s = np.exp(np.linalg.norm(A, 2) * float(dt))
                ctx.close('transition matrix', F, wF, 1e-13 * s, case=case)
                ctx.close('transition covariance', Q, wQ, 1e-13 * s ** 3 * np.abs(B @ B.T).max() * float(dt) + 1e-300, case=case)
                if A is As[0] or A is As[-1] or tier != 'quick':
                    for k in (-30, 9, 20):  # small and large noise: the covariance is homogeneous
                        Fk, Qk = map(np.asarray, fn(jnp.asarray(A, dtype='float64'), jnp.asarray(B * 2. ** k), float(dt)))
                        ctx.close('transition matrix (scaled noise)', Fk, wF, 1e-13 * s, case=dict(case, power_of_two=k))
                        ctx.close('transition covariance (scaled noise)', Qk / 4. ** k, wQ, 1e-13 * s ** 3 * np.abs(B @ B.T).max() * float(dt) + 1e-300, case=dict(case, power_of_two=k))
                prev[dt] = (F, Q)
                ctx.state((A.tobytes(), B.tobytes(), w, dt))
                ctx.trace()
            for a, b in itertools.combinations_with_replacement(c['dts'], 2):
                if a + b in prev:
                    (Fa, Qa), (Fb, Qb), (Fc, Qc) = prev[a], prev[b], prev[a + b]
                    s = np.exp(np.linalg.norm(A, 2) * float(a + b))
                    ctx.close('semigroup law of the transition matrices', Fa @ Fb, Fc, 1e-11 * s, case=dict(A=A.tolist(), a=a, b=b))
                    ctx.close('semigroup law of the covariances', Fa @ Qb @ Fa.T + Qa, Qc, 1e-11 * s ** 3 * 10, case=dict(A=A.tolist(), a=a, b=b))
                    ctx.trans()
            ctx.trans(len(c['dts']))
    F, Q = discretise_lti_sde(jnp.asarray(As[-1], dtype='float64'), jnp.asarray(Bs[0], dtype='float64'), 0.5)
    ctx.close('eager execution', np.stack([F, Q]), np.stack(series(As[-1], Bs[0], Fr(1, 2))), 1e-11, case='eager')
    ctx.sample(dict(A=As[-1].tolist(), B=Bs[1].tolist()))


def model(d, diag, xp):
    """Nonlinear conditional mean and covariance."""

    def f(x, dt):
        m = x + xp.sin(x) * dt
        if d > 1:
            m = m + dt * x[::-1] * xp.asarray([0.5, -0.25, 1.][:d])
        v = dt * (1. + 0.5 * xp.cos(x) ** 2)
        if diag:
            return m, xp.diag(v)
        u = xp.asarray([1., -0.5, 0.25][:d]) * (1 + 0.1 * x[0])
        return m, xp.diag(v) + dt * xp.outer(u, u)

    return f


def recursion(f, x0, dt, zs):
    x = np.atleast_1d(np.asarray(x0, dtype=float))
    out = []
    for row in zs:
        for z in row:
            m, v = f(x, dt / len(row))
            x = m + np.linalg.cholesky(v) @ z if np.any(v) else m
        out.append(x)
    return np.array(out)


class Pop:
    """Stub of jax.random.normal: pops the tape in the order of the draws; records the keys."""

    def __init__(self, tape):
        self.tape, self.pos, self.keys = np.asarray(tape, dtype=float).ravel(), 0, Keys()

    def __call__(self, key, *args, **kw):
        import jax.numpy as jnp
        s = shape_of(args, kw)
        n = int(np.prod(s))
        self.keys.use(key, 'draw')
        out = self.tape[self.pos:self.pos + n]
        self.pos += n
        if out.size < n:
            raise RuntimeError('more draws than T * integration_steps * d')
        return jnp.asarray(out.reshape(s))

    def stubs(self):
        return dict(normal=self, split=self.keys.stubs()['split'])


def sim(ctx, tier, d, T, flags):
    import jax
    import jax.numpy as jnp
    from mfs.utils import simulate_sde
    sub, diag = flags
    al = [-1., 0., 1.5]
    cap = cfg(tier)['cap']
    n = T * sub * d
    tapes = list(itertools.product(range(3), repeat=n))
    if len(tapes) > cap:  # all tapes over a sub-alphabet, and a fixed set of the others
        tapes = [t for t in tapes if 1 not in t][:cap // 2] + tapes[::max(1, len(tapes) // (cap // 2))]
    f, g = model(d, diag, jnp), model(d, diag, np)
    for x0 in ([0.3, -1.2, 2.][:d],) if d > 1 else (0.3, [-2.]):
        for dt in (0.5,) if len(tapes) > 30 else (0.5, 2.):
            for t in tapes:
                z = np.array([al[i] for i in t]).reshape(T, sub, d)
                p = Pop(z)
                with patched(**p.stubs()), jax.disable_jit():
                    got = np.asarray(simulate_sde(f, x0 if np.ndim(x0) == 0 else jnp.asarray(x0), dt, T, jax.random.PRNGKey(1), diagonal_cov=diag, integration_steps=sub))
                case = dict(d=d, T=T, sub_steps=sub, diagonal=diag, x0=x0, dt=dt, tape=z.tolist())
                ctx.ok(p.pos == n, 'number of draws', case, p.pos)
                ctx.close('trajectory', got, recursion(g, x0, dt, z), 1e-12, rtol=1e-12, case=case)
                p.keys.check(ctx, case)
                for k in range(n + 1):
                    ctx.state((d, T, sub, diag, str(x0), dt, t[:k]))
                ctx.trans(T * sub)
                ctx.trace()
                ctx.outcomes.add(float(np.round(got.ravel()[-1], 9)))
    if diag:  # a deterministic component
        def h(x, dt):
            return x + dt, jnp.zeros((d, d)).at[0, 0].set(dt)

        p = Pop(np.full((T, sub, d), 2.))
        with patched(**p.stubs()), jax.disable_jit():
            got = np.asarray(simulate_sde(h, jnp.zeros((d,)), 0.5, T, jax.random.PRNGKey(1), True, sub))
        want = np.zeros((T, d)) + 0.5 * np.arange(1, T + 1)[:, None]
        want[:, 0] += np.arange(1, T + 1) * sub * np.sqrt(0.5 / sub) * 2
        ctx.close('trajectory with a deterministic component', got, want, 1e-12, case=dict(d=d, T=T, sub=sub))
    ctx.sample(case)


def comp(ctx, tier, *_):
    """Real generator: the compiled trajectory follows the recursion with the drawn increments, is a function of the key, and starts after x0."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import simulate_sde
    real = jax.random.normal
    for d, T, sub, diag in list(itertools.product((1, 2, 3), (1, 5), (1, 3), (False, True))) + [(1, 1100, 1, False), (1, 2, 300, False), (2, 300, 1, True)]:
        f, g = model(d, diag, jnp), model(d, diag, np)
        x0 = jnp.asarray([0.3, -1.2, 2.][:d])
        fn = jax.jit(lambda k: simulate_sde(f, x0, 0.2, T, k, diagonal_cov=diag, integration_steps=sub))
        seen = set()
        many = 4 if T * sub < 100 else 1
        for s in range(many):
            draws = []

            def spy(key, *a, **k):
                out = real(key, *a, **k)
                draws.append(np.asarray(out).ravel())
                return out

            key = jax.random.PRNGKey(s)
            got = np.asarray(fn(key))
            with patched(normal=spy), jax.disable_jit():
                eager = np.asarray(simulate_sde(f, x0, 0.2, T, key, diagonal_cov=diag, integration_steps=sub))
            case = dict(d=d, T=T, sub_steps=sub, diagonal=diag, key=s)
            z = np.concatenate(draws)
            ctx.ok(z.size == T * sub * d, 'number of draws', case, z.size)
            ctx.ok(len(set(z.tolist())) == z.size, 'increments are repeated', case)
            ctx.close('compiled and eager trajectories differ', got, eager, 1e-11, case=case)
            if z.size == T * sub * d:
                ctx.close('trajectory of the drawn increments', got, recursion(g, x0, 0.2, z.reshape(T, sub, d)), 1e-10, case=case)
            seen.add(got.tobytes())
            ctx.state(str(case))
            ctx.trans(T * sub)
            ctx.trace(2)
        ctx.ok(len(seen) == many, 'the key has no effect', dict(d=d, T=T))
        # default flags
        if sub == 1 and not diag and many > 1:
            ctx.close('default flags', simulate_sde(f, x0, 0.2, T, key), got, 1e-12, case=case)
    ctx.sample(case)


def funcs(ctx, tier, *_):
    import jax
    import jax.numpy as jnp
    from mfs.utils import vmap_list_of_funcs
    fs = [jnp.sin, lambda z: z ** 2 - 1., lambda z: jnp.exp(-z), lambda z: 3. * jnp.ones_like(z)]
    nps = [np.sin, lambda z: z ** 2 - 1., lambda z: np.exp(-z), lambda z: 3. * np.ones_like(z)]
    reds = [jnp.sum, lambda z: jnp.max(z), lambda z: jnp.dot(jnp.ravel(z), jnp.ravel(z))]
    nred = [np.sum, np.max, lambda z: np.sum(z * z)]
    xs = [np.array(0.4), np.array([0.1, -1., 2.]), np.arange(6.).reshape(2, 3) / 3 - 1]
    for n in range(1, cfg(tier)['funcs'] + 1):
        for word in itertools.product(range(4), repeat=n):
            z = vmap_list_of_funcs([fs[i] for i in word])
            for x in xs if n < 4 else xs[1:2]:
                want = np.array([nps[i](x) for i in word])
                ctx.close('list of functions', z(jnp.asarray(x)), want, 1e-12, case=dict(word=word, shape=x.shape))
                ctx.state((word, x.shape))
                ctx.trans(n)
                ctx.trace()
            if n == 3:
                ctx.close('list of functions (compiled, vectorised)', jax.jit(jax.vmap(z))(jnp.asarray(xs[1])), np.array([[nps[i](v) for i in word] for v in xs[1]]), 1e-12, case=dict(word=word))
        for word in itertools.product(range(3), repeat=n):
            z = vmap_list_of_funcs(tuple(reds[i] for i in word))
            for x in xs[1:]:
                ctx.close('list of functionals', z(jnp.asarray(x)), np.array([nred[i](x) for i in word]), 1e-13, case=dict(word=word))
                ctx.trace()
    # long lists, every function of the list its own
    for n in (5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 65, 100):
        z = vmap_list_of_funcs([lambda v, i=i: v * (i + 1) + jnp.sin(v + i) for i in range(n)])
        for x in xs[:2]:
            want = np.array([x * (i + 1) + np.sin(x + i) for i in range(n)])
            ctx.close('long list of functions', z(jnp.asarray(x)), want, 1e-11, case=dict(length=n, shape=x.shape))
            ctx.state(('long', n, x.shape))
            ctx.trans(n)
            ctx.trace()
    ctx.sample(dict(word=word))


def sampler(ctx, tier, *_):
    """Samplers of the Gaussian sums: every sample is its component's mean plus its component's factor times a Normal draw."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import GaussianSum1D, GaussianSumND
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    means = np.array([-3., 0.5, 7.])
    var = np.array([0.04, 1., 0.25])
    al = [-1., 0.5]
    for K in (1, 2, 3):
        w = np.array([[1.], [0.3, 0.7], [0.25, 0.5, 0.25]][K - 1]) if K != 2 else np.array([0.3, 0.7])
        g1 = GaussianSum1D.new(jnp.asarray(means[:K]), jnp.asarray(var[:K]), jnp.asarray(w), 2)
        m2 = np.stack([means[:K], -means[:K] + 1], axis=1)
        c2 = np.stack([np.array([[v, 0.3 * v], [0.3 * v, 2 * v]]) for v in var[:K]])
        g2 = GaussianSumND.new(jnp.asarray(m2), jnp.asarray(c2), jnp.asarray(w), generate_graded_lexico_multi_indices(2, 3, 0))
        for n in (1, 2, 3):
            for comp_word in itertools.product(range(K), repeat=n):
                for zi in itertools.product(range(2), repeat=n):
                    used = []
                    keys = []

                    def choice(key, a, shape=(), replace=True, p=None, **kw):
                        used.append(('choice', np.asarray(p)))
                        keys.append(Keys.raw(key))
                        return jnp.asarray(np.array(comp_word).reshape(shape))

                    def categorical(key, logits, *a, **kw):
                        e = np.exp(np.asarray(logits))
                        used.append(('choice', e / e.sum()))
                        keys.append(Keys.raw(key))
                        return jnp.asarray(np.array(comp_word).reshape(kw.get('shape', (n,))))

                    z1 = np.array([al[i] for i in zi])
                    z2 = np.stack([z1, -2 * z1 + 0.25], axis=1)

                    def normal(key, *a, **kw):
                        s = shape_of(a, kw)
                        used.append(('normal', s))
                        keys.append(Keys.raw(key))
                        return jnp.asarray(z1.reshape(s) if int(np.prod(s)) == n else z2.reshape(s))

                    for g, d in ((g1, 1), (g2, 2)):
                        used.clear()
                        keys.clear()
                        with patched(choice=choice, categorical=categorical, normal=normal), jax.disable_jit():
                            got = np.asarray(g.sampler(jax.random.PRNGKey(3), n))
                        case = dict(components=comp_word, d=d, draws=zi)
                        ctx.ok([u[0] for u in used].count('choice') == 1 and [u[0] for u in used].count('normal') == 1 and len(set(keys)) == len(keys),
                               'draws of the sampler: one choice and one Normal draw with different keys', case, used)
                        ctx.close('weights of the choice', [u[1] for u in used if u[0] == 'choice'][0], w, 1e-12, case=case)
                        ix = list(comp_word)
                        want = means[ix] + np.sqrt(var[ix]) * z1 if d == 1 else m2[ix] + np.stack([np.linalg.cholesky(c2[i]) @ z for i, z in zip(ix, z2)])
                        ctx.close('samples', got, want, 1e-12, case=case)
                        ctx.state((K, n, comp_word, zi, d))
                        ctx.trans()
                        ctx.trace()
    ctx.sample(case)
