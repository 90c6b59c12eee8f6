"""C17: particle filters, for every outcome of every random draw (stateless exploration of the real code)."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc.common import FLOAT_TRUST, fl, words
from mc.tape import patched
from mc.c16 import Uniform, stubs, interp

RULE = ('The random draws (initial particles, transitions or proposals, resampled indices) are choice points; the real filter is executed once '
        'for every sequence of choices (stateless exploration by re-execution). A state is (observation history, choices so far); the oracle '
        'is the particle filter recursion in rational arithmetic, and, summing over all executions with their probabilities, the exact '
        'likelihood of the hidden Markov model. Random keys handed to the samplers are recorded and must be consumed once each.')
ASSUMPTIONS = [FLOAT_TRUST, 'samplers are functions of their arguments and of the key', 'the total weight of the particles is positive']


class Model:
    def __init__(self, S, P, pi, like, prop, values):
        self.S, self.P, self.pi, self.like, self.prop, self.values = S, P, pi, like, prop, values


def models():
    F = Fr
    m2 = Model(2, [[F(3, 4), F(1, 4)], [F(1, 3), F(2, 3)]], [F(2, 5), F(3, 5)],
               [[F(1, 2), F(1, 8)], [F(1, 4), F(3, 2)]],  # like[y][x]: densities, not probabilities
               [[[F(1, 2), F(1, 2)], [F(1, 4), F(3, 4)]], [[F(2, 3), F(1, 3)], [F(1, 5), F(4, 5)]]],  # prop[y][x][x']
               [F(-3, 2), F(2)])
    m3 = Model(3, [[F(1, 2), F(1, 4), F(1, 4)], [F(1, 8), F(3, 4), F(1, 8)], [F(1, 3), F(1, 3), F(1, 3)]], [F(1, 5), F(1, 5), F(3, 5)],
               [[F(1, 10), F(2), F(1)], [F(3), F(1, 7), F(1, 2)]],
               [[[F(1, 2), F(1, 4), F(1, 4)], [F(1, 6), F(2, 3), F(1, 6)], [F(1, 4), F(1, 4), F(1, 2)]],
                [[F(1, 3), F(1, 3), F(1, 3)], [F(1, 2), F(1, 8), F(3, 8)], [F(2, 3), F(1, 6), F(1, 6)]]],
               [F(0), F(1, 2), F(-4)])
    tiny = Model(2, m2.P, m2.pi, [[F(1, 2 ** 101), F(1, 2 ** 103)], [F(1, 2 ** 200), F(3, 2)]], m2.prop, [F(10 ** 6), F(1, 10 ** 6)])
    return dict(two=m2, three=m3, tiny=tiny)


def cfg(tier):
    if tier == 'quick':
        return dict(runs=[('two', 1, 3), ('two', 2, 1), ('two', 3, 1), ('two', 2, 2), ('three', 2, 1), ('three', 1, 2), ('tiny', 1, 2), ('tiny', 2, 1)], split=8, maxw=2)
    return dict(runs=[('two', 1, 4), ('two', 2, 1), ('two', 3, 1), ('two', 2, 2), ('three', 2, 1), ('three', 1, 3), ('three', 3, 1), ('two', 4, 1), ('two', 2, 3), ('tiny', 1, 3), ('tiny', 2, 1), ('tiny', 2, 2)], split=16, maxw=4)


def bounds(tier):
    c = cfg(tier)
    return dict(model_particles_steps=c['runs'], observation_words='all for one step; a fixed set of words otherwise',
                resampling_outcomes='all index vectors of multinomial resampling')


def word_list(T, maxw):
    w = words((0, 1), T)
    return w if len(w) <= maxw else [w[(5 * k + 1) % len(w)] for k in range(maxw)]


def units(tier):
    c = cfg(tier)
    us = []
    for name, n, T in c['runs']:
        m = models()[name]
        size = (m.S ** n) ** (T + 1) * (n ** n) ** T
        for w in word_list(T, c['maxw']):
            for kind in ('bootstrap', 'particle'):
                big = size > 300
                parts = m.S ** n if big else 1
                for p in range(parts):
                    us.append((f'{kind} {name} n={n} T={T} y={"".join(map(str, w))} part {p}', ['explore', kind, name, n, T, list(w), p, parts], 1 + size / parts / 100))
    for dt in ('float64', 'float32'):
        us.append((f'shapes and keys {dt}', ['shapes', dt], 8))
    us.append(('continuous resampling', ['conti', 0], 10))
    us.append(('continuous resampling gradients', ['grads', 0], 15))
    us.append(('compiled', ['compiled', 0], 8))
    return us


def run_unit(ctx, tier, what, *args):
    {'explore': explore, 'shapes': shapes, 'conti': conti, 'grads': grads, 'compiled': compiled}[what](ctx, tier, *args)


class Keys:
    """Records which keys are consumed (by a sampler) and which are split."""

    def __init__(self):
        self.used = {}
        self.parents = set()

    @staticmethod
    def raw(key):
        import jax
        try:
            if jax.numpy.issubdtype(key.dtype, jax.dtypes.prng_key):
                key = jax.random.key_data(key)
        except Exception:  # noqa: old-style keys
            pass
        return tuple(np.asarray(key).ravel().tolist())

    def use(self, key, role):
        k = self.raw(key)
        self.used.setdefault(k, []).append(role)
        return k

    def stubs(self):
        import jax
        split, fold = jax.random.split, jax.random.fold_in

        def note(key):
            if not isinstance(key, jax.core.Tracer):
                self.parents.add(self.raw(key))

        def _split(key, *a, **k):
            note(key)
            return split(key, *a, **k)

        def _fold(key, *a, **k):
            return fold(key, *a, **k)

        return dict(split=_split, fold_in=_fold)

    def check(self, ctx, case):
        for k, roles in self.used.items():
            ctx.ok(len(roles) == 1, 'a random key is consumed more than once', case, roles)
            ctx.ok(k not in self.parents, 'a random key is consumed and also split', case, roles)


class Chooser:
    def __init__(self, prefix):
        self.prefix, self.trail, self.prob = list(prefix), [], Fr(1)

    def pick(self, options):
        """options: list of (value, probability); enumerated by depth-first search."""
        i = len(self.trail)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.trail.append((k, len(options)))
        self.prob *= options[k][1]
        return options[k][0]

    def next(self):
        t = list(self.trail)
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return None
        return [k for k, _ in t[:-1]] + [t[-1][0] + 1]


def product(dists):
    """Joint options of independent draws."""
    out = []
    for c in itertools.product(*[list(enumerate(d)) for d in dists]):
        p = Fr(1)
        for _, q in c:
            p *= q
        out.append((tuple(i for i, _ in c), p))
    return out


def likelihood(m, ys):
    a = list(m.pi)
    for y in ys:
        a = [sum(a[i] * m.P[i][j] for i in range(m.S)) * m.like[y][j] for j in range(m.S)]
    return sum(a)


def explore(ctx, tier, kind, name, n, T, ys, part, parts):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import smc
    m = models()[name]
    vals, P, like, prop = fl(m.values), fl(m.P), fl(m.like), fl(m.prop)
    yarr = jnp.asarray(ys, dtype='float64')[:, None]
    key = jax.random.PRNGKey(part + 17)
    state = {}

    def to_idx(samples):
        s = np.asarray(samples)
        ix = np.argmin(np.abs(s[:, 0][:, None] - vals[None, :]), axis=1)
        if not np.array_equal(vals[ix], s[:, 0]):
            raise AssertionError('samples are not values of the state')
        return tuple(ix.tolist())

    def arr(ix):
        return jnp.asarray(vals[list(ix)])[:, None]

    def expect(what, got, want):
        ctx.ok(got == want, what, state['case'], f'{got} instead of {want}')

    def init_sampler(k, N):
        state['keys'].use(k, 'initial')
        expect('number of particles requested', N, n)
        ix = state['init'](product([m.pi] * n))
        state['cur'] = ix
        return arr(ix)

    def trans(samples, k):
        state['keys'].use(k, f"transition {state['t']}")
        expect('ancestors given to the transition sampler', to_idx(samples), state['cur'])
        state['old'] = state['cur']
        state['cur'] = state['ch'].pick(product([m.P[i] for i in state['cur']]))
        return arr(state['cur'])

    def propose(samples, y, k):
        state['keys'].use(k, f"proposal {state['t']}")
        t = state['t']
        expect('ancestors given to the proposal sampler', to_idx(samples), state['cur'])
        expect('measurement given to the proposal sampler', int(np.asarray(y)[0]), ys[t])
        state['old'] = state['cur']
        state['cur'] = state['ch'].pick(product([m.prop[ys[t]][i] for i in state['cur']]))
        return arr(state['cur'])

    def idx(s):
        return np.asarray([int(np.argmin(np.abs(v - vals))) for v in np.asarray(s)[:, 0]])

    def pdf(y, s):
        return jnp.asarray(like[int(np.asarray(y)[0]), idx(s)])

    def proposal_density(s, a, y):
        return jnp.asarray(prop[int(np.asarray(y)[0]), idx(a), idx(s)])

    def transition_density(s, a):
        return jnp.asarray(P[idx(a), idx(s)])

    def resampling(w, k):
        state['keys'].use(k, f"resampling {state['t']}")
        t = state['t']
        if kind == 'bootstrap':
            ws = [m.like[ys[t]][i] for i in state['cur']]
        else:
            ws = [m.like[ys[t]][j] * m.P[i][j] / m.prop[ys[t]][i][j] for i, j in zip(state['old'], state['cur'])]
        state['nll'] += [sum(ws) / n]
        tot = sum(ws)
        ws = [v / tot for v in ws]
        ctx.close('normalised weights given to the resampling', w, fl(ws), 1e-13, case=state['case'])
        ix = state['ch'].pick(product([ws] * n))
        state['cur'] = tuple(state['cur'][i] for i in ix)
        state['out'].append(state['cur'])
        state['t'] += 1
        return jnp.asarray(ix)

    inits = product([m.pi] * n)
    total, weight = 0., Fr(0)
    todo = [inits[part]] if parts > 1 else inits
    for init_ix, init_p in todo:
        prefix = []
        while prefix is not None:
            keys = Keys()
            ch = Chooser(prefix)
            state.clear()
            state.update(keys=keys, ch=ch, t=0, nll=[], out=[], case=dict(kind=kind, model=name, n=n, ys=ys, initial=init_ix, choices=prefix),
                         init=lambda o: init_ix)
            with patched(**keys.stubs()), jax.disable_jit():
                if kind == 'bootstrap':
                    samples, nell = smc.bootstrap_filter(trans, pdf, yarr, init_sampler, key, n, resampling)
                else:
                    samples = smc.particle_filter(propose, proposal_density, transition_density, pdf, yarr, init_sampler, key, n, resampling)
            samples = np.asarray(samples)
            case = dict(state['case'], choices=[k for k, _ in ch.trail])
            ctx.ok(state['t'] == T, 'number of resampling steps', case, state['t'])
            ctx.close('filtering particles', samples, np.array([vals[list(o)] for o in state['out']])[:, :, None], 0., case=case)
            keys.check(ctx, case)
            if kind == 'bootstrap':
                est = Fr(1)
                for v in state['nll']:
                    est *= v
                ctx.close('negative log-likelihood', nell, -np.log(float(est)), 1e-12, rtol=1e-12, case=case)
                total += float(init_p * ch.prob) * float(np.exp(-np.float64(nell)))
            weight += init_p * ch.prob
            for k in range(len(ch.trail) + 1):
                ctx.state((kind, name, n, tuple(ys), init_ix, tuple(c for c, _ in ch.trail[:k])))
            ctx.trans(len(ch.trail))
            ctx.trace()
            ctx.outcomes.add(tuple(state['out']))
            prefix = ch.next()
    ctx.ok(weight == sum(p for _, p in todo), 'the executions do not have total probability one (machinery)', dict(kind=kind, model=name), weight)
    if kind == 'bootstrap':
        # exact unbiasedness, conditionally on the initial particles: E[prod mean w | x0] (mean over i of the likelihood started in x0_i at T = 1)
        if parts == 1:
            ctx.close('the likelihood estimate is biased', total, float(likelihood(m, ys)), 0., rtol=1e-11, case=dict(model=name, n=n, ys=ys))
        else:
            want = Fr(0)
            for i in inits[part][0]:
                mm = Model(m.S, m.P, [Fr(int(s == i)) for s in range(m.S)], m.like, m.prop, m.values)
                want += likelihood(mm, ys) / n
            ctx.close('the likelihood estimate is biased', total, float(want * inits[part][1]), 0., rtol=1e-11, case=dict(model=name, n=n, ys=ys, initial=inits[part][0]))
    ctx.sample(dict(kind=kind, model=name, n=n, ys=ys, choices=[k for k, _ in ch.trail]))


def shapes(ctx, tier, dtype):
    """Larger sizes, several state dimensions; deterministic samplers that depend on the key, under disable_jit, against a direct recursion."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import smc, resampling
    tol = 1e-12 if dtype == 'float64' else 1e-5
    sizes = list(itertools.product((1, 2, 3), (1, 2), (1, 2, 5), (1, 2, 6)))
    for dx, dy, n, T in sizes + [(2, 1, 64, 3), (1, 2, 300, 2), (1, 1, 4, 40), (1, 1, 3, 300)]:
        scale = [1., 1e-3, 1e-30][(dx + n + T) % 3]  # of the likelihood: densities have units
        for scheme in ('systematic', 'stratified', 'multinomial') if n > 1 and T < 100 else ('systematic',):
            res = getattr(resampling, scheme)
            keys = Keys()
            log = []
            ys = jnp.asarray(np.sin(np.arange(T * dy)).reshape(T, dy), dtype=dtype)
            A = np.asarray(np.eye(dx) * 0.5 + 0.1, dtype=dtype)

            def init_sampler(k, N):
                keys.use(k, 'initial')
                x = jax.random.normal(k, (N, dx), dtype=dtype)
                log.append(('init', np.asarray(x)))
                return x

            def trans(s, k):
                keys.use(k, 'transition')
                log.append(('anc', np.asarray(s)))
                x = s @ A.T + jax.random.normal(k, s.shape, dtype=dtype)
                log.append(('new', np.asarray(x)))
                return x

            def pdf(y, s):
                return scale * jnp.exp(-0.5 * (jnp.sum(s, -1) - jnp.sum(y)) ** 2)

            def resample(w, k):
                keys.use(k, 'resampling')
                ix = res(w, k)
                log.append(('w', np.asarray(w)))
                log.append(('ix', np.asarray(ix)))
                return ix

            case = dict(dx=dx, dy=dy, n=n, T=T, scheme=scheme, dtype=dtype)
            with patched(**keys.stubs()), jax.disable_jit():
                out, nell = smc.bootstrap_filter(trans, pdf, ys, init_sampler, jax.random.PRNGKey(T + 10 * n), n, resample)
            keys_boot = keys
            keys_boot.check(ctx, case)
            follow(ctx, case, log, np.asarray(ys), np.asarray(out), float(nell), n, T, tol, scale)
            ctx.ok(np.asarray(out).shape == (T, n, dx), 'shape of the particles', case, np.asarray(out).shape)
            ctx.ok(len(keys.used) == 2 * T + 1, 'number of random keys', case, len(keys.used))
            # the same model by the general filter with the transition as the proposal has to give the same particles up to the draws
            keys = Keys()
            log = []

            def prop_s(s, y, k):
                return trans(s, k)

            def dens(s, a, y=None):
                return jnp.exp(-0.5 * jnp.sum((s - a @ A.T) ** 2, -1))

            with patched(**keys.stubs()), jax.disable_jit():
                out = smc.particle_filter(prop_s, dens, dens, pdf, ys, init_sampler, jax.random.PRNGKey(3), n, resample)
            keys.check(ctx, case)
            follow(ctx, case, log, np.asarray(ys), np.asarray(out), None, n, T, tol, scale)
            ctx.state((dx, dy, n, T, scheme))
            ctx.trans(2 * T)
            ctx.trace(2)
    ctx.sample(dict(dx=3, n=5, T=6))


def follow(ctx, case, log, ys, out, nell, n, T, tol, scale):
    """Check a recorded execution against the recursion."""
    it = iter(log)
    cur = next(it)[1]
    total = 0.
    for t in range(T):
        kind, anc = next(it)
        ctx.close('ancestors', anc, cur, 0., case=case)
        new = next(it)[1]
        w = np.exp(-0.5 * (new.sum(-1) - ys[t].sum()) ** 2)
        total -= np.log(w.mean()) + np.log(scale)
        ctx.close('weights', next(it)[1], w / w.sum(), tol, case=case)
        cur = new[next(it)[1]]
        ctx.close('particles', out[t], cur, 0., case=case)
    if nell is not None:
        ctx.close('negative log-likelihood', nell, total, tol * 50, rtol=tol, case=case)


def conti(ctx, tier, _):
    """Continuous resampling inside the bootstrap filter, over a grid of tapes of uniforms and of transition outcomes."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import smc
    T = 2
    grid = [Fr(1, 16), Fr(5, 16), Fr(9, 16), Fr(15, 16)]
    shifts = [Fr(-1), Fr(1, 2)]
    for n in (2, 3):
        for ush in itertools.product(range(len(shifts)), repeat=n):
            for us in itertools.product(grid, repeat=n) if n == 2 else [(a, b, a) for a in grid for b in grid]:
                u = Uniform()
                u.tape = jnp.asarray([float(v) for v in us])
                keys = Keys()
                news = []

                def init_sampler(k, N):
                    keys.use(k, 'initial')
                    return jnp.arange(N, dtype='float64')

                def trans(s, k):
                    keys.use(k, 'transition')
                    s = 0.5 * s + jnp.asarray([float(shifts[i]) for i in ush])
                    news.append(np.asarray(s))
                    return s

                def pdf(y, s):
                    return 1. / (1. + (s - y[0]) ** 2)

                ys = jnp.asarray([[0.25], [-1.]])
                with patched(split=keys.stubs()['split'], **stubs(u)), jax.disable_jit():
                    out, nell = smc.bootstrap_filter(trans, pdf, ys, init_sampler, jax.random.PRNGKey(0), n, None, conti_resampling=True)
                out = np.asarray(out)
                case = dict(n=n, uniforms=us, shifts=ush)
                cur = [Fr(i) for i in range(n)]
                est = 1.
                for t, y in enumerate((Fr(1, 4), Fr(-1))):
                    new = [c / 2 + shifts[i] for c, i in zip(cur, ush)]
                    w = [1 / (1 + (x - y) ** 2) for x in new]
                    est *= float(sum(w) / n)
                    tot = sum(w)
                    pairs = sorted(zip(new, [v / tot for v in w]))
                    cs, acc = [], Fr(0)
                    for _, v in pairs:
                        cs.append(acc + v / 2)
                        acc += v
                    cur = [Fr(interp((us[i] + i) / n, cs, [x for x, _ in pairs])) for i in range(n)]
                    ctx.close('continuously resampled particles of the filter', out[t], [float(c) for c in cur], 1e-12, case=dict(case, t=t))
                    cur = [Fr(v) for v in out[t].tolist()]
                ctx.close('negative log-likelihood', nell, -np.log(est), 1e-12, case=case)
                keys.check(ctx, case)
                ctx.state((n, us, ush))
                ctx.trans(T)
                ctx.trace()
    ctx.sample(dict(n=3, uniforms=us))


def grads(ctx, tier, _):
    """With continuous resampling the derivative of the likelihood estimate is the limit of the difference quotients (same key)."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import smc
    for n in (2, 5, 20):
        for T in (1, 3):
            ys = jnp.sin(jnp.arange(1., T + 1.))[:, None]

            def f(theta, key):
                def init_sampler(k, N):
                    return jax.random.normal(k, (N,))

                def trans(s, k):
                    return theta * s + jnp.sin(s) + 0.3 * jax.random.normal(k, s.shape)

                def pdf(y, s):
                    return jnp.exp(-0.5 * (s - y[0]) ** 2)

                return smc.bootstrap_filter(trans, pdf, ys, init_sampler, key, n, None, True)[1]

            g, v = jax.jit(jax.grad(f)), jax.jit(f)
            for s in range(4):
                for theta in (0.3, 0.8):
                    key = jax.random.PRNGKey(s)
                    a = float(g(theta, key))
                    h = 1e-6
                    b = (float(v(theta + h, key)) - float(v(theta - h, key))) / (2 * h)
                    ctx.close('derivative of the likelihood estimate', a, b, 1e-5, rtol=1e-5, case=dict(n=n, T=T, key=s, theta=theta))
                    ctx.state((n, T, s, theta))
                    ctx.trans(T)
                    ctx.trace()
    ctx.sample(dict(n=20, T=3))


def compiled(ctx, tier, _):
    """Compiled, vectorised and eager executions agree, so that what was explored eagerly carries over."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import smc, resampling
    for scheme in ('systematic', 'stratified', 'multinomial'):
        res = getattr(resampling, scheme)
        for n, T in ((3, 4), (8, 2)):
            def boot(key, ys):
                return smc.bootstrap_filter(lambda s, k: jnp.sin(s) + 0.5 * jax.random.normal(k, s.shape),
                                            lambda y, s: jnp.exp(-0.5 * jnp.sum((s - y) ** 2, -1)), ys,
                                            lambda k, N: jax.random.normal(k, (N, 2)), key, n, res)

            def part(key, ys):
                mu = lambda a, y: 0.5 * (jnp.sin(a) + y)
                return smc.particle_filter(lambda a, y, k: mu(a, y) + 0.5 * jax.random.normal(k, a.shape),
                                           lambda s, a, y: jnp.exp(-2 * jnp.sum((s - mu(a, y)) ** 2, -1)),
                                           lambda s, a: jnp.exp(-jnp.sum((s - jnp.sin(a)) ** 2, -1)),
                                           lambda y, s: jnp.exp(-0.5 * jnp.sum((s - y) ** 2, -1)), ys,
                                           lambda k, N: jax.random.normal(k, (N, 2)), key, n, res)

            keys = jnp.stack([jax.random.PRNGKey(s) for s in range(4)])
            ys = jnp.sin(jnp.arange(4 * T * 2.)).reshape(4, T, 2)
            for name, fn in (('bootstrap', boot), ('particle', part)):
                a = jax.jit(jax.vmap(fn))(keys, ys)
                outs = []
                for s in range(4):
                    with jax.disable_jit():
                        b = fn(keys[s], ys[s])
                    for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
                        ctx.close('compiled and eager executions differ', x[s], y, 1e-11, case=dict(kind=name, scheme=scheme, n=n, key=s))
                    x0 = np.asarray(jax.tree_util.tree_leaves(b)[0])
                    outs.append(x0.tobytes())
                    # causality under a fixed key and length: changing the last measurement leaves the earlier particles alone
                    c = jax.jit(fn)(keys[s], ys[s].at[-1].add(1.))
                    x1 = np.asarray(jax.tree_util.tree_leaves(c)[0])
                    ctx.close('particles depend on a later measurement', x1[:-1], np.asarray(jax.tree_util.tree_leaves(a)[0][s])[:-1], 1e-11, case=dict(kind=name, n=n))
                    ctx.state((scheme, n, name, s))
                    ctx.trans(T)
                    ctx.trace()
                ctx.ok(len(set(outs)) == 4, 'the key has no effect', dict(kind=name, scheme=scheme))
    ctx.sample(dict(n=8))
