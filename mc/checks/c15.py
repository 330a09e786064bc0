"""Covariances stay valid"""
import itertools

import numpy as np

from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite

from .. import est
from ..tree import walk

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every integer matrix in [-3, 3] of size 1, in [-2, 2] of size 2, every symmetric matrix of size 3 in [-1, 2] and asymmetric one in [-1, 1], '
             'each at 3 scales, symmetric ones at 5; 72 matrices of each of 5 sizes from 5 to 20; every history of 3 steps from 3 control and measurement pairs for 8 non-linear models, 7 covariances (singular, '
             'zero and of widely different scales), 5 process and 3 sensor noises, 4 tunings; joint and dual estimation over 3 circuits with each '
             'covariance and noise zero or not, 3 steps from 3 pairs',
    'thorough': 'as quick, integers in [-4, 4] (size 2), symmetric size 3 in [-2, 2], histories of 4 steps',
}
ASSUMPTIONS = ['asymmetries below 1e-8 in absolute terms are round-off', 'tunings for which no point has a negative weight', 'the covariance of the predicted output is invertible in double precision']


def cases(tier):
    out = [['matrix', 1, 'all', 3]] + [['matrix', 2, a, 2 if tier == 'quick' else 4] for a in ('symmetric', 'all')]
    lo, hi = (-1, 2) if tier == 'quick' else (-2, 2)
    out += [['symmetric', k, lo, hi] for k in range(lo, hi + 1)]
    out += [['asymmetric', i, j] for i in (-1, 0, 1) for j in (-1, 0, 1)]
    out += [['large', n] for n in (5, 8, 9, 12, 20)]
    out += [['filter', name, t] for name in sorted(MODELS) for t in range(4)]
    out += [['estimator', kind, c, z] for kind in ('joint', 'dual') for c in sorted(est.CIRCUITS) for z in range(16)]
    return out


def run(case, ctx, tier):
    if case[0] == 'matrix':
        _, n, sym, k = case
        for vals in itertools.product(range(-k, k + 1), repeat=n * n):
            m = np.array(vals, dtype=float).reshape(n, n)
            if sym == 'all' or (m == m.T).all():
                matrix(ctx, m)
    elif case[0] == 'symmetric':
        for vals in itertools.product(range(case[2], case[3] + 1), repeat=5):
            v = (case[1],) + vals
            matrix(ctx, np.array([[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]], dtype=float))
    elif case[0] == 'asymmetric':
        for vals in itertools.product((-1, 0, 1), repeat=7):
            matrix(ctx, np.array(list(case[1:]) + list(vals), dtype=float).reshape(3, 3))
    elif case[0] == 'large':
        large(ctx, case[1])
    elif case[0] == 'filter':
        filters(case, ctx, tier)
    else:
        estimators(case, ctx, tier)


def matrix(ctx, m):
    symmetric = bool((m == m.T).all())
    for s in (1., 1e-6, 1e-12, 1e6, 1e12) if symmetric else (1., 1e-4, 1e6):
        a = m * s
        if ctx.state(a):
            ctx.transition()
        given = a.copy()
        x = ensure_positive_semi_definite(a)
        key = f'{m.tolist()} {s}'
        if not np.array_equal(a, given):
            ctx.violation(key, f'the matrix {given.tolist()} was changed to {a.tolist()}')
            return
        if x is a or np.shares_memory(x, a):
            ctx.violation(key, f'the result for {given.tolist()} shares memory with the argument')
            return
        sym = (a + a.T) / 2
        val, vec = np.linalg.eigh(sym)
        best = (vec * np.maximum(val, 0)) @ vec.T
        scale = max(np.abs(a).max(), 1e-300)
        if x.shape != a.shape or not np.all(np.isfinite(x)):
            ctx.violation(key, f'the result for {a.tolist()} is {x.tolist()}')
            return
        if symmetric and val.min() > 1e-9 * scale:
            if not np.array_equal(x, a):
                ctx.violation(key, f'{a.tolist()} is valid but was changed to {x.tolist()}')
        if np.abs(x - x.T).max() > 1e-12 * scale:
            ctx.violation(key, f'the result for {a.tolist()} is not symmetric: {x.tolist()}')
        if np.linalg.eigvalsh((x + x.T) / 2).min() < -1e-12 * scale:
            ctx.violation(key, f'the result for {a.tolist()} is not positive semi-definite: {x.tolist()}')
        if np.abs(x - best).max() > 1e-9 * scale:
            ctx.violation(key, f'the result for {a.tolist()} is {x.tolist()}, closest is {best.tolist()}')
        try:
            np.linalg.cholesky(x)
        except np.linalg.LinAlgError:
            ctx.violation(key, f'the result for {a.tolist()} cannot be factorized: {x.tolist()}')
        ctx.outcome(x)
        if len(ctx.samples) < 1 and val.min() < 0:
            ctx.sample({'matrix': a, 'repaired': x})
        ctx.trace()


def large(ctx, n):
    """Many dimensions: all combinations of a diagonal, correlations with one other or all, and asymmetry"""
    for diagonal, near, far, skew in itertools.product(('ones', 'wide', 'zero first', 'negative last'), (0., .4, 1.), (0., .1, -.3), (0., .5)):
        a = np.diag({'ones': np.ones(n), 'wide': np.logspace(-6, 3, n), 'zero first': np.arange(n) * 1., 'negative last': np.arange(n, 0, -1) - 1.5}[diagonal])
        d = np.sqrt(np.abs(np.diag(a)))
        a += np.outer(d, d) * (far * (1 - np.eye(n)) + near * (np.eye(n, k=1) + np.eye(n, k=-1)) / 2)
        a[0, -1] += skew * d[0] * d[-1]
        matrix(ctx, a)


# State, previous and new control -> state; state and control -> output. All act on rows
MODELS = {
    'constant': (2, 1, lambda x, u, w: np.ones_like(x), lambda x, w: np.full((len(x), 1), 3.)),
    'square': (2, 1, lambda x, u, w: x ** 2 / (1 + np.abs(x)), lambda x, w: (x ** 2).sum(axis=1, keepdims=True)),
    'saturated': (2, 2, lambda x, u, w: np.tanh(x + w), lambda x, w: np.clip(x, -1, 1)),
    'absolute': (1, 1, lambda x, u, w: np.abs(x) + u, lambda x, w: np.abs(x) * 2),
    'sine': (2, 1, lambda x, u, w: x + np.sin(x[:, ::-1]), lambda x, w: np.sin(x[:, :1]) * w),
    'unstable': (2, 2, lambda x, u, w: 10 * x, lambda x, w: x @ [[1., 1.], [0., 2.]] + w),
    'scales': (2, 1, lambda x, u, w: x * [1e-3, 1e3], lambda x, w: x[:, :1] + 1e-6 * x[:, 1:]),
    'product': (3, 1, lambda x, u, w: np.stack([x[:, 0], x[:, 1] * .5, x[:, 0] * x[:, 1]], axis=1), lambda x, w: x[:, :1] * x[:, 1:2] + x[:, 2:]),
}
TUNINGS = [{}, {'alpha_param': 1., 'kappa_param': 2.}, {'beta_param': 0.}, {'kappa_param': 0.5, 'beta_param': 5.}]


class Rows(ModelWrapper):
    def __init__(self, name):
        super().__init__()
        self.n, self.m, self.f, self.h = MODELS[name]

    @property
    def num_hidden_dimensions(self):
        return self.n

    @property
    def num_output_dimensions(self):
        return self.m

    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return np.array(self.f(hidden_states, previous_controls, new_controls), dtype=float)

    def predict_measurement(self, hidden_states, controls):
        return np.array(self.h(hidden_states, controls), dtype=float)


def covariances(n):
    ones, eye = np.ones((n, n)), np.eye(n)
    edge = np.diag([1.] + [0.] * (n - 1))
    wide = np.diag([10. ** (-10 + 14 * i / max(1, n - 1)) for i in range(n)])
    return [eye, np.zeros((n, n)), ones, edge, wide, 1e-14 * eye, 1e6 * (eye + .99 * (ones - eye))]


def filters(case, ctx, tier):
    _, name, t = case
    n, m = MODELS[name][:2]
    for (i, p), j, k in itertools.product(enumerate(covariances(n)), range(5), range(3)):
        q = [.1 * np.eye(n), np.zeros((n, n)), np.ones((n, n)), 1e-12 * np.eye(n), np.diag(np.linspace(0, 1e4, n))][j]
        r = [.1 * np.eye(m), 1e-8 * np.eye(m), 1e5 * (np.eye(m) + .5 * np.ones((m, m)))][k]

        def fresh():
            return UnscentedKalmanFilter(model=Rows(name), initial_hidden=MultivariateGaussian(mean=np.linspace(.5, -1., n), covariance=p),
                                         initial_controls=DeltaDistribution(mean=np.array([.3])), covariance_process_noise=q, covariance_sensor_noise=r,
                                         **TUNINGS[t])
        options = [(DeltaDistribution(mean=np.array([u])), DeltaDistribution(mean=np.full(m, y))) for u, y in ((1., .5), (-2., 40.), (0., -3.))]
        explore(case, ctx, fresh, lambda g, op, t: g.step(new_controls=op[0], measurements=op[1]), options, [i, j, k], 3 if tier == 'quick' else 4,
                max(np.abs(p).max(), 1e-300))
        if ctx.violations:
            return


def estimators(case, ctx, tier):
    _, kind, c, z = case
    zero = [k for i, k in enumerate(('cov_t', 'cov_a', 'q_t', 'q_a')) if z >> i & 1]
    names = {'r0': ['r0.base_values', 'q_t.base_values'], 'rc': ['rc_elements'], 'full': ['r0.base_values', 'h0.base_values']}[c]
    names = ['rc_elements.0.r.base_values', 'rc_elements.0.c.base_values'] if c == 'rc' else names
    options = [(1., 3.7), (-2., 3.3), (0., 3.9)]

    def step(g, op, t):
        return g.step(est.ecm.build_input((10. * t, op[0], 25.)), est.measured(op[1]))

    def fresh():
        return est.build(kind, c, names, (0., .5, 25.), order='blocks', zero=zero, scale=.5)[0]

    explore(case, ctx, fresh, step, options, [], 3 if tier == 'quick' else 4, 1.)


def explore(case, ctx, fresh, step, options, config, depth, scale):
    largest = {(): scale}

    def visit(f, hist, new):
        state, out = step(f, options[hist[-1]], len(hist))
        if not new:
            return True
        ctx.transition()
        where = f'{case} {config} {hist}'
        ctx.state(case, config, hist)
        top = largest[hist[:-1]]
        for what, d in (('state', state), ('predicted output', out)):
            mean, cov = d.get_mean(), d.get_covariance()
            if not (np.all(np.isfinite(mean)) and np.all(np.isfinite(cov))):
                ctx.violation(where, f'{what} is not finite: {mean.tolist()}, {cov.tolist()}')
                return False
            here = max(top, np.abs(cov).max()) if what == 'state' else np.abs(cov).max()
            top = max(top, here)
            if np.abs(cov - cov.T).max() > 1e-9 * here + 1e-8 * (what == 'state'):
                ctx.violation(where, f'covariance of the {what} is not symmetric: {cov.tolist()}')
            low = np.linalg.eigvalsh((cov + cov.T) / 2).min()
            if low < -1e-9 * here:
                ctx.violation(where, f'covariance of the {what} has a negative eigenvalue of {low}: {cov.tolist()}')
            ctx.outcome(mean, cov)
        largest[hist] = top
        if len(hist) == depth:
            ctx.trace()
        return not ctx.violations

    walk(fresh, visit, len(options), depth)
