"""The unscented filter on linear models"""
import itertools

import numpy as np

from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter

from ..tree import walk
from ..ukfref import Kalman

LEVEL = 'model_checking'
ALPHA = [1., .5, .1, .01, .001]
BETA = [0., 2., 7.]
KAPPA = [0., 'automatic', 1., 10., -.5, 'edge']
BOUND = {
    'quick': f'systems with 1 to 3 states, 1 to 2 outputs and 1 to 2 controls (identity, zero, singular, unstable, rotating and coupled dynamics), 4 '
             f'priors, 5 pairs of noises, every tuning from alpha {ALPHA}, beta {BETA}, kappa {KAPPA} and the defaults, and every '
             'history of 3 steps from 2 control and measurement pairs; every history of 3 steps over 4 sets of options for the model; every refused argument',
    'thorough': 'as quick, every history of 4 steps from 3 pairs',
}
ASSUMPTIONS = ['sensor noise is not zero']


class Linear(ModelWrapper):
    def __init__(self, system, style):
        super().__init__()
        self.s, self.style = system, style

    @property
    def num_hidden_dimensions(self):
        return len(self.s['A'])

    @property
    def num_output_dimensions(self):
        return len(self.s['C'])

    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        s = self.s
        if self.style == 'in place':  # The states may be changed, as they are points made by the filter
            hidden_states[...] = hidden_states @ s['A'].T + s['B0'] @ previous_controls + s['B1'] @ new_controls + s['c']
            return hidden_states
        return hidden_states @ s['A'].T + s['B0'] @ previous_controls + s['B1'] @ new_controls + s['c']

    def predict_measurement(self, hidden_states, controls):
        return hidden_states @ self.s['C'].T + self.s['D'] @ controls + self.s['d']


DYNAMICS = {1: [[[1.]], [[0.]], [[.5]], [[-2.]]],
            2: [[[1., 0.], [0., 1.]], [[0., 0.], [0., 0.]], [[0., -1.], [1., 0.]], [[1., .5], [0., .9]], [[1., 2.], [2., 4.]]],
            3: [np.eye(3).tolist(), [[1., .1, 0.], [0., .9, .2], [.3, 0., -.5]], [[0., 1., 0.], [0., 0., 1.], [0., 0., 0.]]]}
OUTPUTS = {(1, 1): [[[1.]], [[-2.]], [[0.]]], (1, 2): [[[1.], [3.]]], (2, 1): [[[1., 0.]], [[1., -1.]]],
           (2, 2): [[[1., 0.], [0., 1.]], [[1., 2.], [1., 2.]], [[0., 1.], [300., 0.]]], (3, 1): [[[1., 1., 1.]], [[0., 0., 2.]]], (3, 2): [[[1., 0., 1.], [0., 1., 0.]]]}
PRIORS = {1: [[[1.]], [[1e-4]], [[0.]], [[50.]]], 2: [[[1., 0.], [0., 4.]], [[1., .9], [.9, 1.]], [[1., 1.], [1., 1.]], [[1e-4, 0.], [0., 10.]]],
          3: [np.diag([1., 2., 3.]).tolist(), [[1., .5, .2], [.5, 2., -.3], [.2, -.3, .5]], [[1., 1., 0.], [1., 1., 0.], [0., 0., 0.]],
              np.diag([1e-3, 1., 10.]).tolist()]}


def noises(n, m):
    corr = np.eye(n) + .4 * (np.ones((n, n)) - np.eye(n))
    corr_r = np.eye(m) + .5 * (np.ones((m, m)) - np.eye(m))
    return [(.1 * np.eye(n), .5 * np.eye(m)), (np.zeros((n, n)), .1 * np.eye(m)), (corr, corr_r), (1e-4 * np.eye(n), 20. * corr_r), (None, None)]


def system(n, m, p, a, c):
    grid = np.arange(n * p, dtype=float).reshape(n, p)
    return {'A': np.array(DYNAMICS[n][a]), 'B0': .5 - .25 * grid, 'B1': .1 + .2 * grid, 'c': np.linspace(-.1, .2, n), 'C': np.array(OUTPUTS[n, m][c]),
            'D': .3 - .1 * np.arange(m * p, dtype=float).reshape(m, p), 'd': np.linspace(.5, 1., m)}


def cases(tier):
    out = [['refuse'], ['aliased'], ['keywords']]
    for n, m, p in itertools.product((1, 2, 3), (1, 2), (1, 2)):
        for a, c in itertools.product(range(len(DYNAMICS[n])), range(len(OUTPUTS[n, m]))):
            if p == 2 and (c or a == 1):
                continue
            out.append(['filter', n, m, p, a, c])
    return out


def run(case, ctx, tier):
    if case[0] == 'refuse':
        return refuse(ctx)
    if case[0] == 'aliased':
        return aliased(ctx)
    if case[0] == 'keywords':
        return keywords(ctx)
    _, n, m, p, a, c = case
    s = system(n, m, p, a, c)
    size = 2 * n + m
    for (i, prior), (j, (q, r)) in itertools.product(enumerate(PRIORS[n]), enumerate(noises(n, m))):
        if i >= 2 and j >= 2 and tier == 'quick' and (i + j) % 2:
            continue
        for k, (alpha, beta, kappa) in enumerate([(None, None, None)] + list(itertools.product(ALPHA, BETA, KAPPA))):
            if q is None and alpha not in (None, 1.):  # Noises of 1e-8 are lost in the round-off if points are close together
                continue
            if tier == 'quick' and (k + 2 * i + j + a + c) % (8 if i and j else 3):  # Every tuning with some prior, noise and system
                continue
            tuning = {} if alpha is None else {'alpha_param': alpha, 'beta_param': beta, 'kappa_param': -size + .5 if kappa == 'edge' else kappa}
            noise = {} if q is None else {'covariance_process_noise': q.copy(), 'covariance_sensor_noise': r.copy()}
            style = 'in place' if (i + j) % 2 else 'fresh'
            mean = np.arange(1., n + 1)

            def fresh():
                return UnscentedKalmanFilter(model=Linear(s, style), initial_hidden=MultivariateGaussian(mean=mean, covariance=np.array(prior)),
                                             initial_controls=DeltaDistribution(mean=np.linspace(.2, .4, p)), **tuning, **noise)
            ref = Kalman(s, mean, prior, 1e-8 * np.eye(n) if q is None else q, 1e-8 * np.eye(m) if r is None else r, np.linspace(.2, .4, p))
            # The default noise of 1e-8 is close to round-off. Differences of points lose digits as their distance shrinks
            tol = {None: 1e-8, 1.: 1e-8, .5: 1e-8, .1: 1e-8, .01: 1e-7, .001: 1e-5}[alpha]
            if q is None:
                tol = 1e-5
            explore(case, ctx, fresh, ref, [i, j, alpha, beta, kappa], tol, n, m, p, 1 if q is None else (3 if tier == 'quick' else 4))
            ctx.trace()
            if ctx.violations:
                return


def explore(case, ctx, fresh, ref, config, tol, n, m, p, depth):
    options = [(np.linspace(1., 2., p), np.linspace(.5, -1., m)), (np.linspace(-3., .5, p), np.linspace(400., -500., m)), (np.zeros(p), np.full(m, -20.))]
    known = {(): (ref, None, 1.)}

    def step(f, hist, new):
        if hist[:-1] not in known:
            return True
        u, y = options[hist[-1]]
        if len(hist) == 2 and hist[-1] == 0:  # Only the mean of the controls matters
            controls = MultivariateGaussian(mean=u, covariance=np.eye(p))
        else:
            controls = DeltaDistribution(mean=u)
        if new:
            g = known[hist[:-1]][0].copy()
            want = g.step(u, y)
            # Round-off grows with the condition of the matrix which is inverted
            cond = np.linalg.cond(want[1])
            if cond > 1e7:
                ctx.count('ill_conditioned')
                return True
            known[hist] = (g, want, max(cond, known[hist[:-1]][2]))
        elif hist not in known:
            return True
        state, out = f.step(new_controls=controls, measurements=DeltaDistribution(mean=y))
        if not new:
            return True
        g, want, worst = known[hist]
        here = max(tol, 1e-11 * worst)
        key = f'{case} {config} {hist}'
        what = f'after step {len(hist)} of {case}, prior and noise {config[:2]}, tuning {config[2:]}'
        scale = max(1., float(np.abs(g.cov).max()), float(np.abs(want[1]).max()), float(np.abs(g.mean).max()))
        ok = ctx.close(key, f'mean {what}', state.get_mean(), g.mean, rtol=here, atol=here * scale)
        ok &= ctx.close(key, f'covariance {what}', state.get_covariance(), g.cov, rtol=here, atol=here * scale)
        ok &= ctx.close(key, f'predicted output {what}', out.get_mean(), want[0], rtol=here, atol=here * scale)
        ok &= ctx.close(key, f'covariance of the predicted output {what}', out.get_covariance(), want[1], rtol=here, atol=here * scale)
        ok &= ctx.close(key, f'stored mean {what}', f.hidden.get_mean(), state.get_mean(), rtol=0, atol=0)
        ok &= ctx.close(key, f'stored covariance {what}', f.hidden.get_covariance(), state.get_covariance(), rtol=0, atol=0)
        ctx.transition()
        ctx.state(case, config, hist)
        ctx.outcome(g.mean, g.cov)
        if len(hist) == 2 and len(ctx.samples) < 2:
            ctx.sample({'case': case, 'config': config, 'mean': state.get_mean(), 'covariance': state.get_covariance()})
        return ok

    walk(fresh, step, 2 if depth <= 3 else 3, depth)


def make(n=2, m=1, p=1, hidden=None, **kw):
    s = system(n, m, p, 0, 0)
    hidden = hidden or n
    return UnscentedKalmanFilter(model=Linear(s, 'fresh'), initial_hidden=MultivariateGaussian(mean=np.zeros(hidden), covariance=np.eye(hidden)),
                                 initial_controls=DeltaDistribution(mean=np.zeros(p)), **kw)


def refuse(ctx):
    """Inadmissible tuning and dimensions"""
    for n, m in itertools.product((1, 2, 3), (1, 2)):
        size = 2 * n + m
        bad = [{'alpha_param': v} for v in (0., .0009, 1.0001, -1., 2.)] + [{'beta_param': v} for v in (-1e-3, -2.)]
        bad += [{'kappa_param': v} for v in (-size, -size - .5, -100.)]
        bad += [{'hidden': n + 1}, {'covariance_process_noise': np.eye(n + 1)}, {'covariance_sensor_noise': np.eye(m + 1)},
                {'covariance_process_noise': np.ones((n, n + 1))}, {'covariance_process_noise': np.ones((n + 1, n))},
                {'covariance_sensor_noise': np.ones((m, m + 1))}, {'covariance_sensor_noise': np.ones((m + 1, m))}]
        for kw in bad:
            ctx.transition()
            ctx.state('refuse', n, m, str(kw))
            try:
                make(n, m, **kw)
            except (AssertionError, ValueError):
                ctx.outcome('refused', str(kw))
                continue
            ctx.violation(f'accepted {kw} {n} {m}', f'{kw} was accepted for {n} states and {m} outputs')
        good = [{'alpha_param': v} for v in (.001, 1.)] + [{'beta_param': 0.}, {'kappa_param': -size + 1e-3}, {'kappa_param': 'automatic'}]
        for kw in good:
            ctx.transition()
            f = make(n, m, **kw)
            f.step(DeltaDistribution(mean=np.ones(1)), DeltaDistribution(mean=np.ones(m)))
            ctx.outcome('accepted', str(kw))
    ctx.trace()


class Same(Linear):
    """Predicts the states themselves, without making a copy"""

    def predict_measurement(self, hidden_states, controls):
        return hidden_states


def aliased(ctx):
    s = {'A': np.eye(1), 'B0': np.zeros((1, 1)), 'B1': np.zeros((1, 1)), 'c': np.zeros(1), 'C': np.eye(1), 'D': np.zeros((1, 1)), 'd': np.zeros(1)}
    f = UnscentedKalmanFilter(model=Same(s, 'fresh'), initial_hidden=MultivariateGaussian(mean=np.zeros(1), covariance=np.eye(1)),
                              initial_controls=DeltaDistribution(mean=np.zeros(1)), covariance_process_noise=np.array([[.1]]),
                              covariance_sensor_noise=np.array([[.5]]))
    state, _ = f.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=np.ones(1)))
    ctx.transition()
    ctx.state('aliased')
    got = [state.get_mean()[0], state.get_covariance()[0, 0]]
    if not np.allclose(got, [.6875, .34375]):
        ctx.violation('prediction-is-hidden-array', f'mean and variance are {got} instead of 0.6875, 0.34375 if a model returns the states it was given '
                                                    'as the prediction (prior N(0, 1), Q=0.1, R=0.5, y=1)')
    ctx.trace()


class Keyed(Linear):
    """Dynamics and outputs depend on options of the step"""

    def __init__(self, system, style):
        super().__init__(system, style)
        self.log = []

    def update_hidden_states(self, hidden_states, previous_controls, new_controls, push=0., gain=1.):
        self.log.append(('update', push, gain))
        return super().update_hidden_states(hidden_states, previous_controls, new_controls) + push

    def predict_measurement(self, hidden_states, controls, push=0., gain=1.):
        self.log.append(('predict', push, gain))
        return gain * super().predict_measurement(hidden_states, controls)


def keywords(ctx):
    """Options of a step reach the model, and only that step"""
    options = [{}, {'push': 1.5}, {'gain': -2.}, {'push': -.5, 'gain': 3.}]
    s = system(2, 1, 1, 3, 1)
    q, r = .1 * np.eye(2), .5 * np.eye(1)

    def fresh():
        return UnscentedKalmanFilter(model=Keyed(s, 'fresh'), initial_hidden=MultivariateGaussian(mean=np.array([1., 2.]), covariance=np.eye(2)),
                                     initial_controls=DeltaDistribution(mean=np.zeros(1)), covariance_process_noise=q, covariance_sensor_noise=r)
    for hist in itertools.product(range(len(options)), repeat=3):
        f = fresh()
        ref = Kalman(s, np.array([1., 2.]), np.eye(2), q, r, np.zeros(1))
        for k, i in enumerate(hist):
            push, gain = options[i].get('push', 0.), options[i].get('gain', 1.)
            ref.s = {**s, 'c': s['c'] + push, 'C': gain * s['C'], 'D': gain * s['D'], 'd': gain * s['d']}
            y = np.array([.5 + k])
            want = ref.step(np.ones(1), y)
            state, out = f.step(DeltaDistribution(mean=np.ones(1)), DeltaDistribution(mean=y), **options[i])
            key = f'keywords {hist} {k}'
            ctx.close(key, f'mean after steps with options {hist}', state.get_mean(), ref.mean, rtol=1e-8, atol=1e-8)
            ctx.close(key, f'covariance after steps with options {hist}', state.get_covariance(), ref.cov, rtol=1e-8, atol=1e-8)
            ctx.close(key, f'predicted output after steps with options {hist}', out.get_mean(), want[0], rtol=1e-8, atol=1e-8)
            ctx.transition()
            ctx.state('keywords', hist[:k + 1])
        ctx.outcome(ref.mean)
        ctx.trace()
