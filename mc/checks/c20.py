"""Isolation of estimators"""
import copy
import itertools

import numpy as np
from scipy.linalg import block_diag

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.ecm import EquivalentCircuitModel

from .. import est, sims, toy
from .c21 import OPTIONS

LEVEL = 'model_checking'
PAIRS = [('joint', 'joint'), ('dual', 'dual'), ('joint', 'dual')]
WAYS = ['shortcut', 'normalized', 'wrapper', 'degrading']
PROBLEMS = {'rc': ['r0.base_values', 'rc_elements.0.r.base_values', 'ocv.ocv_ref.base_values'], 'full': ['c0.base_values', 'h0.gamma', 'ce'], 'toy': ['a', 'w.k']}
OPS = {'A': 'step the first', 'B': 'step the second', 'M': 'change all that was given or returned', 'P': 'give the first other previous inputs'}
BOUND = {
    'quick': 'pairs of filters, and of joint and/or dual estimators of 2 circuits and a made-up model, made in 4 ways from the very same objects '
             '(states, parameters, inputs, covariances, tunings, wrappers), or from those of another problem; every sequence of 4 of: stepping either one, changing in place all objects which were given or returned, '
             'new previous inputs for the first. All is compared bit by bit with the same estimator run on its own',
    'thorough': 'as quick, every sequence of 6',
}
ASSUMPTIONS = ['wrappers and models given by the user are shared but not changed, as estimators are made of them']


def cases(tier):
    filters = [[['filter', 'filter'], 'filter', c, False] for c in PROBLEMS]
    return filters + [[pair, way, c, other] for pair in PAIRS for way in WAYS for c in PROBLEMS
            for other in ((False, True) if way in ('shortcut', 'degrading') else (False,))]


class Problem:
    """Objects to create estimators from"""

    def __init__(self, c, way):
        self.c, self.way = c, way
        self.names = list(PROBLEMS[c])
        if c == 'toy':
            self.asoh, self.transients, self.inputs = toy.health(self.names), toy.start(), toy.inputs((0., .5, .2))
            self.model, self.cs = toy.Toy(), est.toy_settings(self.names)
            self.deg = est.ToyWear()
        else:
            if way in ('shortcut', 'normalized'):  # In the order of the model
                self.names = [n for n in ('ce', 'ocv.ocv_ref.base_values', 'r0.base_values', 'c0.base_values', 'rc_elements.0.r.base_values', 'h0.gamma')
                              if n in self.names]
            objs = est.objects(c, self.names, (0., .5, 25.))
            self.asoh, self.transients, self.inputs = objs['asoh'], objs['transients'], objs['inputs']
            self.model, self.cs = EquivalentCircuitModel(), est.settings(c, self.names)
            self.deg = sims.Wear(in_place=True)
        self.tuning = {'alpha_param': .5, 'kappa_param': 1.}
        self.dual_tuning = {'transient': self.tuning, 'asoh': {'alpha_param': .7, 'kappa_param': .5, 'beta_param': 1.}}
        self.wrappers = {}
        if way == 'filter':
            self.dists = [MultivariateGaussian(mean=np.concatenate([self.transients.to_numpy()[0], self.asoh.get_parameters(self.names)[0]]),
                                               covariance=block_diag(self.cs['cov_t'], self.cs['cov_a'])), DeltaDistribution(mean=self.inputs.to_numpy()[0])]
            self.cs = {'q': block_diag(self.cs['q_t'], self.cs['q_a']), 'r': self.cs['r']}

    def wrapper(self, cls):
        """Shared between estimators"""
        if cls not in self.wrappers:
            kw = {} if cls is CellModelWrapper else {'asoh_inputs': tuple(self.names)}
            if self.way == 'degrading' and kw:
                kw['degradation_model'] = self.deg
            self.wrappers[cls] = cls(cell_model=self.model, asoh=self.asoh, transients=self.transients, inputs=self.inputs, **kw)
        return self.wrappers[cls]

    def make(self, kind):
        cs = self.cs
        if kind == 'filter':
            return UnscentedKalmanFilter(model=self.wrapper(JointCellModelWrapper), initial_hidden=self.dists[0], initial_controls=self.dists[1],
                                         covariance_process_noise=cs['q'], covariance_sensor_noise=cs['r'], **self.tuning)
        settings = dict(covariance_transient=cs['cov_t'], covariance_asoh=cs['cov_a'], transient_covariance_process_noise=cs['q_t'],
                        asoh_covariance_process_noise=cs['q_a'], covariance_sensor_noise=cs['r'])
        if self.c != 'toy' or self.way != 'shortcut':  # Also without tuning
            settings['filter_args'] = self.tuning if kind == 'joint' else self.dual_tuning
        cls = JointEstimator if kind == 'joint' else DualEstimator
        if self.way in ('shortcut', 'normalized'):
            return cls.initialize_unscented_kalman_filter(cell_model=self.model, initial_asoh=self.asoh, initial_transients=self.transients,
                                                          initial_inputs=self.inputs, normalize_asoh=self.way == 'normalized', **settings)
        if kind == 'joint':
            return cls.initialize_ukf_from_wrapper(joint_wrapper=self.wrapper(JointCellModelWrapper), **settings)
        return cls.initialize_ukf_from_wrappers(transient_wrapper=self.wrapper(CellModelWrapper), asoh_wrapper=self.wrapper(DegradationModelWrapper), **settings)

    def arrays(self):
        """All that was given"""
        more = [self.dists[0].mean, self.dists[0].covariance, self.dists[1].mean] if self.way == 'filter' else []
        return more + list(self.cs.values()) + arrays(self.asoh) + arrays(self.transients) + arrays(self.inputs)

    def snapshot(self):
        return [a.copy() for a in self.arrays()] + [list(self.asoh.updatable_names), copy.deepcopy(self.dual_tuning)]

    def spoil(self):
        spoil(self.arrays())
        self.asoh.mark_all_fixed()
        self.tuning.update(alpha_param=.9, kappa_param=2., beta_param=1.)
        if self.dual_tuning:
            self.dual_tuning.pop('asoh').update(alpha_param=.4, kappa_param=2.)
            self.dual_tuning.clear()


def arrays(obj):
    """Arrays of parameters and containers, to be changed in place"""
    if isinstance(obj, (toy.ToyHealth, est.ecm.ECMASOH)):
        return [v for _, v in obj.iter_parameters(updatable_only=False)]
    return [v for v in (getattr(obj, f) for f in obj.all_fields) if v is not None]


def spoil(values):
    for v in values:
        v *= 1.7
        v += .3


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def given(c, k, hist):
    """Inputs and measurement of step k, from a fixed list"""
    j = (k + hist) % 3
    if c == 'toy':
        (_, i, third), y = toy.OPTIONS[j]
        return toy.inputs((10. * (k + 1), i, third)), toy.output(y)
    _, i, temp, v = OPTIONS[j]
    return est.ecm.build_input((10. * (k + 1), i, temp)), est.measured(v)


def previous(c, k):
    return toy.inputs((10. * k + 2, -1.5, 1.)) if c == 'toy' else est.ecm.build_input((10. * k + 2, -1.5, 31.))


def views(e, got=None):
    """Results as copies, and the objects themselves"""
    if isinstance(e, UnscentedKalmanFilter):
        live = [v for d in got or () for v in (d.mean, d.covariance)]
        return [np.array(v) for v in (*live, e.hidden.mean, e.hidden.covariance)], live
    t, a = e.get_estimated_state()
    s = e.state
    live = [*(v for d in (*(got or ()), s) for v in (d.mean, d.covariance)), *arrays(t), *arrays(a)]
    return [np.array(v) for v in live], live


class Live:
    """An estimator along with all it gave or was given"""

    def __init__(self, problem, kind, phase, ctx, key):
        self.p, self.phase, self.ctx, self.key = problem, phase, ctx, key
        before, self.filter = problem.snapshot(), kind == 'filter'
        self.e = problem.make(kind)
        if not same(before, problem.snapshot()):
            ctx.violation(key, f'creating the estimator changed what it was created from for {key}')
        self.k, self.held = 0, []

    def step(self):
        u, y = given(self.p.c, self.k, self.phase)
        held = arrays(u) + arrays(y)
        if self.filter:
            u, y = (DeltaDistribution(mean=v.to_numpy()[0]) for v in (u, y))
            held = [u.mean, y.mean]
        before = [v.copy() for v in held]
        got = self.e.step(u, y)
        self.k += 1
        if not same(before, held):
            self.ctx.violation(self.key, f'stepping changed its arguments for {self.key}')
        out, live = views(self.e, got)
        self.held += held + live
        return out

    def previous(self):
        u = previous(self.p.c, self.k)
        held = arrays(u)
        if self.filter:
            self.e.controls = DeltaDistribution(mean=u.to_numpy()[0])
            return views(self.e)[0]
        before = [v.copy() for v in held]
        self.e.set_previous_inputs(u)
        if not same(before, held):
            self.ctx.violation(self.key, f'setting previous inputs changed them for {self.key}')
        self.held += held
        return views(self.e)[0]

    def view(self):
        out, live = views(self.e)
        self.held += live
        return out


def run(case, ctx, tier):
    (ka, kb), way, c, other = case
    c2 = {'rc': 'full', 'full': 'toy', 'toy': 'rc'}[c] if other else c
    depth = 4 if tier == 'quick' else 6

    # Each on its own, from objects of its own. All sequences of its operations
    alone = {}

    def solo(which, ops):
        if (which, ops) not in alone:
            kind, name, phase = (ka, c, 0) if which == 'A' else (kb, c2, 1)
            live = Live(Problem(name, way), kind, phase, ctx, f'{case} alone')
            out = live.view()
            for i, op in enumerate(ops):
                out = live.previous() if op == 'P' else live.step()
                alone.setdefault((which, ops[:i + 1]), out)
                ctx.outcome(out)
            alone.setdefault((which, ops), out)
        return alone[which, ops]

    for seq in itertools.product('ABMP', repeat=depth):
        seq = ''.join(seq)
        if not set(seq) & set('BM'):  # Nothing happens in between
            continue
        key = f'{case} {seq}'
        p = Problem(c, way)
        q = Problem(c2, way) if other else p
        a, b = Live(p, ka, 0, ctx, key), Live(q, kb, 1, ctx, key)
        for d, op in enumerate(seq):
            done = seq[:d + 1]
            a_ops, b_ops = ''.join(o for o in done if o in 'AP'), ''.join(o for o in done if o == 'B')
            got = None
            if op == 'A':
                got = a.step()
            elif op == 'P':
                got = a.previous()
            elif op == 'B':
                got = b.step()
            else:
                p.spoil()
                if other:
                    q.spoil()
                for x in (a, b):
                    spoil(x.held)
                    x.held = []
            if got is not None:
                what, which, ops = ('second', 'B', b_ops) if op == 'B' else ('first', 'A', a_ops)
                if not same(got, solo(which, ops)):
                    ctx.violation(key, f'after {done}, the {what} estimator of {case} is different from the same one on its own: {got}, alone {solo(which, ops)}')
            # Neither one is altered by anything
            for which, x, ops in (('A', a, a_ops), ('B', b, b_ops)):
                want = solo(which, ops)
                now = views(x.e)[0]
                if not same(now, want[-len(now):]):
                    ctx.violation(key, f'after {done}, the state of {which} of {case} is {now}, alone {want[-len(now):]}')
            ctx.state(case, done)
            ctx.transition()
            if ctx.violations:
                return
        ctx.trace()
    if len(ctx.samples) < 1:
        ctx.sample({'case': case, 'sequence': seq, 'state': views(a.e)[0][0]})
