"""Names, state and estimated objects of estimators"""
import itertools
import re

import numpy as np

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.ecm import EquivalentCircuitModel

from .. import est, toy
from ..tree import walk
from .c18 import converters
from .c21 import OPTIONS, SETS, TOY

LEVEL = 'model_checking'
ROUTES = ['shortcut', 'normalized', 'wrapper', 'converted', 'degrading', 'filter']
BOUND = {
    'quick': f'joint and dual estimators of 3 circuits and a made-up model with lists of states and several outputs, {sum(map(len, SETS.values())) + len(TOY)} lists of parameters '
             '(in the order of the model and reversed), made in 6 ways (directly, with normalization, from wrappers, with conversions, with degradation of all parameters, '
             'from filters which start elsewhere), inputs with and without temperature; all histories of 3 steps from 3 options, '
             'looked at after each step or only at the end',
    'thorough': 'as quick, 4 steps',
}
ASSUMPTIONS = []
ALL = {c: [n for n in ('q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'ocv.ocv_ref.reference_temperature', 'ocv.ocv_ent.base_values', 'r0.base_values',
                       'r0.temperature_dependence_factor', 'h0.base_values', 'h0.gamma')]
       + [f'rc_elements.{i}.{f}' for i in range(len(est.CIRCUITS[c]['rc'])) for f in ('r.base_values', 'r.temperature_dependence_factor', 'c.base_values')]
       + (['c0.base_values'] if est.CIRCUITS[c]['c0'] is not None else []) for c in est.CIRCUITS}
ALL['toy'] = list(toy.HEALTH)


def cases(tier):
    out = []
    for kind, route in itertools.product(('joint', 'dual'), ROUTES):
        for c in [*SETS, 'toy']:
            for k, names in enumerate(SETS.get(c, TOY)):
                if not names and (kind == 'dual' or route in ('shortcut', 'normalized')):
                    continue
                for rev in (False, True):
                    if rev and (len(names) < 2 or route in ('shortcut', 'normalized')):
                        continue
                    out.append([kind, route, c, k, rev])
    return out


def get(obj, name):
    """Value of what a name stands for, found by following the attributes"""
    name, index = re.fullmatch(r'(.*?)(?:\[(\d+)\])?', name).groups()
    for p in name.split('.'):
        obj = obj[int(p)] if p.isdigit() else getattr(obj, p)
    if index is None:
        assert obj.shape == (1, 1), f'{name} has shape {obj.shape}'
        return obj[0, 0]
    assert len(obj) == 1, f'{name} is batched'
    return obj[0, int(index)]


def setup(case, temp):
    """Makes the estimator. Also: names of parameters, mean and covariance"""
    kind, route, c, k, rev = case
    names = list(SETS.get(c, TOY)[k])
    if rev:
        names = names[::-1]
    first = (0., .5, temp)
    degrade = route == 'degrading'
    if c == 'toy':
        cs, x0, h0 = est.toy_settings(names), toy.START, toy.read(toy.HEALTH, names)
        if route in ('shortcut', 'normalized'):
            names = sorted(names, key=list(toy.HEALTH).index)
            cs, h0 = est.toy_settings(names), toy.read(toy.HEALTH, names)
    else:
        m = est.member(c)
        cs, x0, h0 = est.settings(c, names), est.ecmref.vector(est.state(c)), est.read(m, names)
    n, size = len(x0), len(x0) + len(h0)
    cov = np.zeros((size, size))
    cov[:n, :n], cov[n:, n:] = cs['cov_t'], cs['cov_a']
    mean = np.array(x0 + h0)
    sd_t, sd_a = np.sqrt(np.diag(cs['cov_t'])), np.sqrt(np.diag(cs['cov_a']))
    n_in = 3 if temp is not None else 2
    convert = None
    if route == 'converted':
        convert = converters('scales and shift', np.concatenate([sd_t, sd_a]), 'scales', n_in, 'none') if kind == 'joint' else \
            (converters('shift', sd_t, 'scales', n_in, 'none'), converters('scales and shift', sd_a, 'matrix', n_in, 'none'))
    if route == 'filter':
        mean = mean + .1 * np.concatenate([sd_t, sd_a])
        return (lambda: by_hand(kind, c, names, first, mean, cs)), names, mean, cov
    if c == 'toy':
        return (lambda: est.build_toy(kind, names, first, degrade, route not in ('shortcut', 'normalized'), convert, route == 'normalized')[0]), names, mean, cov
    return (lambda: est.build(kind, c, names, first, 'constant', degrade, route not in ('shortcut', 'normalized'), convert, route == 'normalized',
                              order='blocks')[0]), names, mean, cov


def by_hand(kind, c, names, first, mean, cs):
    """From filters which start elsewhere than the objects of the wrapper"""
    if c == 'toy':
        cell, objs = toy.Toy(), {'asoh': toy.health(), 'transients': toy.start(), 'inputs': toy.inputs(first)}
    else:
        cell, objs = EquivalentCircuitModel(), est.objects(c, names, first)
        objs.pop('cell_model')
    n = len(cs['cov_t'])
    size = len(mean)
    u = DeltaDistribution(mean=np.array(est.flat(first)))
    if kind == 'joint':
        cov, q = np.zeros((size, size)), np.zeros((size, size))
        cov[:n, :n], cov[n:, n:], q[:n, :n], q[n:, n:] = cs['cov_t'], cs['cov_a'], cs['q_t'], cs['q_a']
        w = JointCellModelWrapper(cell_model=cell, asoh_inputs=tuple(names), **objs)
        return JointEstimator(UnscentedKalmanFilter(model=w, initial_hidden=MultivariateGaussian(mean=mean, covariance=cov), initial_controls=u,
                                                    covariance_process_noise=q, covariance_sensor_noise=cs['r']))
    w = CellModelWrapper(cell_model=cell, **objs)
    d = DegradationModelWrapper(cell_model=cell, asoh_inputs=tuple(names), **objs)
    return DualEstimator(
        transient_filter=UnscentedKalmanFilter(model=w, initial_hidden=MultivariateGaussian(mean=mean[:n], covariance=cs['cov_t']), initial_controls=u,
                                               covariance_process_noise=cs['q_t'], covariance_sensor_noise=cs['r']),
        asoh_filter=UnscentedKalmanFilter(model=d, initial_hidden=MultivariateGaussian(mean=mean[n:], covariance=cs['cov_a']), initial_controls=u,
                                          covariance_process_noise=cs['q_a'], covariance_sensor_noise=cs['r']))


def run(case, ctx, tier):
    for temp, eager in itertools.product((25., None) if case[2] != 'toy' else (.5,), (True, False)):
        explore(case, ctx, temp, eager, 3 if tier == 'quick' else 4)
        if ctx.violations:
            return


def explore(case, ctx, temp, eager, depth):
    kind, route, c, k, rev = case
    make, names, mean0, cov0 = setup(case, temp)
    config = case + [temp, eager]
    if c == 'toy':
        trans, expanded, out_names, in_names = toy.STATE_NAMES, toy.labels(names), toy.OUTPUT_NAMES, toy.CONTROL_NAMES
        initial = toy.health()
    else:
        m = est.member(c)
        trans, expanded, out_names = est.trans_names(m), est.labels(m, names), ['terminal_voltage']
        in_names = ['time', 'current'] + ([] if temp is None else ['temperature'])
        initial = est.asoh_object(m, names)
    labels = trans + expanded
    sd0 = np.sqrt(np.diag(cov0))

    def look(e, what, mean, cov):
        """All views at one point"""
        key = f'{config} {what}'
        ctx.equal(key, f'names of states {what}', list(e.state_names), labels)
        ctx.equal(key, f'number of dimensions {what}', e.num_state_dimensions, len(labels))
        ctx.equal(key, f'names of outputs {what}', list(e.output_names), out_names)
        ctx.equal(key, f'number of outputs {what}', e.num_output_dimensions, len(out_names))
        ctx.equal(key, f'names of inputs {what}', list(e.control_names), in_names)
        for _ in range(2):  # Looking changes nothing
            state = e.state
            ctx.equal(key, f'dimensions of the state {what}', state.num_dimensions, len(labels))
            sd = np.sqrt(np.diag(cov))
            est.within(ctx, key, f'mean of the state {what}', state.get_mean(), mean, 1e-8, 1e-8 * sd)
            est.within(ctx, key, f'covariance of the state {what}', state.get_covariance(), cov, 1e-8, 1e-8 * np.outer(sd, sd))
            t, a = e.get_estimated_state()
            ctx.equal(key, f'batch sizes {what}', (t.batch_size, a.batch_size), (1, 1))
            got = [get(t if i < len(trans) else a, n) for i, n in enumerate(labels)]
            est.within(ctx, key, f'values of {labels} in the estimated objects {what}', got, mean, 1e-8, 1e-8 * sd)
            est.within(ctx, key, f'vector of the estimated states {what}', t.to_numpy(), [mean[:len(trans)]], 1e-8, 1e-8 * sd[:len(trans)])
            if expanded:
                est.within(ctx, key, f'estimated parameters {what}', a.get_parameters(names), [mean[len(trans):]], 1e-8, 1e-8 * sd[len(trans):])
            for n in ALL[c]:
                if n not in names:
                    holder, want = a, initial
                    for p in n.split('.'):
                        holder, want = (holder[int(p)], want[int(p)]) if p.isdigit() else (getattr(holder, p), getattr(want, p))
                    if holder.shape != want.shape or not np.array_equal(holder, want):
                        ctx.violation(key, f'{n}, which is not estimated, {what}: got {holder.tolist()}, given {want.tolist()}')
        return not ctx.violations

    def fresh():
        e = make()
        if eager:
            look(e, f'before any step for {config}', mean0, cov0)
        return e

    def step(e, hist, new):
        if c == 'toy':
            (_, i, third), y = toy.OPTIONS[hist[-1]]
            u = toy.inputs((sum(toy.OPTIONS[j][0][0] for j in hist), i, third))
            got = e.step(u, toy.output(y))
        else:
            _, i, temperature, v = OPTIONS[hist[-1]]
            got = e.step(est.ecm.build_input((sum(OPTIONS[j][0] for j in hist), i, None if temp is None else temperature)), est.measured(v))
        if not new and eager:
            return True
        state, out = got
        what = f'after step {len(hist)} of {hist} for {config}'
        if not eager and len(hist) < depth:
            return True
        ctx.transition()
        ctx.state(config, hist)
        ctx.outcome(state.get_mean())
        ctx.equal(f'{config} {hist}', f'dimensions of the output {what}', (out.num_dimensions, out.get_covariance().shape), (len(out_names), (len(out_names),) * 2))
        ctx.equal(f'{config} {hist}', f'dimensions of the returned state {what}', (state.num_dimensions, state.get_covariance().shape), (len(labels), (len(labels),) * 2))
        ok = look(e, what, state.get_mean(), state.get_covariance())
        if len(hist) == depth:
            ctx.trace()
            if len(ctx.samples) < 1:
                ctx.sample({'config': config, 'history': hist, 'names': labels, 'mean': state.get_mean()})
            if ok and np.all(np.abs(state.get_mean() - mean0) <= 1e-9 * sd0):
                ctx.count('unchanged')  # The estimates should be different from the initial ones, or this would show nothing
        return ok

    walk(fresh, step, 3, depth)
