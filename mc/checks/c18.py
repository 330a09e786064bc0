"""Estimates do not depend on the coordinates of the filter"""
import itertools

import numpy as np

from moirae.estimators.online.filters.conversions import IdentityConversionOperator, LinearConversionOperator

from .. import est, toy
from ..tree import walk
from .c21 import OPTIONS, SETS, TOY

LEVEL = 'model_checking'
# The points used by a filter follow from the lower root of the covariance. They are the same if it is multiplied by a lower triangular matrix (that is, an upper
# one on the right of a row of values) with a positive diagonal, or if all dimensions are scaled, possibly with a negative factor
HIDDEN = ['none', 'identity', 'number', 'negative number', 'scales', 'signed scales', 'shift', 'scales and shift', 'triangular']
CONTROL = ['none', 'scales', 'signed scales and shift', 'matrix']
OUTPUT = ['none', 'scale', 'negative scale and shift']
BOUND = {
    'quick': f'joint and dual estimators of circuits of 2 to 5 states and a made-up model with several outputs, {sum(map(len, SETS.values())) + len(TOY)} sets of parameters, constant and linear '
             'current; '
             f'{len(HIDDEN)} conversions of the hidden states x {len(CONTROL)} of the inputs x {len(OUTPUT)} of the outputs (different ones for the two filters of a dual estimator): '
             'all histories of 2 steps from 2 inputs and measurements; normalized health parameters: all histories of 3 steps from 3; previous inputs replaced once',
    'thorough': 'as quick, one more step, both currents, and every pair of hidden conversions for dual estimators',
}
ASSUMPTIONS = ['the order of dimensions is kept, that is, conversions which mix hidden states are triangular, as the points of a filter depend on the order']


def hidden(kind, sd):
    n = len(sd)
    k = np.arange(n)
    scales = np.array([.01, 3., .5, 20., 1.5, .2, 7.])[k % 7] * (1 + .1 * k)
    shift = np.array([.5, -1., 2., .1])[k % 4]
    if kind == 'none':
        return None
    if kind == 'identity':
        return IdentityConversionOperator()
    multi, add = {
        'number': (np.array(.25), None),
        'negative number': (np.array(-4.), None),
        'scales': (scales, None),
        'signed scales': (scales * (-1.) ** k, None),
        'shift': (None, shift),
        'scales and shift': (scales * (-1.) ** (k // 2), shift),
        'triangular': ((np.triu(.3 * np.ones((n, n)), 1) + np.diag(1 + .5 * k)) * sd, shift[:1] if n % 2 else shift),  # Of the size of the uncertainties
    }[kind]
    return LinearConversionOperator(**({} if multi is None else {'multiplicative_array': multi}), **({} if add is None else {'additive_array': add}))


def control(kind, n):
    if kind == 'none':
        return None
    if kind == 'scales':
        return LinearConversionOperator(multiplicative_array=np.array([100., .5, 25.])[:n])
    if kind == 'signed scales and shift':
        return LinearConversionOperator(multiplicative_array=np.array([60., -2., 10.])[:n], additive_array=np.array([5., .5, -20.])[:n])
    return LinearConversionOperator(multiplicative_array=np.array([[2., 0., 1.], [1., -1., 0.], [0., .5, 3.]])[:n, :n], additive_array=np.array([1.]))


def output(kind, n=1):
    if kind == 'none':
        return None
    if n > 1:
        return LinearConversionOperator(**({'multiplicative_array': np.array([4.2, .1, -3.])} if kind == 'scale' else {
            'multiplicative_array': np.array([[2., 0., 1.], [1., -1., 0.], [0., .5, 3.]]), 'additive_array': np.array([1., -2., .5])}))
    if kind == 'scale':
        return LinearConversionOperator(multiplicative_array=np.array([4.2]))
    return LinearConversionOperator(multiplicative_array=np.array(-.5), additive_array=np.array([3.]))


def converters(h, sd, c, n_controls, o, n_outputs=1):
    out = {'hidden_conversion_operator': hidden(h, sd), 'control_conversion_operator': control(c, n_controls), 'output_conversion_operator': output(o, n_outputs)}
    return {k: v for k, v in out.items() if v is not None}


def cases(tier):
    out = []
    for kind, c in itertools.product(('joint', 'dual'), SETS):
        for k in range(len(SETS[c])):
            if kind == 'dual' and not SETS[c][k]:
                continue
            for behavior in ('constant', 'linear'):
                if SETS[c][k]:
                    out.append(['normalize', kind, c, k, behavior])
                if tier == 'thorough' or (behavior == 'constant') == (k % 2 == 0):
                    out += [['convert', kind, c, k, behavior, h] for h in range(len(HIDDEN))]
    out += [['toy', kind, k, h] for kind in ('joint', 'dual') for k in range(len(TOY)) for h in range(-1, len(HIDDEN))]  # -1: normalize
    return out


def run_toy(case, ctx, tier):
    _, kind, k, h = case
    names, first = TOY[k], (0., .5, .2)
    cs = est.toy_settings(names)
    sd_t, sd_a = np.sqrt(np.diag(cs['cov_t'])), np.sqrt(np.diag(cs['cov_a']))
    if h < 0:
        names = sorted(names, key=list(toy.HEALTH).index)
        return explore(case, ctx, lambda: est.build_toy(kind, names, first, wrap=False, normalize=True), kind, TOY_STEPS, 3, 3 if tier == 'quick' else 4)
    for (i, con), (j, o) in itertools.product(enumerate(CONTROL), enumerate(OUTPUT)):
        degrade = bool((h + i) % 2)
        if kind == 'joint':
            convert = converters(HIDDEN[h], np.concatenate([sd_t, sd_a]), con, 3, o, 3)
        else:
            convert = (converters(HIDDEN[h], sd_t, con, 3, o, 3),
                       converters(HIDDEN[(h + 4) % len(HIDDEN)], sd_a, CONTROL[(i + 1) % len(CONTROL)], 3, OUTPUT[(j + 2) % len(OUTPUT)], 3))
        explore(case + [con, o, degrade], ctx, lambda: est.build_toy(kind, names, first, degrade, convert=convert), kind, TOY_STEPS, 2, 2 if tier == 'quick' else 3)
        if ctx.violations:
            return


TOY_STEPS = [(*u, y) for u, y in toy.OPTIONS], toy.inputs, toy.output


def run(case, ctx, tier):
    if case[0] == 'toy':
        return run_toy(case, ctx, tier)
    what, kind, c, k, behavior = case[:5]
    names = SETS[c][k]
    if what == 'normalize':
        for order, temp in itertools.product(('joint', 'blocks') if kind == 'joint' else ('blocks',), (25., None)):
            explore(case + [order, temp], ctx, lambda: est.build(kind, c, names, (0., .5, temp), behavior, normalize=True, order=order), kind, circuit_steps(temp), 3,
                    3 if tier == 'quick' else 4)
        return
    cs = est.settings(c, names)
    sd_t, sd_a = np.sqrt(np.diag(cs['cov_t'])), np.sqrt(np.diag(cs['cov_a']))
    h = case[5]
    others = range(len(HIDDEN)) if kind == 'dual' and tier == 'thorough' else [(h + 4) % len(HIDDEN)]
    for (i, con), (j, o), other in itertools.product(enumerate(CONTROL), enumerate(OUTPUT), others):
        # For dual estimators, the filters of health have different conversions
        temp = None if (h + i + j) % 4 == 3 else 25.
        n = 2 if temp is None else 3
        for degrade in (bool((h + i + other) % 2),):
            if kind == 'joint':
                convert = converters(HIDDEN[h], np.concatenate([sd_t, sd_a]), con, n, o)
            else:
                convert = (converters(HIDDEN[h], sd_t, con, n, o), converters(HIDDEN[other], sd_a, CONTROL[(i + 1) % len(CONTROL)], n, OUTPUT[(j + 2) % len(OUTPUT)]))
            explore(case + [con, o, other if kind == 'dual' else None, temp, degrade], ctx,
                    lambda: est.build(kind, c, names, (0., .5, temp), behavior, degrade, wrap=True, convert=convert,
                                      order='blocks' if (i + j) % 2 or kind == 'dual' else 'joint'), kind, circuit_steps(temp), 2, 2 if tier == 'quick' else 3)
            if ctx.violations:
                return


def circuit_steps(temp):
    return [(dt, i, None if temp is None else t, v) for dt, i, t, v in OPTIONS], est.ecm.build_input, est.measured


def explore(config, ctx, build, kind, steps, n_options, depth):
    options, make_inputs, make_output = steps
    e, ref = build()
    initial(ctx, config, kind, e, ref)
    known = {(): ref}

    def step(e, hist, new):
        t = sum(options[k][0] for k in hist)
        _, i, third, v = options[hist[-1]]
        u = (t, i, third)
        before = (t - 3., -1.5, None if third is None else third + 4.)
        reset = len(hist) == 2 and hist[-1] == 0
        if reset:
            e.set_previous_inputs(make_inputs(before))
        got = e.step(make_inputs(u), make_output(v))
        if not new:
            return True
        ref = known[hist[:-1]].copy()
        if reset:
            ref.previous(before)
        want = ref.step(u, v)
        known[hist] = ref
        ctx.transition()
        ctx.state(config, hist)
        ctx.outcome(*want)
        if len(hist) == depth:
            ctx.trace()
            if len(ctx.samples) < 1:
                ctx.sample({'config': config, 'history': hist, 'mean': got[0].get_mean(), 'output': got[1].get_mean()})
        what = f'after step {len(hist)} of {hist} for {config}'
        ok = est.compare(ctx, f'{config} {hist}', what, e, got, want)
        # The estimator reports the same state
        mean, cov = want[:2]
        sd = np.sqrt(np.diag(cov)) + 1e-12
        ok &= est.within(ctx, f'{config} {hist}', f'mean of the estimator {what}', e.state.get_mean(), mean, 1e-6, 1e-6 * sd)
        ok &= est.within(ctx, f'{config} {hist}', f'covariance of the estimator {what}', e.state.get_covariance(), cov, 1e-6, 1e-6 * np.outer(sd, sd))
        return ok

    walk(lambda: build()[0], step, n_options, depth)


def initial(ctx, config, kind, e, ref):
    """Before any step"""
    if kind == 'joint':
        mean, cov = ref.ukf.mean, ref.ukf.cov
    else:
        n, k = len(ref.t.mean), len(ref.a.mean)
        mean, cov = np.concatenate([ref.t.mean, ref.a.mean]), np.zeros((n + k, n + k))
        cov[:n, :n], cov[n:, n:] = ref.t.cov, ref.a.cov
    sd = np.sqrt(np.diag(cov)) + 1e-12
    est.within(ctx, f'{config} initial', f'mean before any step for {config}', e.state.get_mean(), mean, 1e-6, 1e-6 * sd)
    est.within(ctx, f'{config} initial', f'covariance before any step for {config}', e.state.get_covariance(), cov, 1e-6, 1e-6 * np.outer(sd, sd))
