"""Joint estimation is the unscented filter over states and parameters"""
import itertools

from .. import est, toy
from ..tree import walk

LEVEL = 'model_checking'
# In the order of the model
SETS = {'r0': [['r0.base_values'], ['q_t.base_values', 'r0.base_values'], ['ocv.ocv_ref.base_values'], []],
        'rc': [['r0.base_values', 'rc_elements.0.r.base_values', 'rc_elements.0.c.base_values'],
               ['ocv.ocv_ref.reference_temperature', 'ocv.ocv_ent.base_values', 'r0.temperature_dependence_factor']],
        'full': [['r0.base_values', 'rc_elements.1.r.base_values', 'h0.base_values', 'h0.gamma'], ['ce', 'c0.base_values', 'rc_elements.0.c.base_values'],
                 ['q_t.base_values']]}
TOY = [['a', 'w.k', 'c'], ['w.k'], ['c', 'w.s', 'a'], ['w.s', 'w.k']]
TUNE = [{}, {'alpha': .5, 'beta': 0., 'kappa': 1.}, {'kappa': 'automatic'}, {'alpha': .1, 'beta': 2., 'kappa': 5.}]
OPTIONS = [(10., 1., 25., 3.7), (30., -2., 40., 3.3), (5., 0., 10., 3.9)]
BOUND = {
    'quick': f'circuits of 2 to 5 states, {sum(map(len, SETS.values()))} sets of estimated parameters (in the order of the model or reversed), both current '
             f'behaviors, with and without degradation, 4 tunings, covariances given jointly or as blocks, given or default noise, inputs with and without temperature: the '
             'last three vary one or two at a time; every history of 3 steps (2 if a setting differs from the default, 1 for default noise) from 3 inputs and measurements, of which the '
             'second step may follow new previous inputs, with or without the clock being set back, and every history of 2 steps which may also repeat the inputs or take no time; the same for a made-up model with 3 states, 4 parameters and 3 outputs',
    'thorough': 'as quick, 4 steps (1 for default noise) and every combination of settings',
}
ASSUMPTIONS = ['the state covariances are regular']


def cases(tier):
    out = []
    for c in SETS:
        for k, wrap in itertools.product(range(len(SETS[c])), (False, True)):
            if not SETS[c][k] and not wrap:
                continue
            for behavior, order in itertools.product(('constant', 'linear'), ('joint', 'blocks')):
                for degrade in ((False, True, 'in place') if wrap else (False,)):
                    out.append([c, k, wrap, behavior, order, degrade])
    return out + [['toy', k, degrade] for k in range(len(TOY)) for degrade in (False, True)]


SAME, NOW = 3, 4  # Further options: the same inputs as before, and other ones at the same time


def inputs_along(hist, first, options):
    """Inputs at each step. An option is how much time passes and the other inputs"""
    out = [first]
    for i, o in enumerate(hist):
        dt, *rest = options[1] if o == NOW else options[o] if o != SAME else (0., *out[-1][1:])
        back = 1000. if i == 1 and o == 1 else 0.  # Some histories set the clock back before their second step
        out.append((out[-1][0] + (0. if o == NOW else dt) - back, *rest))
    return out[1:]


def run_toy(case, ctx, tier, kind):
    """A model with several outputs, and lists of states and parameters"""
    _, k, degrade = case
    first = (0., .5, .2)
    for t, tune in enumerate(TUNE):
        for wrap in (True, False):
            if degrade and not wrap:
                continue
            names = TOY[k] if wrap else sorted(TOY[k], key=list(toy.HEALTH).index)  # In the order of the model
            tuning = tune if kind == 'joint' else (tune, TUNE[(t + 1) % 4])

            def build():
                return est.build_toy(kind, names, first, degrade, wrap, tuning=tuning)

            known = {(): build()[1]}
            config = ['toy', kind, names, degrade, wrap, tuning]
            depth = 3 if tier == 'quick' else 4

            def step(e, hist, new):
                y = toy.OPTIONS[hist[-1] % 3][1]
                u = inputs_along(hist, first, [o[0] for o in toy.OPTIONS])[-1]
                reset = len(hist) == 2 and 0 < hist[-1] < 3
                before = (u[0] - 2., 0. if hist[-1] == 2 else -1.5, 3.)
                if reset:
                    e.set_previous_inputs(toy.inputs(before))
                got = e.step(toy.inputs(u), toy.output(y))
                if not new:
                    return True
                ref = known[hist[:-1]].copy()
                if reset:
                    ref.previous(before)
                want = ref.step(u, y)
                known[hist] = ref
                ctx.transition()
                ctx.state(config, hist)
                ctx.outcome(*want)
                if len(hist) == depth:
                    ctx.trace()
                return est.compare(ctx, f'{config} {hist}', f'after step {len(hist)} of {hist} for {config}', e, got, want)

            walk(lambda: build()[0], step, 5, depth - 1)
            walk(lambda: build()[0], step, 3, depth)
            if ctx.violations:
                return


def run(case, ctx, tier, kind='joint', sets=None):
    if case[0] == 'toy':
        return run_toy(case, ctx, tier, kind)
    c, k, wrap, behavior, order, degrade = case
    names = (sets or SETS)[c][k]
    if wrap and len(names) > 1:
        names = names[::-1]
    variants = list(itertools.product(range(4), ('given', 'default'), (25., None)))
    for i, (tune, noise, temp) in enumerate(variants):
        base = (tune == 0) + (noise == 'given') + (temp is not None)
        if tier == 'quick' and base < 2 and i != (k + len(order)) % 16:
            continue
        if noise == 'default' and tune == 3:  # Noises of 1e-8 are lost in the round-off if points are close together
            continue
        explore(case, ctx, tier, kind, c, names, behavior, order, degrade, wrap, TUNE[tune], noise, temp,
                1 if noise == 'default' else (3 if base == 3 else 2) if tier == 'quick' else 4)
        if ctx.violations:
            return


def explore(case, ctx, tier, kind, c, names, behavior, order, degrade, wrap, tuning, noise, temp, depth):
    first = (0., .5, temp)
    config = [kind, c, names, behavior, order, degrade, tuning, noise, temp]
    if kind == 'dual':
        tuning = (tuning, {} if tuning else {'alpha': .5})
    rtol = 1e-6 if noise == 'given' else 1e-4

    def fresh():
        return est.build(kind, c, names, first, behavior, degrade, wrap, tuning=tuning, noise=noise, order=order)[0]

    def given(hist):
        t, i, temperature = inputs_along(hist, first, [o[:3] for o in OPTIONS])[-1]
        return (t, i, None if temp is None else temperature), OPTIONS[hist[-1] % 3][3]

    known = {(): est.build(kind, c, names, first, behavior, degrade, wrap, tuning=tuning, noise=noise, order=order)[1]}

    def step(e, hist, new):
        u, v = given(hist)
        before = (u[0] - 2., 0. if hist[-1] == 2 else -1.5, None if temp is None else 30.)
        reset = len(hist) == 2 and 0 < hist[-1] < 3  # Told what came before this step
        if reset:
            e.set_previous_inputs(est.ecm.build_input(before))
        got = e.step(est.ecm.build_input(u), est.measured(v))
        if not new:
            return True
        ref = known[hist[:-1]].copy()
        if reset:
            ref.previous(before)
        want = ref.step(u, v)
        known[hist] = ref
        ctx.transition()
        ctx.state(config, hist)
        ctx.outcome(*want)
        if len(hist) == depth:
            ctx.trace()
            if len(ctx.samples) < 1:
                ctx.sample({'config': config, 'history': hist, 'mean': got[0].get_mean(), 'output': got[1].get_mean()})
        return est.compare(ctx, f'{config} {hist}', f'after step {len(hist)} of {hist} for {config}', e, got, want, rtol)

    walk(fresh, step, 5, min(depth, 2))
    if depth > 2:
        walk(fresh, step, 3, depth)
