"""Dual estimation is two unscented filters"""
import itertools

from . import c21

LEVEL = 'model_checking'
SETS = {c: [s for s in sets if s] for c, sets in c21.SETS.items()}
BOUND = {
    'quick': f'circuits of 2 to 5 states, {sum(map(len, SETS.values()))} sets of estimated parameters (in the order of the model or reversed), both current '
             'behaviors, with and without degradation, 4 pairs of tunings (different for each filter), given or default noise, inputs with and without temperature: the '
             'last three vary one or two at a time; every history of 3 steps (2 if a setting differs from the default, 1 for default noise) from 3 inputs and measurements, of which the '
             'second step may follow new previous inputs, with or without the clock being set back, and every history of 2 steps which may also repeat the inputs or take no time; the same for a made-up model with 3 states, 4 parameters and 3 outputs',
    'thorough': 'as quick, 4 steps (1 for default noise) and every combination of settings',
}
ASSUMPTIONS = c21.ASSUMPTIONS


def cases(tier):
    out = []
    for c in SETS:
        for k, wrap, behavior in itertools.product(range(len(SETS[c])), (False, True), ('constant', 'linear')):
            for degrade in ((False, True, 'in place') if wrap else (False,)):
                out.append([c, k, wrap, behavior, 'blocks', degrade])
    return out + [['toy', k, degrade] for k in range(len(c21.TOY)) for degrade in (False, True)]


def run(case, ctx, tier):
    c21.run(case, ctx, tier, 'dual', SETS)
