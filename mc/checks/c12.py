"""Simulators"""
import itertools

import numpy as np

from moirae.simulator import Simulator

from .. import ecm, ecmref
from ..sims import Fold, Wear, asoh_vector, inputs_vector, member_inputs, read_asoh

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every history of 3 calls starting at 5 or 1.7e9 s (4 kinds of steps and evolving over 0, 1, 2 or 3 inputs, one of them with the same input object twice) '
             'with 4 degradation models, constant and linear current, 1 to 3 members which differ in states, health, both or inputs, with and '
             'without history; everything which was handed over is overwritten after each call',
    'thorough': 'every history of 4 calls',
}
ASSUMPTIONS = []
# Changes from the last time, and values
STEPS = {'a': (60., 1., 25.), 'b': (600., -2., 30.), 'c': (0., .5, 25.), 'd': (30., 0., 20.)}
OPS = [['step', 'a'], ['step', 'b'], ['step', 'c'], ['step', 'd'], ['evolve', ''], ['evolve', 'b'], ['evolve', 'ad'], ['evolve', 'bca'], ['same', 'b']]


def cases(tier):
    out = []
    for members, beh, deg, keep in itertools.product(('none', 'state', 'health', 'both', 'inputs'), ('constant', 'linear'),
                                                     ('none', 'default', 'copy', 'in place'), (True, False)):
        if not keep and (members not in ('none', 'both') or deg in ('none', 'default')):
            continue
        for op in range(len(OPS)):
            out.append([members, beh, deg, keep, op])
    out.sort(key=lambda c: (OPS[c[-1]][0] != 'step', c[0] != 'none'))
    return out


def setup(members):
    n = {'none': 1, 'state': 2, 'health': 3, 'both': 3, 'inputs': 2}[members]
    ms, states = [], []
    for k in range(n):
        h, s = (k if members in ('health', 'both') else 0), (k if members in ('state', 'both') else 0)
        m = ecmref.member(qt=1. + h, r0=[.1 + .03 * h, .05], ocv=[3., 3.5, 4.], ent=[.001], c0=[1e4], ce=.95, h0=[.03], gamma=4.,
                          rc=[dict(r=[.02 + .01 * h]), dict(r=[.05], c=[300.], g=.01)])
        ms.append(m)
        states.append(ecmref.initial(m, soc=.3 + .1 * s, q0=2. - s, irc=[.1 * s, -.2], hyst=.01 * s))
    return n, ms, states


def run(case, ctx, tier):
    members, behavior, deg, keep, first = case
    n, ms, states = setup(members)
    depth = 3 if tier == 'quick' else 4
    for tail in itertools.product(OPS, repeat=depth - 1):
        history = [OPS[first]] + list(tail)
        if members != 'none' and tier == 'quick' and tail[-1][0] != 'step':
            continue
        play(case, ctx, history, n, ms, states, behavior, deg, keep, members)
        if ctx.violations:
            return


def scribble(*objs):
    """Overwrite everything in objects"""
    for o in objs:
        for name in type(o).model_fields:
            v = getattr(o, name)
            if isinstance(v, np.ndarray):
                if v.flags.writeable:
                    v[...] = -12345
            elif isinstance(v, tuple):
                scribble(*v)
            elif hasattr(type(v), 'model_fields'):
                scribble(v)


def play(case, ctx, history, n, ms, states, behavior, deg, keep, members):
    key = f'{case[:4]} {history}'
    start = 1.7e9 if deg == 'default' else 5.
    asoh, state, first = ecm.build_asoh(ms), ecm.build_state(states), ecm.build_input((start, .25, 25.))
    before = ecm.snapshot(asoh, state, first)
    kwargs = {} if deg == 'none' else {'degradation_model': {'default': None, 'copy': Wear(), 'in place': Wear(True)}[deg]}
    if deg == 'default':
        from moirae.models.utils import NoDegradation
        kwargs = {'degradation_model': NoDegradation()}
    sim = Simulator(cell_model=ecm.EquivalentCircuitModel(behavior), asoh=asoh, transient_state=state, initial_input=first,
                    keep_history=keep, **kwargs)
    ctx.equal(key, 'objects given to create a simulator', ecm.snapshot(asoh, state, first), before)
    scribble(asoh, state, first)
    folds = [Fold(m, s, (start, .25, 25.), behavior, deg in ('copy', 'in place')) for m, s in zip(ms, states)]
    now = start

    def make(name):
        nonlocal now
        dt, cur, temp = STEPS[name]
        now += dt
        return (now, [cur, cur - .5] if members == 'inputs' else cur, temp)

    def compare(when):
        got = [sim.previous_input, sim.transient, sim.measurement]
        for what, g, w in zip(('inputs', 'state', 'measurement'), got,
                              ([inputs_vector(f.prev) for f in folds], [ecmref.vector(f.state) for f in folds], [[f.volts] for f in folds])):
            rows(ctx, key, f'{what} of the simulator {when}', g.to_numpy(), w)
        rows(ctx, key, f'health of the simulator {when}', read_asoh(sim.asoh, n), [asoh_vector(f.m) for f in folds])
        if keep:
            lengths = [len(x) for x in (sim.input_history, sim.transient_history, sim.measurement_history, sim.asoh_history)]
            if not ctx.equal(key, f'lengths of the histories {when}', lengths, [len(folds[0].history)] * 4):
                return
            for i in range(len(folds[0].history)):
                at = [f.history[i] for f in folds]
                what = f'in entry {i} of the history {when}'
                rows(ctx, key, f'inputs {what}', sim.input_history[i].to_numpy(), [inputs_vector(a[0]) for a in at])
                rows(ctx, key, f'state {what}', sim.transient_history[i].to_numpy(), [ecmref.vector(a[1]) for a in at])
                rows(ctx, key, f'measurement {what}', sim.measurement_history[i].to_numpy(), [[a[2]] for a in at])
                rows(ctx, key, f'health {what}', read_asoh(sim.asoh_history[i], n), [asoh_vector(a[3]) for a in at])
        elif sim.input_history is not None or sim.transient_history is not None or sim.measurement_history is not None:
            ctx.violation(key, f'a history was kept {when} although it was not asked for')

    compare('before any step')
    for done, (op, names) in enumerate(history):
        refs = [make(x) for x in names]
        if op == 'same':  # The same object twice, so no time passes in the second
            objs = [ecm.build_input(refs[0])] * 2
            refs = refs * 2
        else:
            objs = [ecm.build_input(r) for r in refs]
        saved = ecm.snapshot(*objs)
        results = []
        if op == 'step':
            new_state, new_measure = sim.step(objs[0])
            results = [new_measure]
        else:
            results = sim.evolve(objs)
        wanted = []
        for r in refs:
            for k, f in enumerate(folds):
                f.step(member_inputs(r, k))
            wanted.append([[f.volts] for f in folds])
            ctx.transition()
        when = f'after {history[:done + 1]}'
        ctx.equal(key, f'inputs given to the simulator {when}', ecm.snapshot(*objs), saved)
        ctx.equal(key, f'number of results {when}', len(results), len(refs))
        for got, want in zip(results, wanted):
            rows(ctx, key, f'returned measurement {when}', got.to_numpy(), want)
        if op == 'step':
            rows(ctx, key, f'returned state {when}', new_state.to_numpy(), [ecmref.vector(f.state) for f in folds])
        scribble(*objs)
        if done == len(history) - 1 or len(history) < 3 or done == 0 and case[0] == 'none':
            compare(when)
        ctx.state(case[:4], history[:done + 1])
        if ctx.violations:
            return
    if not keep:
        for f in (sim.to_dataframe, sim.to_batdata):
            try:
                f()
                ctx.violation(key, 'an export without history was not refused')
            except ValueError:
                pass
    ctx.outcome([f.state for f in folds], [f.volts for f in folds])
    ctx.trace()
    ctx.sample({'case': case[:4], 'history': history, 'final states': sim.transient.to_numpy(), 'health': read_asoh(sim.asoh, n)})


def rows(ctx, key, what, got, want):
    got = np.asarray(got, dtype=float)
    if got.shape[0] == 1 and len(want) > 1 and all(np.allclose(w, want[0], rtol=1e-13, atol=0) for w in want):
        want = want[:1]
    return ctx.close(key, what, got, want)
