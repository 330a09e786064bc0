"""Tables and datasets exported from simulators"""
import itertools

import numpy as np

from moirae.simulator import Simulator

from .. import ecm, ecmref
from ..sims import Fold, Wear, inputs_vector, member_inputs

LEVEL = 'model_checking'
BOUND = {
    'quick': 'simulations of 0 to 4 steps of 1, 2, 3 and 11 members which differ in every set of {health, state, time, current, temperature} '
             '(including only from some step on), for 4 circuit shapes with and without temperature and degradation; each is exported before, '
             'between and after steps; without and with steps which take no time',
    'thorough': 'as quick, up to 6 steps',
}
ASSUMPTIONS = ['the same fields are present in all inputs of a simulation']
HOLDS = [(), (2,), (1, 2)]  # Steps which take no time
WHAT = ('health', 'state', 'time', 'current', 'temperature')
SHAPES = [dict(c0=None, rc=[]), dict(c0=[1e4], rc=[dict()]), dict(c0=None, rc=[dict(), dict(r=[.05])]), dict(c0=[5e3], rc=[dict()] * 3)]


def cases(tier):
    out = []
    for n, shape, temp in itertools.product((1, 2, 3, 11), range(len(SHAPES)), (0, 1)):
        for k in range(len(WHAT) + 1):
            for which in itertools.combinations(WHAT, k):
                if (n == 1) != (k == 0) or ('temperature' in which and not temp) or (n == 11 and (k not in (1, 2, 5) or shape != 1)):
                    continue
                for late in ((0, 2) if set(which) & {'time', 'current', 'temperature'} else (0,)):
                    out.append([n, shape, temp, list(which), late])
    return [out[i:i + 6] for i in range(0, len(out), 6)]


def run(group, ctx, tier):
    for case in group:
        for steps, behavior, wear, hold in itertools.product(range(5 if tier == 'quick' else 7), ('constant', 'linear'), (0, 1), HOLDS):
            if (wear and (steps < 3 or behavior == 'linear')) or (behavior == 'linear' and steps in (0, 2)):
                continue
            if hold and (wear or steps < max(hold) + (tier == 'quick') or (tier == 'quick' and steps > 3)):
                continue
            one(case, ctx, steps, behavior, wear, hold)
            if ctx.violations:
                return


def one(case, ctx, steps, behavior, wear, hold):
    n, shape, temp, which, late = case
    ms = [ecmref.member(qt=1. + (.2 * k if 'health' in which else 0), r0=[.1 + (.02 * k if 'health' in which else 0)], ocv=[3., 4.],
                        ent=[.002], h0=[.05], gamma=2., **SHAPES[shape]) for k in range(n)]
    n_rc = len(ms[0]['rc'])
    states = [ecmref.initial(m, soc=.3 + (.04 * k if 'state' in which else 0), irc=[.1, -.2, .3][:n_rc],
                             hyst=.001 * k if 'state' in which else 0.) for k, m in enumerate(ms)]

    def inputs(i):
        def field(name, base, slope):
            return [base + slope * k for k in range(n)] if name in which and i >= late else base
        return (field('time', 100. * (i - sum(h <= i for h in hold)) + 7, .5), field('current', [1., -2., .5, 0., 1.5][i % 5], .125),
                field('temperature', 20. + i, 3.) if temp else None)

    sim = Simulator(cell_model=ecm.EquivalentCircuitModel(behavior), asoh=ecm.build_asoh(ms), transient_state=ecm.build_state(states if 'state' in which else states[0]),
                    initial_input=ecm.build_input(inputs(0)), keep_history=True, **({'degradation_model': Wear()} if wear else {}))
    folds = [Fold(m, s, member_inputs(inputs(0), k), behavior, wear) for k, (m, s) in enumerate(zip(ms, states))]
    for i in range(1, steps + 1):
        if i == 2 and steps == 2:
            compare(case, ctx, sim, folds, n, temp, n_rc, 1, behavior)  # Exporting does not influence what follows
        sim.step(ecm.build_input(inputs(i)))
        ctx.transition()
        for k, f in enumerate(folds):
            f.step(member_inputs(inputs(i), k))
    for _ in range(2 if steps == 3 else 1):
        compare(case, ctx, sim, folds, n, temp, n_rc, steps, behavior)
    if steps < 2:
        refuse(case, ctx, ms, states, inputs, n, steps)
    ctx.state(case, steps, behavior, wear, hold)
    ctx.trace()


def refuse(case, ctx, ms, states, inputs, n, steps):
    """Exports of simulators which keep no history, which is what they do unless asked"""
    for given in ({}, {'keep_history': False}):
        sim = Simulator(cell_model=ecm.EquivalentCircuitModel(), asoh=ecm.build_asoh(ms), transient_state=ecm.build_state(states), initial_input=ecm.build_input(inputs(0)),
                        **given)
        for i in range(1, steps + 1):
            sim.step(ecm.build_input(inputs(i)))
        for export in (sim.to_dataframe, sim.to_batdata, lambda: sim.to_batdata(extra_columns=True)):
            try:
                export()
            except ValueError:
                continue
            ctx.violation(f'{case} {given}', f'export of a simulator created with {given} after {steps} steps was not refused, although there is no history')


def compare(case, ctx, sim, folds, n, temp, n_rc, steps, behavior):
    key = f'{case} {steps} {behavior}'
    # Rows which do not depend on the member may stand for all of them, in which case there is one
    distinct = n if int(max(sim.to_dataframe()['batch'])) > 0 else 1
    if distinct == 1 and n > 1:
        vec = [[inputs_vector(h[0]) + ecmref.vector(h[1]) + [h[2]] for h in f.history] for f in folds]
        if any(not np.allclose(v, vec[0], rtol=1e-12) for v in vec):
            ctx.violation(key, f'only one member was simulated, although {n} different ones were given')
            return
    folds = folds[:distinct]
    df = sim.to_dataframe()
    states = ['soc'] + (['q0'] if folds[0].m['c0'] is not None else [])
    states += ['i_rc'] if n_rc == 1 else [f'i_rc[{i}]' for i in range(n_rc)]
    states += ['hyst']
    ins = ['time', 'current'] + (['temperature'] if temp else [])
    columns = ['batch'] + ins + states + ['terminal_voltage']
    what = f'table after {steps} steps of {case}'
    if not ctx.equal(key, f'columns of the {what}', list(df.columns), columns):
        return

    def row(f, t):
        inp, state, volts, _ = f.history[t]
        return inputs_vector(inp) + ecmref.vector(state) + [volts]

    want = [[float(k)] + row(f, t) for t in range(steps + 1) for k, f in enumerate(folds)]
    ctx.equal(key, f'number of rows in the {what}', len(df), len(want))
    # Compare the rows of each member at each time, then the order
    got = df.to_numpy(dtype=float)
    for k, f in enumerate(folds):
        mine = got[got[:, 0] == k]
        ctx.close(key, f'rows of member {k} in the {what}', mine[:, 1:], [row(f, t) for t in range(steps + 1)])
    ctx.close(key, f'{what}', got, want)
    names = {'time': 'test_time', 'terminal_voltage': 'voltage'}
    renamed = [names.get(c, c) for c in columns[1:]]
    for extra in (False, True):
        datasets = sim.to_batdata(extra_columns=extra) if extra else sim.to_batdata()
        if not ctx.equal(key, f'number of datasets of {case}', len(datasets), len(folds)):
            return
        for k, (data, f) in enumerate(zip(datasets, folds)):
            raw = data.raw_data
            if not ctx.equal(key, f'columns of the dataset of member {k} of {case}', sorted(raw.columns), sorted(renamed)):
                return
            ctx.close(key, f'dataset of member {k} after {steps} steps of {case}', raw[renamed].to_numpy(dtype=float),
                      [row(f, t) for t in range(steps + 1)])
            if extra:
                known = set(data.schemas['raw_data'].extra_columns)
                ctx.equal(key, f'described columns of the dataset of member {k} of {case}',
                          set(ins + states) - {'time', 'current', 'temperature'} <= known, True)
                if steps == 3:
                    ctx.equal(key, f'complaints of the dataset of member {k} of {case}', [str(x) for x in data.validate()], [])
    ctx.close(key, f'{what}, exported again', sim.to_dataframe().to_numpy(dtype=float), want)
    ctx.outcome(want)
    ctx.sample({'case': case, 'steps': steps, 'rows': want[:4]})
