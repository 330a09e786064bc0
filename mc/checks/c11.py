"""Batches"""
import itertools

import numpy as np

from moirae.simulator import Simulator

from .. import ecm, ecmref

LEVEL = 'model_checking'
FIELDS = ['qt', 'ce', 'ocv', 'ocv_tref', 'ent', 'r0', 'r0_g', 'c0', 'h0', 'gamma', 'rc0.r', 'rc0.g', 'rc0.c', 'rc1.r', 'rc1.g', 'rc1.c',
          'state.soc', 'state.q0', 'state.irc', 'state.hyst', 'prev.time', 'prev.current', 'prev.temperature', 'new.time', 'new.current',
          'new.temperature']
BOUND = {
    'quick': f'every set of up to 2 of the {len(FIELDS)} fields of health, state and inputs being batched, every set which lacks at most '
             'one and every triple which includes one of each, with 2 and 3 members, for constant and linear current, one and two RC '
             'elements, batched fields with different values, equal values, and values for the first or last '
             'member with which what they describe does nothing (no effect, no current, no time passes); and simulators over 3 steps for every set of up to 1 field, '
             'or which lacks at most 1',
    'thorough': 'as quick, with every set of up to 3 fields and 4 members, and simulators for every set of up to 2',
}
ASSUMPTIONS = ['batch sizes are 1 or agree', 'results which no batched field influences may have one row']


def subsets(tier):
    n = len(FIELDS)
    out = [()] + list(itertools.combinations(FIELDS, 1)) + list(itertools.combinations(FIELDS, 2))
    if tier == 'quick':
        out += [(a, b, c) for a in FIELDS[:16] for b in FIELDS[16:20] for c in FIELDS[20:]]
    else:
        out += list(itertools.combinations(FIELDS, 3))
    out += [tuple(FIELDS)] + [tuple(FIELDS[:i] + FIELDS[i + 1:]) for i in range(n)]
    out += [tuple(FIELDS[:16]), tuple(FIELDS[16:20]), tuple(FIELDS[20:]), tuple(FIELDS[16:]), tuple(FIELDS[:20])]
    return out


def cases(tier):
    subs = subsets(tier)
    out = [['one', subs[i:i + 12]] for i in range(0, len(subs), 12)]
    few = [s for s in subs if len(s) <= (1 if tier == 'quick' else 2) or len(s) >= len(FIELDS) - 1] + subs[-5:]
    return out + [['simulator', few[i:i + 4]] for i in range(0, len(few), 4)]


def value(field, k, shape):
    """Value of a field for a member"""
    table = {
        'qt': 1. + .5 * k, 'ce': 1. - .1 * k, 'ocv': [3. + .1 * k, 3.5 + .2 * k, 4. - .05 * k], 'ocv_tref': 25. - 4 * k,
        'ent': [.01 + .01 * k, .02 - .03 * k], 'r0': [.1 + .02 * k, .05 * (k + 1)], 'r0_g': .01 * (k + 1), 'c0': [1e3 * (k + 1), 2e3],
        'h0': [.05 + .02 * k, .1 - .03 * k], 'gamma': 3. + k, 'rc0.r': [.02 + .01 * k], 'rc0.g': .02 - .01 * k, 'rc0.c': [1e3 + 200. * k, 900.],
        'rc1.r': [.01 + .02 * k, .03], 'rc1.g': -.01 + .02 * k, 'rc1.c': [2e3 - 300. * k], 'state.soc': .4 + .15 * k, 'state.q0': 5. - 4 * k,
        'state.irc': [.3 - .4 * k, .2 + .1 * k][:shape['rc']], 'state.hyst': .01 - .015 * k, 'prev.time': 10. + 2 * k, 'prev.current': 1. - .75 * k,
        'prev.temperature': 30. - 10 * k, 'new.time': 300. + 100. * k, 'new.current': -.5 + .7 * k, 'new.temperature': 20. + 7 * k}
    return table[field]


def plain(field, shape):
    """Value for which whatever a field describes does nothing: no effect, no current, no time passes, ..."""
    table = {
        'ce': 1., 'ocv_tref': 0., 'ent': [0., 0.], 'r0_g': 0., 'h0': [0., 0.], 'gamma': 0., 'rc0.g': 0., 'rc1.g': 0., 'state.soc': 0.,
        'state.q0': 0., 'state.irc': [0., 0.][:shape['rc']], 'state.hyst': 0., 'prev.time': 300., 'prev.current': 0., 'prev.temperature': 0.,
        'new.time': 10., 'new.current': 0., 'new.temperature': 0.}
    return table.get(field, value(field, 0, shape))


def split(subset, n, shape, equal):
    """Reference health, states and inputs of each member"""
    out = []
    for k in range(n):
        v = {f: value(f, k if f in subset and equal != 1 else 0, shape) for f in FIELDS}
        if equal == 2 and k == 0 or equal == 3 and k == n - 1:
            v.update({f: plain(f, shape) for f in subset})
            if 'new.time' in subset:
                v['new.time'] = v['prev.time'] = 300. if 'prev.time' in subset else v['prev.time']
        rc = [{x: v[f'rc{i}.{x}'] for x in 'rgc'} for i in range(shape['rc'])]
        m = ecmref.member(rc=rc, **{f: v[f] for f in FIELDS[:10] if f != 'c0'}, c0=v['c0'] if shape['c0'] else None)
        state = ecmref.initial(m, soc=v['state.soc'], q0=v['state.q0'], irc=v['state.irc'], hyst=v['state.hyst'])
        temp = shape['temp']
        prev = (v['prev.time'], v['prev.current'], v['prev.temperature'] if temp else None)
        new = (v['new.time'], v['new.current'], v['new.temperature'] if temp else None)
        out.append((m, state, prev, new))
    return out


def assemble(parts, subset):
    """Build the objects with exactly the fields of a set being batched"""
    ms, states, prevs, news = zip(*parts)
    asoh = ecm.build_asoh(list(ms), [f for f in subset if '.' not in f or f.startswith('rc')])
    state = ecm.build_state(list(states), [f[6:] for f in subset if f.startswith('state')])

    def inputs(rows, tag):
        out = []
        for i, f in enumerate(('time', 'current', 'temperature')):
            batched = f'{tag}.{f}' in subset and rows[0][i] is not None
            out.append([r[i] for r in rows] if batched else rows[0][i])
        return ecm.build_input(tuple(out))
    return asoh, state, inputs(prevs, 'prev'), inputs(news, 'new')


def rows(ctx, key, what, got, want):
    """Compare the rows of a result to the members. A single row can only stand for members which agree"""
    got = np.asarray(got, dtype=float)
    if got.shape[0] == 1 and len(want) > 1 and all(np.allclose(w, want[0], rtol=1e-13, atol=0) for w in want):
        want = want[:1]
    return ctx.close(key, what, got, want)


def run(case, ctx, tier):
    shapes = [dict(rc=2, c0=True, temp=True), dict(rc=1, c0=True, temp=True), dict(rc=0, c0=False, temp=True), dict(rc=2, c0=True, temp=False)]
    for subset in case[1]:
        for shape, n, behavior, equal in itertools.product(shapes, (2, 3) if tier == 'quick' else (2, 3, 4), ('constant', 'linear'), range(4)):
            n_rc = shape['rc']
            have = [f for f in subset if not (f.startswith('rc') and int(f[2]) >= n_rc) and not (f in ('c0', 'state.q0') and not shape['c0'])
                    and not ('temperature' in f and not shape['temp']) and not (f == 'state.irc' and n_rc == 0)]
            if len(have) < len(subset) and (len(subset) < 20 or n == 3):
                continue
            if equal and (n == 3 and (equal == 1 or len(have) > 1) or len(have) > 2 and len(have) < 20) or shape is not shapes[0] and len(have) == 3 and n == 3:
                continue
            if case[0] == 'one':
                one(case, ctx, have, shape, n, behavior, equal)
            elif equal != 1 and (shape is shapes[0] or n == 2):
                simulator(case, ctx, have, shape, n, behavior, equal)
            if ctx.violations:
                return


def one(case, ctx, subset, shape, n, behavior, equal):
    parts = split(subset, n, shape, equal)
    asoh, state, prev, new = assemble(parts, subset)
    model = ecm.EquivalentCircuitModel(behavior)
    key = f'{subset} {shape} {n} {behavior} {equal}'
    what = f'for {n} members which differ in {subset}, {shape}, {behavior} current'
    want = [ecmref.step(m, s, p, q, behavior) for m, s, p, q in parts]
    out = model.update_transient_state(prev, new, state, asoh)
    ctx.transition(n)
    rows(ctx, key, f'new state {what}', out.to_numpy(), [ecmref.vector(w) for w in want])
    volts = [ecmref.voltage(m, s, q) for m, s, _, q in parts]
    v = model.calculate_terminal_voltage(new, state, asoh)
    rows(ctx, key, f'voltage {what}', v.terminal_voltage, [[x] for x in volts])
    # Same from the state which the model made
    volts = [ecmref.voltage(m, w, q) for (m, _, _, q), w in zip(parts, want)]
    v = model.calculate_terminal_voltage(new, out, asoh)
    rows(ctx, key, f'voltage of the new state {what}', v.terminal_voltage, [[x] for x in volts])
    ctx.transition(2 * n)
    ctx.state(parts, behavior)
    ctx.outcome(want)
    ctx.trace(n)
    if len(subset) == 2:
        ctx.sample({'batched': subset, 'members': n, 'current': behavior, 'new states': out.to_numpy(), 'voltages': v.to_numpy()})


def simulator(case, ctx, subset, shape, n, behavior, equal):
    parts = split(subset, n, shape, equal)
    asoh, state, prev, new = assemble(parts, subset)
    key = f'simulator {subset} {shape} {n} {behavior} {equal}'
    what = f'of a simulation of {n} members which differ in {subset}, {shape}, {behavior} current'
    steps = [[q, (q[0] + 60., -q[1], q[2]), (q[0] + 600., .3, p[2])] for _, _, p, q in parts]
    sim = Simulator(cell_model=ecm.EquivalentCircuitModel(behavior), asoh=asoh, transient_state=state, initial_input=prev, keep_history=True)
    inputs = [new]
    for i in (1, 2):
        def field(j, names):
            vals = [s[i][j] for s in steps]
            return vals if any(f in subset for f in names) and vals[0] is not None else vals[0]
        inputs.append(ecm.build_input((field(0, ['new.time']), field(1, ['new.current'] if i == 1 else []),
                                       field(2, ['new.temperature'] if i == 1 else ['prev.temperature']))))
    measured = sim.evolve(inputs)
    now = [s for _, s, _, _ in parts]
    was = [p for _, _, p, _ in parts]
    rows(ctx, key, f'first voltage {what}', sim.measurement_history[0].to_numpy(), [[ecmref.voltage(m, s, p)] for m, s, p, _ in parts])
    for i in range(3):
        at = [s[i] for s in steps]
        now = [ecmref.step(m, x, a, b, behavior) for (m, _, _, _), x, a, b in zip(parts, now, was, at)]
        rows(ctx, key, f'state {i + 1} {what}', sim.transient_history[i + 1].to_numpy(), [ecmref.vector(x) for x in now])
        volts = [[ecmref.voltage(m, x, b)] for (m, _, _, _), x, b in zip(parts, now, at)]
        rows(ctx, key, f'voltage {i + 1} {what}', measured[i].to_numpy(), volts)
        was = at
        ctx.transition(2 * n)
        ctx.state(parts, behavior, i, now)
    ctx.trace(n)
