"""Loss of parameter sets"""
import itertools

import numpy as np
from moirae.estimators.offline.loss import MeanSquaredLoss

from .. import ecm, ecmref, tables
from ..sims import Fold

LEVEL = 'model_checking'
NAMES = ['q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'r0.base_values', 'rc_elements.0.r.base_values', 'h0.base_values']
BOUND = {
    'quick': 'circuits with 0-2 RC elements, with and without series capacitance, both current behaviours, every subset of 6 kinds of updatable '
             'parameters; every batch of 1-2 candidates and every order of 3 out of 4 candidates over 2 datasets; for at most 1 or at least 5 kinds, a batch '
             'of 3 on every dataset of up to 3 rows over an alphabet of 3, and 11 with equal or decreasing times; every way of recording temperatures; 4 kinds of row labels; neighbours of a candidate at three distances',
    'thorough': 'as quick, with every batch of up to 4 candidates and every dataset of up to 4 rows',
}
ASSUMPTIONS = ['the guess has a single member']
RULE = 'A case is a circuit, current behaviour and set of updatable parameters'
RCS = {'plain': [], 'one': [dict(r=[.02], c=[800.])], 'two': [dict(r=[.02, .03], c=[800.]), dict(r=[.01], c=[3000.])]}
FIELD = {'q_t.base_values': 'qt', 'ce': 'ce', 'ocv.ocv_ref.base_values': 'ocv', 'r0.base_values': 'r0', 'h0.base_values': 'h0'}


def circuit(kind, c0):
    return ecmref.member(qt=.01, ce=.95, ocv=[3., 3.4, 4.1], r0=[.05, .04], r0_g=.003, ent=[1e-3], c0=[50.] if c0 else None, rc=RCS[kind], h0=[.03], gamma=.9)


def cases(tier):
    for kind in RCS:
        for c0 in (False, True):
            names = [n for n in NAMES if kind != 'plain' or not n.startswith('rc')]
            for k in range(len(names) + 1):
                for sub in itertools.combinations(names, k):
                    for b in ('constant', 'linear'):
                        yield dict(kind=kind, c0=c0, names=list(sub), behavior=b)


def get(m, name):
    v = m['rc'][0]['r'] if name.startswith('rc') else m[FIELD[name]]
    return list(v) if isinstance(v, list) else [v]


def put(m, name, v):
    if name.startswith('rc'):
        m['rc'][0]['r'] = list(v)
    else:
        m[FIELD[name]] = list(v) if isinstance(m[FIELD[name]], list) else v[0]


def candidates(m, names):
    """(circuit, state) of each candidate. The first is the guess"""
    n = len(m['rc'])
    s0 = ecmref.initial(m, soc=.3, q0=.5, irc=[.2, -.1][:n], hyst=.01)
    s1 = ecmref.initial(m, soc=.55, q0=-2., irc=[-.4, .3][:n], hyst=-.02)
    m1 = ecmref.member(**m)
    for j, name in enumerate(names):
        put(m1, name, [v * (1.1 + .07 * j + .03 * i) for i, v in enumerate(get(m, name))])
    m2 = ecmref.member(**m)
    for j, name in enumerate(names):
        put(m2, name, [v * (.8 - .05 * j - .04 * i) for i, v in enumerate(get(m, name))])
    return [(m, s0), (m, s1), (m1, s0), (m2, s1)]


def vec(m, s, names):
    return ecmref.vector(s) + [v for n in names for v in get(m, n)]


def mean_loss(m, s, data, temps, behavior):
    full = [(t, i, tables.temperature((t, i, temp, v), k, len(data), temps, 25.), v) for k, (t, i, temp, v) in enumerate(data)]
    fold = Fold(m, s, full[0][:3], behavior, False)
    err = [(fold.volts - full[0][3]) ** 2]
    for r in full[1:]:
        fold.step(r[:3])
        err.append((fold.volts - r[3]) ** 2)
    return sum(err) / len(err), [h[2] for h in fold.history]


def run(case, ctx, tier):
    m = circuit(case['kind'], case['c0'])
    names, beh = case['names'], case['behavior']
    cand = candidates(m, names)
    model = ecm.EquivalentCircuitModel(beh)

    def loss_for(data, temps='given', **opts):
        asoh = ecm.build_asoh(m)
        for n in names:
            asoh.mark_updatable(n)
        state = ecm.build_state(cand[0][1])
        loss = MeanSquaredLoss(model, asoh, state, tables.dataset(tables.frame(data, temps, **opts)))
        for _, a in asoh.iter_parameters(updatable_only=False):  # Nothing which is done to the guesses later matters
            a[:] = 7.
        state.from_numpy(state.to_numpy() + 3.)
        asoh.mark_all_fixed()
        return loss

    def check(key, loss, data, temps, batch):
        before = ecm.snapshot(loss.state, loss.asoh)
        frame = loss.observations.tables['raw_data'].copy(deep=True)
        x = np.array([vec(*cand[c], names) for c in batch])
        x0 = x.copy()
        got = loss(x)
        ctx.transition(len(batch) * len(data))
        want = [mean_loss(*cand[c], data, temps, beh)[0] for c in batch]
        ctx.close(key, 'loss', got, want)
        ctx.outcome(want)
        ctx.state(case, data, temps, batch)
        ctx.equal(key, 'candidates afterwards', x.tolist(), x0.tolist())
        ctx.equal(key, 'guesses afterwards', ecm.snapshot(loss.state, loss.asoh), before)
        if not frame.equals(loss.observations.tables['raw_data']):
            ctx.violation(key, 'observations changed')
        ctx.trace(len(batch))
        return got

    # Batches
    top = 2 if tier == 'quick' else 3
    batches = [b for k in range(1, top + 1) for b in itertools.product(range(4), repeat=k)] + list(itertools.permutations(range(4), 3))
    if tier != 'quick':
        batches += list(itertools.permutations(range(4)))
    few = tier == 'quick' and 1 < len(names) < 5
    for hist in ((0, 1, 2), (1, 0)) if not few else ((1, 0),):
        data = tables.rows(hist, start=4.)
        loss = loss_for(data)
        ctx.close(f'{case} guess', 'initial guess', loss.get_x0(), vec(*cand[0], names))
        for b in batches:
            check(f'{case} {hist} {b}', loss, data, 'given', b)
            if ctx.violations:
                return
    # Datasets
    deep = 1 if few else 3 if tier == 'quick' else 4
    for n in range(1, deep + 1):
        odd = {1: [(3,), (4,)], 2: [(0, 3), (3, 1), (1, 4), (4, 0)], 3: [(0, 3, 1), (1, 4, 0), (3, 4, 3), (2, 3, 3), (4, 4, 1)]}  # No time, or going back
        for hist in [*itertools.product(range(3), repeat=n), *odd.get(n, [])]:
            data = tables.rows(hist, start=2.5)
            loss = loss_for(data)
            check(f'{case} {hist}', loss, data, 'given', (3, 0, 2))
            check(f'{case} {hist} again', loss, data, 'given', (0,))
            if ctx.violations:
                return
    # Tables
    data = tables.rows((2, 0, 1, 1))
    for temps in ('absent', 'nan', 'inf', 'first', 'last'):
        check(f'{case} {temps}', loss_for(data, temps), data, temps, (2, 3))
    for index in ('reversed', 'same', 'dates', 'offset'):
        check(f'{case} {index}', loss_for(data, index=index), data, 'given', (1, 2))
    # Neighbours, as in finite differences: nothing is remembered from one to another
    data = tables.rows((1, 0))
    loss = loss_for(data)
    x = np.array([vec(*cand[1], names)])
    for delta in (1e-12, 1e-9, 1e-6):
        for k in range(x.shape[1]):
            y = x.copy()
            y[0, k] += delta
            for z in (x, y, np.concatenate([y, x])):
                ctx.equal(f'{case} neighbours {delta} {k}', 'loss of a neighbour, compared with that of a new objective', loss(z).tolist(), loss_for(data)(z).tolist())
                ctx.transition(len(z))
    # Data simulated from the guess
    data = tables.rows((0, 2, 1))
    volts = mean_loss(*cand[0], data, 'given', beh)[1]
    data = [(*r[:3], v) for r, v in zip(data, volts)]
    loss = loss_for(data)
    got = loss(loss.get_x0()[None, :])
    if not (np.shape(got) == (1,) and got[0] < 1e-20):
        ctx.violation(f'{case} simulated', f'loss {got} of the guess on data simulated from it')
    ctx.sample({'case': case, 'guess': loss.get_x0(), 'voltages': volts})
