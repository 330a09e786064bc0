"""Records of simulations explain themselves"""
import itertools

import h5py
import numpy as np
from battdat.data import CellDataset
from battdat.postprocess.integral import StateOfCharge
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.interface import row_to_inputs, run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.models.ecm import EquivalentCircuitModel
from moirae.simulator import Simulator

from .. import ecm, ecmref, tables

LEVEL = 'model_checking'
BOUND = {
    'quick': 'circuits with 0-2 RC elements, with and without series capacitance and hysteresis, both current behaviours, temperatures recorded or not, 1-2 members; every sequence of 1-3 steps over 3 '
             'inputs (1-2 steps for every other circuit), exported with and without additional columns, in memory and through a file; loss of the truth of each member on the record of each, replay of the rows, estimators started from '
             'the truth, stored estimates; simulated charges of 4 circuits at 3 rates over 3 grids',
    'thorough': 'as quick, every sequence of up to 4 steps over 4 inputs',
}
ASSUMPTIONS = ['estimators only need to stay at the truth if the circuit is linear in what is estimated', 'extractors only need to recover curves which their spline can represent']
RULE = 'A case is a circuit, current behaviour, whether temperatures are recorded and first input'
INPUTS = [(20., 1.5, 31.), (45., -2., 18.), (8., 0., 25.), (120., -.5, 40.)]  # Duration, current, temperature
NAMES = ['q_t.base_values', 'ocv.ocv_ref.base_values', 'r0.base_values']


def cases(tier):
    for rc, c0, hyst, behavior, temps in itertools.product(range(3), (0, 1), (0, 1), ('constant', 'linear'), (0, 1)):
        for first in range(3 if tier == 'quick' else 4):
            yield dict(what='record', rc=rc, c0=c0, hyst=hyst, behavior=behavior, temps=temps, first=first)
    for rate in (.05, .5, 1.):
        for kind in CHARGED:
            yield dict(what='charge', rate=rate, kind=kind)


def circuit(case, k):
    rcs = [dict(r=[.02 + .01 * k], c=[900.], g=.01), dict(r=[.01], c=[3000. - 500 * k])][:case['rc']]
    return ecmref.member(qt=.3 + .1 * k, ce=.96, ocv=[3. + .1 * k, 4.1], ent=[.001], r0=[.05 + .02 * k], r0_g=.004, c0=[900.] if case['c0'] else None, rc=rcs,
                         h0=[.04 * case['hyst']], gamma=.9 * case['hyst'])


def start(m, k):
    n = len(m['rc'])
    return ecmref.initial(m, soc=.4 + .1 * k, q0=3. - k, irc=[.3, -.2 + k][:n], hyst=.01 if m['gamma'] else 0.)


def truth(m, state):
    return ecmref.vector(state) + [m['qt'], *m['ocv'], *m['r0']] + [v for rc in m['rc'] for v in rc['r'] + rc['c']]


def record(case, ctx, tier):
    model = EquivalentCircuitModel(case['behavior'])
    deep, wide = (3, 3) if tier == 'quick' else (4, 4)
    if tier == 'quick' and (case['rc'] + case['c0'] + case['hyst'] + case['temps']) % 2:
        deep = 2
    with tables.Scratch() as scratch:
        for n in range(0, deep):
            for rest in itertools.product(range(wide), repeat=n):
                hist = (case['first'], *rest)
                for size in (1, 2):
                    if size == 2 and n == 1 and tier == 'quick':
                        continue
                    key = f'{case} {hist} {size}'
                    ctx.state(key)
                    one(case, ctx, key, model, hist, size, scratch, tier)
                    if ctx.violations:
                        return


def one(case, ctx, key, model, hist, size, scratch, tier):
    ms = [circuit(case, k) for k in range(size)]
    states = [start(m, k) for k, m in enumerate(ms)]
    t, inputs = 5., []
    for dt, i, temp in [(0., .7, 22.)] + [INPUTS[h] for h in hist]:
        t += dt
        inputs.append(ecm.build_input((t, i, temp if case['temps'] else None)))
    sim = Simulator(cell_model=model, asoh=ecm.build_asoh(ms), transient_state=ecm.build_state(states), initial_input=inputs[0], keep_history=True)
    sim.evolve(inputs[1:])
    ctx.transition(len(hist))
    plain, extra = sim.to_batdata(), sim.to_batdata(extra_columns=True)
    ctx.equal(key, 'number of datasets', [len(plain), len(extra)], [size, size])
    sources = {'memory': plain, 'additional columns': extra}
    if size == 1 or len(hist) == 1 or tier != 'quick':
        loaded = []
        for d in plain if len(hist) % 2 else extra:
            path = scratch.new()
            d.to_hdf(path)
            loaded.append(CellDataset.from_hdf(path))
            loaded[-1].path = path
        sources['file'] = loaded
    volts = [d.raw_data['voltage'].to_numpy() for d in plain]
    table = sim.to_dataframe()
    for name, data in sources.items():
        for k, d in enumerate(data):
            # The rows are the inputs
            got = [row_to_inputs(row) for _, row in d.raw_data.iterrows()]
            again = Simulator(cell_model=model, asoh=ecm.build_asoh(ms[k]), transient_state=ecm.build_state(states[k]), initial_input=got[0][0])
            out = [again.measurement.to_numpy()[0, 0]] + [again.step(new)[1].to_numpy()[0, 0] for new, _ in got[1:]]
            ctx.close(key, f'voltage of member {k} simulated with the rows from {name}', out, volts[k], rtol=1e-9)
            ctx.close(key, f'voltage of member {k} in the rows from {name}', [o.to_numpy()[0, 0] for _, o in got], volts[k], rtol=1e-12)
            # The truth has no loss, others that between the voltages
            asoh = ecm.build_asoh(ms[0])
            for field in NAMES + [f'rc_elements.{j}.{p}.base_values' for j in range(case['rc']) for p in 'rc']:
                asoh.mark_updatable(field)
            loss = MeanSquaredLoss(model, asoh, ecm.build_state(states[-1]), d)
            x = np.array([truth(m, s) for m, s in zip(ms, states)])
            want = [np.mean((volts[k] - v) ** 2) for v in volts]
            got = loss(x)
            ctx.transition(len(x) * len(hist))
            if not np.allclose(got, want, rtol=1e-6, atol=1e-20) or not got[k] < 1e-20:
                ctx.violation(key, f'the loss of the true values of members 0..{size - 1} on the record of member {k} from {name} is {got}, not {want}')
            ctx.outcome([float(f'{v:.6g}') for v in want])
            # Estimators at the truth stay there
            if tier == 'quick' and name == 'additional columns' and len(hist) == 3:
                continue
            for kind in ('joint', 'dual') if name == 'memory' or size == 1 else ('joint',):
                follow(case, ctx, f'{key} {kind} {name}', model, kind, ms[k], states[k], inputs[0], d, table[table['batch'] == k], volts[k], scratch)
            if ctx.violations:
                return
    ctx.trace()
    ctx.sample({'inputs': hist, 'voltages': volts})


def follow(case, ctx, key, model, kind, m, state, first, data, table, volts, scratch):
    asoh = ecm.build_asoh(m)
    asoh.mark_updatable('r0.base_values')
    n = len(ecmref.vector(state))
    kw = dict(cell_model=model, initial_asoh=asoh, initial_transients=ecm.build_state(state), initial_inputs=first, covariance_transient=np.diag([1e-4] * n), covariance_asoh=np.array([[1e-5]]),
              transient_covariance_process_noise=1e-8 * np.eye(n), asoh_covariance_process_noise=np.array([[1e-10]]), covariance_sensor_noise=np.array([[1e-5]]))
    est = {'joint': JointEstimator, 'dual': DualEstimator}[kind].initialize_unscented_kalman_filter(**kw)
    names = ['soc'] + (['q0'] if case['c0'] else []) + (['i_rc'] if case['rc'] == 1 else [f'i_rc[{i}]' for i in range(case['rc'])]) + ['hyst']
    source = getattr(data, 'path', None)
    path = scratch.new()
    writer = HDF5Writer(hdf5_output=path, per_timestep='mean')
    got, end = run_online_estimate(data if source is None else source, est, hdf5_output=writer)
    ctx.transition(len(table))
    if end is not est:
        ctx.violation(key, 'another estimator is returned')
    want = np.concatenate([table[names].to_numpy(dtype=float), np.full((len(table), 1), m['r0'][0])], axis=1)
    ctx.close(key, 'estimates', got.to_numpy()[:, :n + 1], want, rtol=1e-6, atol=1e-7)
    ctx.close(key, 'predicted voltages', got['terminal_voltage'], volts, rtol=1e-6)
    stored = list(read_state_estimates(path))
    ctx.close(key, 'stored times', [s[0] for s in stored], table['time'].to_numpy(dtype=float), rtol=1e-12)
    ctx.close(key, 'stored estimates', [s[1].get_mean() for s in stored], want, rtol=1e-6, atol=1e-7)
    ctx.close(key, 'stored outputs', [s[2].get_mean() for s in stored], volts[:, None], rtol=1e-6)
    with h5py.File(path) as f:
        ctx.equal(key, 'stored names', [str(s) for s in f['state_estimates'].attrs['state_names']], list(got.columns[:n + 1]))
    t, a = end.get_estimated_state()
    ctx.close(key, 'estimated state', t.to_numpy(), want[-1:, :n], rtol=1e-6, atol=1e-7)
    ctx.close(key, 'estimated health', a.get_parameters(), want[-1:, n:], rtol=1e-6)


CHARGED = {'line': dict(ocv=[3., 4.1]), 'flat': dict(ocv=[3.5]), 'cubic': dict(ocv=[3., 3.5, 3.55, 4.2], ocv_style='cubic'), 'drop': dict(ocv=[3.2, 3.9], r0=[.08])}
GRIDS = {'default': None, 'few': 5, 'uneven': [0., .2, .55, .8, 1.]}


def charge(case, ctx, tier):
    """Full charges, as extractors want them"""
    steps = 40
    for qt, cell, style in itertools.product((.5, 2.), (1., None), ('memory', 'file')):
        m = ecmref.member(**{'qt': qt, 'r0': [.03], **CHARGED[case['kind']]})
        current = case['rate'] * qt
        duration = 3600 / case['rate']
        sim = Simulator(cell_model=EquivalentCircuitModel(), asoh=ecm.build_asoh(m), transient_state=ecm.build_state(ecmref.initial(m, soc=0., hyst=0.)),
                        initial_input=ecm.build_input((0., current, 25.)), keep_history=True)
        sim.evolve([ecm.build_input((duration * (k + 1) / steps, current, 25.)) for k in range(steps)])
        ctx.transition(steps)
        data, = sim.to_batdata()
        data.raw_data['cycle_number'] = 0
        StateOfCharge().enhance(data.raw_data)
        if style == 'file':
            with tables.Scratch() as scratch:
                path = scratch.new()
                data.to_hdf(path)
                data = CellDataset.from_hdf(path)
        key = f'{case} {qt} {style}'
        ctx.state(key)
        cap = MaxCapacityExtractor().extract(data)
        ctx.close(key, 'capacity', cap.base_values, [[qt]], rtol=1e-9)
        for grid, pts in GRIDS.items():
            ext = OCVExtractor(cap if cell is None else qt, **({} if pts is None else {'soc_points': pts if isinstance(pts, int) else np.array(pts)}))
            ext.check_data(data)
            ocv = ext.extract(data)
            at = np.linspace(0, 1, 11) if pts is None else np.linspace(0, 1, pts) if isinstance(pts, int) else np.array(pts)
            want = [ecmref.interp(m['ocv'], m['ocv_pin'], m['ocv_style'], s) + current * m['r0'][0] for s in at]
            ctx.close(f'{key} {grid}', 'voltages', ocv.ocv_ref.base_values, [want], rtol=1e-6)
            # The charge is explained by what was extracted
            asoh = ecm.build_asoh(dict(m, r0=[0.]))
            asoh.q_t, asoh.ocv = cap, ocv
            loss = MeanSquaredLoss(EquivalentCircuitModel(), asoh, ecm.build_state(ecmref.initial(m, soc=0., hyst=0.)), data)
            got = loss(loss.get_x0()[None, :])
            ctx.transition(steps)
            if not got[0] < 1e-10:
                ctx.violation(f'{key} {grid}', f'the loss of the extracted capacity and voltages is {got}')
            if grid == 'few':
                found, health, res = ScipyMinimizer(loss, method='Nelder-Mead', options={'maxiter': 1}).estimate()
                ctx.close(f'{key} {grid}', 'what a fit from there gives', found.to_numpy()[0, :1], [0.], rtol=1, atol=1e-3)
            ctx.trace()
        ctx.outcome([qt, want])
    ctx.sample({'case': case, 'voltages': want})


def run(case, ctx, tier):
    (record if case['what'] == 'record' else charge)(case, ctx, tier)
