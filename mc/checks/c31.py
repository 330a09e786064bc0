"""Users of the library side by side"""
import itertools
import re

import h5py
import numpy as np
import pandas as pd
from battdat.data import CellDataset

from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
from moirae.estimators.online.filters.distributions import MultivariateGaussian
from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.interface import run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.models.ecm import EquivalentCircuitModel
from moirae.models.ecm.components import MaxTheoreticalCapacity
from moirae.simulator import Simulator

from .. import ecm, est, sims, tables
from ..thev import TheveninSetup

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every pair of 14 kinds of users (simulators, direct use of the model, losses and minimizers, estimators and estimates over datasets, writers and readers, extractors, the Thevenin '
             'adapter; also two of the same kind), created from the very same objects and files; all 70 interleavings of their 4 operations, of which the first creates the user. Every result, and '
             'everything which is shared, is compared bit by bit with the same user on its own',
    'thorough': 'as quick, and all 1680 interleavings of 3 operations of every three kinds',
}
ASSUMPTIONS = ['operations of users are not concurrent, but take turns']
RULE = 'A case is a pair (or three) of kinds of users'
INPUTS = [(10., 1., 25.), (40., -2., 31.), (100., .5, 20.), (130., -1., 25.)]


class World:
    """Everything which is shared"""

    def __init__(self, scratch, read):
        self.scratch = scratch
        self.names = ['r0.base_values', 'ocv.ocv_ref.base_values']
        objs = est.objects('rc', self.names, (0., .5, 25.))
        self.asoh, self.state, self.first = objs['asoh'], objs['transients'], objs['inputs']
        self.asoh.r0.soc_pinpoints = None
        self.inputs = [ecm.build_input(i) for i in INPUTS]
        self.model = EquivalentCircuitModel()
        self.wear = sims.Wear()
        self.rows = tables.rows((0, 1, 2))
        frame = tables.frame(self.rows, cycles=[0, 1, 1])
        frame['cycle_capacity'] = [0., .2, .4]
        self.dataset = CellDataset(raw_data=frame)
        n = 30
        soc = np.linspace(0, 1, n)
        self.cycle = CellDataset(raw_data=pd.DataFrame({'test_time': 100. * np.arange(n), 'cycle_number': 0, 'current': 1. + soc, 'voltage': 3. + soc + .1 * np.sin(9 * soc), 'cycle_capacity': soc}),
                                 cycle_stats=pd.DataFrame({'cycle_number': [0, 1], 'capacity_charge': [1., .9]}))
        self.settings = est.settings('rc', self.names)
        self.tuning = {'alpha_param': .8}
        self.names_given = 0
        self.path = scratch.new()
        self.file = h5py.File(scratch.new(), 'w')
        self.group = self.file.create_group('shared')
        # Estimates to be read
        for target in (self.path, self.group) if read else ():
            with HDF5Writer(hdf5_output=target, per_timestep='mean_cov', per_cycle='full') as w:
                self.fill(w)
        self.thevenin = TheveninSetup()
        self.x = np.concatenate([self.state.to_numpy().repeat(2, 0) * [[1.], [1.1]], self.asoh.get_parameters().repeat(2, 0) * [[1.1], [.9]]], axis=1)

    def estimator(self, kind='joint'):
        from moirae.estimators.online.dual import DualEstimator
        from moirae.estimators.online.joint import JointEstimator
        cs = self.settings
        return {'joint': JointEstimator, 'dual': DualEstimator}[kind].initialize_unscented_kalman_filter(
            cell_model=self.model, initial_asoh=self.asoh, initial_transients=self.state, initial_inputs=self.first, covariance_transient=cs['cov_t'], covariance_asoh=cs['cov_a'],
            transient_covariance_process_noise=cs['q_t'], asoh_covariance_process_noise=cs['q_a'], covariance_sensor_noise=cs['r'],
            filter_args=self.tuning if kind == 'joint' else {'transient': self.tuning, 'asoh': self.tuning})

    def fill(self, writer, steps=4):
        writer.prepare(self.estimator(), steps, 2)
        for k in range(steps):
            self.append(writer, k)

    def append(self, writer, k, shift=0.):
        n = 3 + len(self.asoh.get_parameters()[0])
        writer.append_step(10. * k + shift, k // 2, MultivariateGaussian(mean=np.arange(n) + k + shift, covariance=(1 + k + shift) * np.eye(n)),
                           MultivariateGaussian(mean=np.array([3.5 + k + shift]), covariance=np.array([[.1 + k]])))

    def shared(self):
        """Values of all that is shared"""
        out = [ecm.snapshot(self.asoh, self.state, self.first, *self.inputs), self.asoh.updatable_names, self.x.tolist(), sorted(self.tuning.items()), self.thevenin.snapshot()]
        for data in (self.dataset, self.cycle):
            out += [(k, v.to_dict('list'), list(v.index)) for k, v in sorted(data.tables.items()) if v is not None]
        return out + [v.tolist() for v in self.settings.values()]

    def name(self):
        """A name for a group, of which each user has another"""
        self.names_given += 1
        return f'run{self.names_given}'

    def close(self):
        self.file.close()


def numbers(*values):
    """A copy of results, in a form in which they can be compared"""
    out = []
    for v in values:
        if isinstance(v, pd.DataFrame):
            out.append((list(v.columns), list(v.index), v.to_numpy(dtype=float).tolist()))
        elif isinstance(v, (list, tuple)):
            out.append(numbers(*v))
        elif isinstance(v, h5py.Group):
            found = []
            v.visititems(lambda name, d: found.append((name, repr(d[()].tolist()))) if isinstance(d, h5py.Dataset) else None)
            out.append((sorted(found), sorted((k, re.sub(r'"storage_key": *"[^"]*"', '', str(a))) for k, a in v.attrs.items())))
        elif hasattr(v, 'iter_parameters'):
            out.append([(k, p.tolist()) for k, p in v.iter_parameters(updatable_only=False)])
        elif hasattr(v, 'to_numpy'):
            out.append(v.to_numpy().tolist())
        elif hasattr(v, 'get_mean'):
            out.append((v.get_mean().tolist(), v.get_covariance().tolist()))
        else:
            out.append(repr(np.asarray(v).tolist()))
    return out


# Each yields the results of one operation after another
def simulator(w):
    sim = Simulator(cell_model=w.model, asoh=w.asoh, transient_state=w.state, initial_input=w.first, keep_history=True)
    yield sim.measurement
    yield sim.step(w.inputs[0])
    yield sim.evolve(w.inputs[1:3]), sim.to_dataframe()
    yield sim.step(w.inputs[3]), [d.raw_data for d in sim.to_batdata(extra_columns=True)], sim.asoh


def degrading(w):
    sim = Simulator(cell_model=EquivalentCircuitModel('linear'), asoh=w.asoh, transient_state=w.state, initial_input=w.first, degradation_model=w.wear, keep_history=True)
    yield sim.measurement
    yield sim.step(w.inputs[1]), sim.asoh
    yield sim.step(w.inputs[2]), sim.asoh, sim.to_dataframe()
    yield sim.evolve(w.inputs[3:]), sim.asoh, sim.asoh_history


def direct(w):
    yield w.model.calculate_terminal_voltage(w.first, w.state, w.asoh), w.asoh.get_theoretical_energy()
    new = w.model.update_transient_state(w.first, w.inputs[0], w.state, w.asoh)
    yield new, w.model.calculate_terminal_voltage(w.inputs[0], new, w.asoh)
    many = w.asoh.make_copy(w.asoh.get_parameters().repeat(2, 0) * [[1.], [1.2]])
    yield many, w.model.update_transient_state(w.first, w.inputs[1], w.state, many), w.model.calculate_terminal_voltage(w.inputs[1], w.state, many)
    yield w.asoh.get_parameters(), w.asoh.ocv(soc=[[.3], [.7]], temp=30.), w.asoh.r0.get_value(.3), w.asoh.expand_names(w.asoh.all_names)


def loss(w):
    fn = MeanSquaredLoss(w.model, w.asoh, w.state, w.dataset)
    yield fn.get_x0()
    yield fn(w.x)
    yield fn(w.x[1:]), fn.get_x0()
    yield fn(fn.get_x0()[None, :]), fn.asoh, fn.state


def minimizer(w):
    fit = ScipyMinimizer(MeanSquaredLoss(w.model, w.asoh, w.state, w.dataset), method='Nelder-Mead', options={'maxfev': 6})
    yield fit.objective.get_x0()
    s, a, r = fit.estimate()
    yield s, a, r.x
    yield fit.objective.asoh, fit.objective.state
    s, a, r = fit.estimate()
    yield s, a, r.fun


def online(kind):
    def user(w):
        e = w.estimator(kind)
        yield e.state, *e.get_estimated_state()
        yield e.step(w.inputs[0], est.measured(3.7))
        e.set_previous_inputs(w.first)
        yield e.state, e.step(w.inputs[1], est.measured(3.3))
        yield e.step(w.inputs[2], est.measured(3.6)), *e.get_estimated_state()
    return user


def over_dataset(w):
    e = w.estimator()
    name = w.name()
    yield e.state
    table, _ = run_online_estimate(w.dataset, e)
    yield table, e.state
    table, _ = run_online_estimate(w.dataset, e, hdf5_output=w.file.create_group(name))
    yield table, w.file[name]
    table, _ = run_online_estimate(w.dataset, e, output_states=False, hdf5_output=HDF5Writer(hdf5_output=w.file, storage_key=name + 'x', per_timestep='mean_cov'))
    yield e.state, w.file[name + 'x']


def writer(to):
    def user(w):
        name = w.name()
        target = {'group': lambda: w.group, 'path': lambda: w.scratch.new()}[to]()
        writer = HDF5Writer(hdf5_output=target, storage_key=name, per_timestep='mean_cov', per_cycle='mean')
        with writer:
            root = w.group[name] if to == 'group' else writer._group_handle
            yield writer.position
            writer.prepare(w.estimator(), 3, 2)
            w.append(writer, 0)
            yield root
            w.append(writer, 1, .5)
            w.append(writer, 2, .25)
            yield root
        if to == 'path':
            with h5py.File(target, 'r') as f:
                yield f[name], list(read_state_estimates(f[name])), writer.is_ready
        else:
            yield root, list(read_state_estimates(root)), writer.is_ready
    return user


def reader(which):
    def user(w):
        source = w.path if which == 'path' else w.group['state_estimates']
        it = read_state_estimates(source, per_timestep=True)
        yield next(it)
        yield next(it)
        yield list(read_state_estimates(source, per_timestep=False)), next(it)
        yield list(it)
    return user


def extractor(w):
    ocv = OCVExtractor(MaxTheoreticalCapacity(base_values=1.), soc_points=5)
    yield ocv.soc_points
    yield MaxCapacityExtractor().extract(w.cycle)
    ocv.check_data(w.cycle)
    yield ocv.interpolate_ocv(w.cycle.tables['raw_data'])
    yield ocv.extract(w.cycle)


def thevenin(w):
    t = w.thevenin
    yield t.model.calculate_terminal_voltage(t.inputs[0], t.state, t.asoh)
    new = t.model.update_transient_state(t.inputs[0], t.inputs[1], t.state, t.asoh)
    yield new
    new = t.model.update_transient_state(t.inputs[1], t.inputs[2], new, t.asoh)
    yield new, t.model.calculate_terminal_voltage(t.inputs[2], new, t.asoh)
    sim = Simulator(cell_model=t.model, asoh=t.asoh, transient_state=t.state, initial_input=t.inputs[0], keep_history=True)
    yield sim.evolve(t.inputs[1:]), sim.to_dataframe()


USERS = {'simulator': simulator, 'degrading': degrading, 'direct': direct, 'loss': loss, 'minimizer': minimizer, 'joint': online('joint'), 'dual': online('dual'), 'dataset': over_dataset,
         'writer to a group': writer('group'), 'writer to a file': writer('path'), 'reader of a file': reader('path'), 'reader of a group': reader('group'), 'extractor': extractor,
         'thevenin': thevenin}
assert len(USERS) == 14


def cases(tier):
    out = [[a, b] for i, a in enumerate(USERS) for b in list(USERS)[i:]]
    if tier == 'thorough':
        out += [list(c) for c in itertools.combinations(USERS, 3)]
    return out


def interleavings(counts):
    """Orders in which users take turns"""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = [n - (j == i) for j, n in enumerate(counts)]
            for tail in interleavings(rest):
                yield (i, *tail)


def run(case, ctx, tier):
    read = any('reader' in k for k in case)
    with tables.Scratch() as scratch:
        alone = []
        for kind in case:
            w = World(scratch, read)
            before = w.shared()
            results = []
            for out in USERS[kind](w):
                results.append(numbers(out))
                ctx.outcome(str(results[-1]))
            ctx.equal(f'{kind} alone', f'what is shared with {kind}', w.shared(), before)
            w.close()
            alone.append(results)
        ctx.sample({'case': case, 'alone': [str(a)[:300] for a in alone]})
        for order in interleavings([4 if len(case) == 2 else 3] * len(case)):
            w = World(scratch, read)
            before = w.shared()
            users = [USERS[k](w) for k in case]
            done = [0] * len(case)
            for pos, i in enumerate(order):
                got = numbers(next(users[i]))
                key = f'{case} {order[:pos + 1]}'
                if got != alone[i][done[i]]:
                    ctx.violation(key, f'operation {done[i]} of user {i} ({case[i]}) of {case} after turns {order[:pos]} gives {got}, on its own {alone[i][done[i]]}')
                done[i] += 1
                ctx.transition()
                ctx.state(case, order[:pos + 1])
            for u in users:
                u.close()
            ctx.equal(f'{case} {order}', f'what is shared by {case}', w.shared(), before)
            w.close()
            ctx.trace()
            if ctx.violations:
                return
