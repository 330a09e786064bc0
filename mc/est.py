"""Estimators over circuits and their reference"""
import copy

import numpy as np

from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.base import DegradationModel
from moirae.models.ecm import EquivalentCircuitModel

from . import ecm, ecmref, sims, toy, ukfref

# Small circuits with fast dynamics, so that every parameter matters within a few steps
CIRCUITS = {
    'r0': ecmref.member(qt=.5, ocv=[3., 3.6, 4.2], r0=[.05]),
    'rc': ecmref.member(qt=.5, ocv=[3., 3.6, 4.2], ent=[.001], r0=[.05], r0_g=.01, rc=[dict(r=[.02], c=[500.], g=.02)]),
    'full': ecmref.member(qt=.4, ce=.95, ocv=[3., 3.5, 3.7, 4.2], r0=[.05, .03], c0=[400.], rc=[dict(r=[.02], c=[500.]), dict(r=[.01, .03], c=[4000.])],
                          h0=[.05], gamma=40.),
}
STATES = {
    'r0': dict(soc=.4, hyst=0.),
    'rc': dict(soc=.4, hyst=.01, irc=[.3]),
    'full': dict(soc=.6, q0=20., hyst=-.01, irc=[.3, -.1]),
}


def member(name):
    return copy.deepcopy(CIRCUITS[name])


def state(name):
    return ecmref.initial(CIRCUITS[name], **copy.deepcopy(STATES[name]))


def place(name):
    """Keys of the value with this name in the dictionary of the reference"""
    fixed = {'q_t.base_values': ('qt',), 'ce': ('ce',), 'ocv.ocv_ref.base_values': ('ocv',), 'ocv.ocv_ref.reference_temperature': ('ocv_tref',),
             'ocv.ocv_ent.base_values': ('ent',), 'r0.base_values': ('r0',), 'r0.temperature_dependence_factor': ('r0_g',), 'c0.base_values': ('c0',),
             'h0.base_values': ('h0',), 'h0.gamma': ('gamma',)}
    if name in fixed:
        return fixed[name]
    p = name.split('.')
    assert p[0] == 'rc_elements', name
    return 'rc', int(p[1]), {'r.base_values': 'r', 'r.temperature_dependence_factor': 'g', 'c.base_values': 'c'}['.'.join(p[2:])]


def _at(m, keys):
    for k in keys[:-1]:
        m = m[k]
    return m, keys[-1]


def read(m, names):
    """Values of parameters, one after the other"""
    out = []
    for n in names:
        holder, k = _at(m, place(n))
        v = holder[k]
        out += list(v) if isinstance(v, list) else [v]
    return out


def labels(m, names):
    out = []
    for n in names:
        holder, k = _at(m, place(n))
        v = holder[k]
        out += [f'{n}[{i}]' for i in range(len(v))] if isinstance(v, list) and len(v) > 1 else [n]
    return out


def write(m, names, values):
    m = copy.deepcopy(m)
    i = 0
    for n in names:
        holder, k = _at(m, place(n))
        if isinstance(holder[k], list):
            size = len(holder[k])
            holder[k] = [float(v) for v in values[i:i + size]]
            i += size
        else:
            holder[k] = float(values[i])
            i += 1
    assert i == len(values)
    return m


def unvector(m, x):
    x = [float(v) for v in x]
    k = 0 if m['c0'] is None else 1
    return {'soc': x[0], 'q0': x[1] if k else None, 'irc': x[1 + k:-1], 'hyst': x[-1]}


def trans_names(m):
    n = len(m['rc'])
    return ['soc'] + ([] if m['c0'] is None else ['q0']) + ([f'i_rc[{i}]' for i in range(n)] if n > 1 else ['i_rc'] * n) + ['hyst']


def settings(name, names, scale=1.):
    """Covariances and noises which are correlated, and of which no two dimensions are the same"""
    m, s = member(name), state(name)
    x0 = ecmref.vector(s)
    sd_t = np.array([.02 if i == 0 else max(.02 * abs(v), .01) for i, v in enumerate(x0)]) * scale
    vals = np.array(read(m, names))
    sd_a = np.where(vals == 0, 1e-3, .05 * np.abs(vals)) * scale
    cov_t, cov_a = corr(sd_t, .3), corr(sd_a, -.5 / max(1, len(sd_a)))
    return {'cov_t': cov_t, 'cov_a': cov_a, 'q_t': .01 * corr(sd_t, .1), 'q_a': .02 * corr(sd_a, .2), 'r': np.array([[1e-3]])}


def asoh_object(m, names):
    asoh = ecm.build_asoh(m)
    for n in names:
        asoh.mark_updatable(n)
    return asoh


def objects(name, names, first):
    m = member(name)
    return {'cell_model': None, 'asoh': asoh_object(m, names), 'transients': ecm.build_state(state(name)), 'inputs': ecm.build_input(first)}


class JointRef:
    """Joint estimation of the reference"""

    def __init__(self, m, s, names, first, cov, q, r, behavior='constant', degrade=False, alpha=1., beta=2., kappa=0.):
        self.m, self.names, self.behavior, self.degrade = m, list(names), behavior, degrade
        self.nt = len(ecmref.vector(s))
        self.ukf = ukfref.UKF(self._f, self._h, ecmref.vector(s) + read(m, names), cov, q, r, first, alpha, beta, kappa)

    def _split(self, x):
        return unvector(self.m, x[:self.nt]), write(self.m, self.names, x[self.nt:])

    def _f(self, x, prev, new):
        s, m = self._split(x)
        prev, new = inp(prev), inp(new)
        out = ecmref.vector(ecmref.step(m, s, prev, new, self.behavior))
        if self.degrade:
            m = sims.wear(m, prev, s, ecmref.voltage(m, s, prev))
        return out + read(m, self.names)

    def _h(self, x, new):
        s, m = self._split(x)
        return [ecmref.voltage(m, s, inp(new))]

    def step(self, new, volts):
        """Returns: mean and covariance of the state, then of the output"""
        y, py = self.ukf.step(flat(new), [volts])
        return self.ukf.mean, self.ukf.cov, y, py

    def previous(self, first):
        self.ukf.u = flat(first)

    def copy(self):
        return _copy(self)


class DualRef:
    """Dual estimation of the reference"""

    def __init__(self, m, s, names, first, cov_t, cov_a, q_t, q_a, r, behavior='constant', degrade=False, tune_t=None, tune_a=None):
        self.m, self.names, self.behavior, self.degrade = m, list(names), behavior, degrade
        self.nt = len(ecmref.vector(s))
        self.t = ukfref.UKF(self._ft, self._ht, ecmref.vector(s), cov_t, q_t, r, first, **(tune_t or {}))
        self.a = ukfref.UKF(self._fa, self._ha, read(m, names), cov_a, q_a, r, first, **(tune_a or {}))

    def _ft(self, x, prev, new):
        return ecmref.vector(ecmref.step(self.m_prev, unvector(self.m, x), inp(prev), inp(new), self.behavior))

    def _ht(self, x, new):
        return [ecmref.voltage(self.m_prev, unvector(self.m, x), inp(new))]

    def _fa(self, x, prev, new):
        self.prev = inp(prev)
        if not self.degrade:
            return list(x)
        m, new = write(self.m, self.names, x), inp(new)
        return read(sims.wear(m, new, self.s_prev, ecmref.voltage(m, self.s_prev, new)), self.names)

    def _ha(self, x, new):
        m, new = write(self.m, self.names, x), inp(new)
        return [ecmref.voltage(m, ecmref.step(m, self.s_prev, self.prev, new, self.behavior), new)]

    def step(self, new, volts):
        self.m_prev = write(self.m, self.names, self.a.mean)
        self.s_prev = unvector(self.m, self.t.mean)
        self.prev = inp(self.a.u)
        y, py = self.t.step(flat(new), [volts])
        self.a.step(flat(new), [volts])
        n, k = self.nt, len(self.a.mean)
        cov = np.zeros((n + k, n + k))
        cov[:n, :n], cov[n:, n:] = self.t.cov, self.a.cov
        return np.concatenate([self.t.mean, self.a.mean]), cov, y, py

    def previous(self, first):
        self.t.u, self.a.u = flat(first), flat(first)

    def copy(self):
        return _copy(self)


def _copy(ref):
    out = copy.copy(ref)
    for k in ('ukf', 't', 'a'):
        if hasattr(ref, k):
            new = copy.copy(getattr(ref, k))
            # Functions are bound to the object
            for fn in ('f', 'h'):
                setattr(new, fn, getattr(out, getattr(new, fn).__name__))
            setattr(out, k, new)
    return out


def inp(u):
    u = [float(v) for v in u]
    return (u[0], u[1], u[2] if len(u) > 2 else None)


def flat(new):
    return [v for v in new if v is not None]


def build(kind, name, names, first, behavior='constant', degrade=False, wrap=False, convert=None, normalize=False, tuning=None, noise='given', order=None,
          scale=1., zero=()):
    """Estimator and its reference

    Args:
        kind: joint or dual
        name: Which circuit
        names: Parameters to be estimated, in the order of the state
        wrap: Whether to make the wrappers, rather than use the shortcut
        convert: Converters for the wrapper(s). A dictionary for joint, a pair for dual
        tuning: Tuning of the filter, or a pair
        zero: Which of the settings are zero
    """
    objs = objects(name, names, first)
    if wrap:  # More can be estimated than is
        objs['asoh'].mark_all_updatable()
    cs = settings(name, names, scale)
    for k in zero:
        cs[k] = np.zeros_like(cs[k])
    cell = EquivalentCircuitModel(current_behavior=behavior)
    noises = {} if noise == 'default' else cs
    tuning = tuning or ({} if kind == 'joint' else ({}, {}))

    def kw(t):
        return {f'{k}_param': v for k, v in t.items()}
    n = len(cs['cov_t'])
    size = n + len(cs['cov_a'])
    # Covariance of the joint state, with correlations between the two parts
    joint = np.zeros((size, size))
    joint[:n, :n], joint[n:, n:] = cs['cov_t'], cs['cov_a']
    q_joint = np.zeros((size, size))
    q_joint[:n, :n], q_joint[n:, n:] = cs['q_t'], cs['q_a']
    if kind == 'joint':
        kwargs = {}
        if order == 'blocks':
            kwargs.update(covariance_transient=cs['cov_t'].copy(), covariance_asoh=cs['cov_a'].copy())
        else:
            cross = .1 * np.sqrt(np.outer(np.diag(cs['cov_t']), np.diag(cs['cov_a'])))
            joint[:n, n:], joint[n:, :n] = cross, cross.T
            kwargs.update(covariance_joint=joint.copy())
        if noises:
            kwargs.update(covariance_sensor_noise=cs['r'].copy())
            if order == 'blocks':
                kwargs.update(transient_covariance_process_noise=cs['q_t'].copy(), asoh_covariance_process_noise=cs['q_a'].copy())
            else:
                kwargs.update(joint_covariance_process_noise=q_joint.copy())
        kwargs['filter_args'] = kw(tuning)
        if wrap:
            w = JointCellModelWrapper(cell_model=cell, asoh=objs['asoh'], transients=objs['transients'], inputs=objs['inputs'], asoh_inputs=tuple(names),
                                      **({'degradation_model': sims.Wear(degrade == 'in place')} if degrade else {}),
                                      **({'converters': convert} if convert else {}))
            est = JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=w, **kwargs)
        else:
            est = JointEstimator.initialize_unscented_kalman_filter(
                cell_model=cell, initial_asoh=objs['asoh'], initial_transients=objs['transients'], initial_inputs=objs['inputs'],
                normalize_asoh=normalize, **kwargs)
        ref = JointRef(member(name), state(name), names, flat(first), joint, q_joint if noises else 1e-8 * np.eye(size),
                       cs['r'] if noises else np.array([[1e-8]]), behavior, degrade, **tuning)
        return est, ref
    kwargs = dict(covariance_transient=cs['cov_t'].copy(), covariance_asoh=cs['cov_a'].copy())
    if noises:
        kwargs.update(transient_covariance_process_noise=cs['q_t'].copy(), asoh_covariance_process_noise=cs['q_a'].copy(),
                      covariance_sensor_noise=cs['r'].copy())
    kwargs['filter_args'] = {'transient': kw(tuning[0]), 'asoh': kw(tuning[1])}
    if wrap:
        cw, aw = convert or (None, None)
        w = CellModelWrapper(cell_model=cell, asoh=objs['asoh'], transients=objs['transients'], inputs=objs['inputs'],
                             **({'converters': cw} if cw else {}))
        d = DegradationModelWrapper(cell_model=cell, asoh=objs['asoh'], transients=objs['transients'], inputs=objs['inputs'], asoh_inputs=tuple(names),
                                    **({'degradation_model': sims.Wear(degrade == 'in place')} if degrade else {}),
                                    **({'converters': aw} if aw else {}))
        est = DualEstimator.initialize_ukf_from_wrappers(transient_wrapper=w, asoh_wrapper=d, **kwargs)
    else:
        est = DualEstimator.initialize_unscented_kalman_filter(
            cell_model=cell, initial_asoh=objs['asoh'], initial_transients=objs['transients'], initial_inputs=objs['inputs'],
            normalize_asoh=normalize, **kwargs)
    ref = DualRef(member(name), state(name), names, flat(first), cs['cov_t'], cs['cov_a'], cs['q_t'] if noises else 1e-8 * np.eye(n),
                  cs['q_a'] if noises else 1e-8 * np.eye(len(cs['cov_a'])), cs['r'] if noises else np.array([[1e-8]]), behavior, degrade,
                  tuning[0], tuning[1])
    return est, ref


def measured(volts):
    return ecm.ECMMeasurement(terminal_voltage=volts)


def compare(ctx, key, what, est, got, want, rtol=1e-6, each=True):
    """Compare the result of a step, and the state of the estimator, with the reference"""
    mean, cov, y, py = want
    sd = np.sqrt(np.abs(np.diag(cov))) + 1e-12
    ok = True
    state_, out = got
    ok &= within(ctx, key, f'mean of the state {what}', state_.get_mean(), mean, rtol, rtol * sd)
    ok &= within(ctx, key, f'covariance of the state {what}', state_.get_covariance(), cov, rtol, rtol * np.outer(sd, sd))
    ok &= within(ctx, key, f'mean of the output {what}', out.get_mean(), y, rtol, rtol * np.sqrt(np.diag(py)))
    sdy = np.sqrt(np.diag(py))
    ok &= within(ctx, key, f'covariance of the output {what}', out.get_covariance(), py, rtol, rtol * np.outer(sdy, sdy))
    return ok


def within(ctx, key, what, got, want, rtol, atol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        ctx.violation(key, f'{what}: shape {got.shape}, expected {want.shape}')
        return False
    if not np.all(np.abs(got - want) <= rtol * np.abs(want) + atol):  # False for NaN
        ctx.violation(key, f'{what}: got {got.tolist()}, expected {want.tolist()}')
        return False
    return True


class _ToyJoint(JointRef):

    def _f(self, x, prev, new):
        h = toy.write(self.names, x[3:])
        out = toy.f(h, x[:3], prev, new)
        if self.degrade:
            h = _toy_wear(h, prev, x[:3])
        return out + toy.read(h, self.names)

    def _h(self, x, new):
        return toy.g(toy.write(self.names, x[3:]), x[:3], new)

    def step(self, new, volts):
        y, py = self.ukf.step(new, volts)
        return self.ukf.mean, self.ukf.cov, y, py

    def previous(self, first):
        self.ukf.u = first


class _ToyDual(DualRef):

    def previous(self, first):
        self.t.u = self.a.u = first

    def _ft(self, x, prev, new):
        return toy.f(self.m_prev, list(x), prev, new)

    def _ht(self, x, new):
        return toy.g(self.m_prev, list(x), new)

    def _fa(self, x, prev, new):
        self.prev = prev
        if not self.degrade:
            return list(x)
        return toy.read(_toy_wear(toy.write(self.names, x), new, self.s_prev), self.names)

    def _ha(self, x, new):
        h = toy.write(self.names, x)
        return toy.g(h, toy.f(h, self.s_prev, self.prev, new), new)

    def step(self, new, volts):
        self.m_prev = toy.write(self.names, self.a.mean)
        self.s_prev = list(self.t.mean)
        self.prev = self.a.u
        y, py = self.t.step(new, volts)
        self.a.step(new, volts)
        n, k = self.nt, len(self.a.mean)
        cov = np.zeros((n + k, n + k))
        cov[:n, :n], cov[n:, n:] = self.t.cov, self.a.cov
        return np.concatenate([self.t.mean, self.a.mean]), cov, y, py


class ToyWear(DegradationModel):

    def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
        out = previous_asoh.model_copy(deep=True)
        out.a = out.a * (1 + .01 * np.abs(new_inputs.current) + .001 * new_measurements.terminal_voltage)
        out.w.k = out.w.k + .01 * new_transients.v
        out.c = out.c + .1  # Always, although it may not be estimated
        return out


def _toy_wear(h, inputs, x):
    volts = toy.g(h, x, inputs)[0]
    out = {k: list(v) for k, v in h.items()}
    out['a'] = [h['a'][0] * (1 + .01 * abs(inputs[1]) + .001 * volts)]
    out['w.k'] = [h['w.k'][0] + .01 * x[0], h['w.k'][1] + .01 * x[1]]
    out['c'] = [h['c'][0] + .1]
    return out


def corr(sd, rho):
    n = len(sd)
    return (rho * np.ones((n, n)) + (1 - rho) * np.eye(n)) * np.outer(sd, sd) if n else np.zeros((0, 0))


def toy_settings(names):
    sd_t = np.array([.1, .05, .2])
    sd_a = .1 * np.abs(np.array(toy.read(toy.HEALTH, names)))
    r = corr(np.array([.05, .1, .2]), .3)
    return {'cov_t': corr(sd_t, .3), 'cov_a': corr(sd_a, -.5 / max(1, len(sd_a))), 'q_t': .01 * corr(sd_t, .1), 'q_a': .02 * corr(sd_a, .2), 'r': r}


def build_toy(kind, names, first, degrade=False, wrap=True, convert=None, normalize=False, tuning=None):
    """Estimator of the made-up model with several outputs, and its reference"""
    cs = toy_settings(names)
    tuning = tuning or ({} if kind == 'joint' else ({}, {}))
    objs = {'asoh': toy.health(None if wrap else names), 'transients': toy.start(), 'inputs': toy.inputs(first)}
    deg = {'degradation_model': ToyWear()} if degrade else {}

    def kw(t):
        return {f'{k}_param': v for k, v in t.items()}
    n, k = len(cs['cov_t']), len(cs['cov_a'])
    if kind == 'joint':
        kwargs = dict(covariance_transient=cs['cov_t'].copy(), covariance_asoh=cs['cov_a'].copy(), transient_covariance_process_noise=cs['q_t'].copy(),
                      asoh_covariance_process_noise=cs['q_a'].copy(), covariance_sensor_noise=cs['r'].copy(), filter_args=kw(tuning))
        if wrap:
            w = JointCellModelWrapper(cell_model=toy.Toy(), asoh_inputs=tuple(names), **objs, **deg, **({'converters': convert} if convert else {}))
            e = JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=w, **kwargs)
        else:
            e = JointEstimator.initialize_unscented_kalman_filter(cell_model=toy.Toy(), **{f'initial_{a}': b for a, b in objs.items()}, normalize_asoh=normalize,
                                                                  **kwargs)
        cov, q = np.zeros((n + k, n + k)), np.zeros((n + k, n + k))
        cov[:n, :n], cov[n:, n:], q[:n, :n], q[n:, n:] = cs['cov_t'], cs['cov_a'], cs['q_t'], cs['q_a']
        ref = _ToyJoint.__new__(_ToyJoint)
        ref.names, ref.degrade, ref.nt = list(names), degrade, n
        ref.ukf = ukfref.UKF(ref._f, ref._h, toy.START + toy.read(toy.HEALTH, names), cov, q, cs['r'], first, **tuning)
        return e, ref
    kwargs = dict(covariance_transient=cs['cov_t'].copy(), covariance_asoh=cs['cov_a'].copy(), transient_covariance_process_noise=cs['q_t'].copy(),
                  asoh_covariance_process_noise=cs['q_a'].copy(), covariance_sensor_noise=cs['r'].copy(),
                  filter_args={'transient': kw(tuning[0]), 'asoh': kw(tuning[1])})
    if wrap:
        cw, aw = convert or (None, None)
        w = CellModelWrapper(cell_model=toy.Toy(), **objs, **({'converters': cw} if cw else {}))
        d = DegradationModelWrapper(cell_model=toy.Toy(), asoh_inputs=tuple(names), **objs, **deg, **({'converters': aw} if aw else {}))
        e = DualEstimator.initialize_ukf_from_wrappers(transient_wrapper=w, asoh_wrapper=d, **kwargs)
    else:
        e = DualEstimator.initialize_unscented_kalman_filter(cell_model=toy.Toy(), **{f'initial_{a}': b for a, b in objs.items()}, normalize_asoh=normalize,
                                                             **kwargs)
    ref = _ToyDual.__new__(_ToyDual)
    ref.names, ref.degrade, ref.nt = list(names), degrade, n
    ref.t = ukfref.UKF(ref._ft, ref._ht, toy.START, cs['cov_t'], cs['q_t'], cs['r'], first, **tuning[0])
    ref.a = ukfref.UKF(ref._fa, ref._ha, toy.read(toy.HEALTH, names), cs['cov_a'], cs['q_a'], cs['r'], first, **tuning[1])
    return e, ref
