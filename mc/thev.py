"""A stand-in for the ``thevenin`` package, which is not installed here

Implements the part of its interface that the adapter uses. The "solution" is a closed form in which each quantity handed
to the solver takes part, so that handing over a wrong one changes the result. Every model that runs is recorded.
"""
import sys
from types import ModuleType, SimpleNamespace

import numpy as np

LOG = []  # Parameters, starting overpotentials and steps of all models which were run


def scalar(x):
    x = np.asarray(x, dtype=float)
    if x.size != 1:
        raise ValueError(f'expected a single number, got {x!r}')
    return float(x.ravel()[0])


class Experiment:
    def __init__(self, **options):
        self.steps = []

    def add_step(self, mode, value, tspan, limits=None, **options):
        self.steps.append((mode, value, tspan))


class Model:
    def __init__(self, params='params.yaml'):
        self.params = dict(params)
        n = self.params['num_RC_pairs']
        self._ptr = {'soc': 0, 'T_cell': 1, 'eta_j': np.arange(2, 2 + n, dtype=int)}
        self._sv0 = np.zeros(2 + n)
        self._sv0[0] = scalar(self.params['soc0'])
        self._sv0[1] = 1.

    def run(self, exp, reset_state=True, t_shift=1e-3):
        (mode, value, tspan), = exp.steps
        if mode != 'current_A':
            raise ValueError(mode)
        current, dt = scalar(value), float(tspan[0])
        eta = np.array(self._sv0[self._ptr['eta_j']], dtype=float)
        p = self.params
        out = solve(p, scalar(p['soc0']), eta, current, dt)
        LOG.append({'current': current, 'dt': dt, 'eta': eta.tolist(), **{k: v for k, v in p.items() if not callable(v)}})
        n = max(2, int(tspan[1])) if len(tspan) > 1 else 2

        def series(last):  # Only the end is the solution
            return np.append(np.full(n - 1, -777.), last)
        names = {'soc': out[0], 'temperature_K': out[1], **{f'eta{i + 1}_V': e for i, e in enumerate(out[2])}}
        return SimpleNamespace(vars={k: series(v) for k, v in names.items()}, success=True)


def solve(p, soc, eta, current, dt):
    """Positive currents discharge, as in the package

    Returns:
        SOC, temperature and list of overpotentials after a time
    """
    t_inf = scalar(p['T_inf'])
    v = scalar(p['ocv'](soc)) - current * scalar(p['R0'](soc, t_inf)) - sum(eta)
    heat = 0. if p['isothermal'] else abs(current) * v / (scalar(p['mass']) * scalar(p['Cp'])
                                                          + scalar(p['h_therm']) * scalar(p['A_therm']))
    temp = t_inf + heat * dt
    new = []
    for i in range(p['num_RC_pairs']):
        r, c = scalar(p[f'R{i + 1}'](soc, t_inf)), scalar(p[f'C{i + 1}'](soc, t_inf))
        f = np.exp(-dt / (r * c))
        new.append(float(eta[i] * f + current * r * (1 - f)))
    return soc - current * dt / 3600 / scalar(p['capacity']), temp, new


module = ModuleType('thevenin')
module.Model, module.Experiment = Model, Experiment
sys.modules['thevenin'] = module


class TheveninSetup:
    """A circuit of two RC elements, a state and inputs"""

    def __init__(self):
        from moirae.models.thevenin import TheveninASOH, TheveninInput, TheveninModel, TheveninTransient
        from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable

        def var(*soc):
            return SOCTempPolynomialVariable(t_ref=np.array([298.]), soc_coeffs=np.array([soc]), t_coeffs=np.array([[0., 1e-4]]))
        self.model = TheveninModel(isothermal=False)
        self.asoh = TheveninASOH(capacity=np.array([1.5]), mass=np.array([.2]), c_p=np.array([900.]), h_thermal=np.array([11.]), a_therm=np.array([.6]),
                                 ocv=SOCPolynomialVariable(coeffs=np.array([[3.1, .8]])), r=(var(.05, .02), var(.03), var(.02, .01)), c=(var(900.), var(400., 30.)))
        self.state = TheveninTransient(soc=np.array([.4]), temp=np.array([301.]), eta=np.array([[.02, -.01]]))
        self.inputs = [TheveninInput(time=np.array([t]), current=np.array([i]), t_inf=np.array([k])) for t, i, k in ((0., 1., 295.), (30., 2., 296.), (90., -1., 290.))]

    def snapshot(self):
        objs = [self.asoh, self.state, *self.inputs]
        return [[(k, np.asarray(v).tolist()) for k, v in (o.iter_parameters(updatable_only=False) if hasattr(o, 'iter_parameters') else o)] for o in objs], self.model.isothermal
