"""Simulations and their reference"""
import copy

import numpy as np

from moirae.models.base import DegradationModel

from . import ecm, ecmref


class Wear(DegradationModel):
    """Wears a circuit in a way to which everything given to it contributes

    Args:
        in_place: Whether to change and return the object which is passed in
    """

    def __init__(self, in_place=False):
        self.in_place = in_place

    def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
        asoh = previous_asoh if self.in_place else previous_asoh.model_copy(deep=True)
        grow = 0.01 * np.abs(new_inputs.current) + 0.002 * new_transients.soc + 1e-3 * new_measurements.terminal_voltage + 1e-6 * new_inputs.time
        if self.in_place and grow.shape[0] <= asoh.r0.base_values.shape[0]:
            asoh.r0.base_values *= 1 + grow
            asoh.q_t.base_values *= 0.99
        else:
            asoh.r0.base_values = asoh.r0.base_values * (1 + grow)
            asoh.q_t.base_values = asoh.q_t.base_values * 0.99
        return asoh


def wear(m, inp, state, volts):
    """The same for the reference"""
    out = copy.deepcopy(m)
    grow = 0.01 * abs(inp[1]) + 0.002 * state['soc'] + 1e-3 * volts + 1e-6 * inp[0]
    out['r0'] = [r * (1 + grow) for r in m['r0']]
    out['qt'] = m['qt'] * 0.99
    return out


def asoh_vector(m):
    """Capacity and series resistance"""
    return [m['qt']] + list(m['r0'])


def read_asoh(asoh, size):
    b = asoh.batch_size
    q = np.broadcast_to(asoh.q_t.base_values, (b, 1))
    r = np.broadcast_to(asoh.r0.base_values, (b, asoh.r0.base_values.shape[1]))
    both = np.concatenate([q, r], axis=1)
    return both


class Fold:
    """The reference for a simulation of one member"""

    def __init__(self, m, state, first, behavior, degrade):
        self.m, self.state, self.prev, self.behavior, self.degrade = m, state, first, behavior, degrade
        self.volts = ecmref.voltage(m, state, first)
        self.history = [(first, state, self.volts, m)]

    def step(self, inp):
        self.state = ecmref.step(self.m, self.state, self.prev, inp, self.behavior)
        self.prev = inp
        self.volts = ecmref.voltage(self.m, self.state, inp)
        if self.degrade:
            self.m = wear(self.m, inp, self.state, self.volts)
        self.history.append((inp, self.state, self.volts, self.m))


def inputs_vector(inp):
    return [v for v in inp if v is not None]


def member_inputs(inp, k):
    """Inputs of one member"""
    return tuple(v[k] if isinstance(v, list) else v for v in inp)


__all__ = ['Wear', 'Fold', 'ecm', 'ecmref']
