"""A made-up cell model with several outputs and lists of states and parameters, and its reference"""
import math

import numpy as np

from moirae.models.base import CellModel, GeneralContainer, HealthVariable, InputQuantities, ListParameter, OutputQuantities, ScalarParameter


class Parts(HealthVariable):
    k: ListParameter
    s: ScalarParameter = 1.


class ToyHealth(HealthVariable):
    a: ScalarParameter
    w: Parts
    c: ScalarParameter


class ToyState(GeneralContainer):
    v: ListParameter
    x: ScalarParameter


class ToyInput(InputQuantities):
    heat: ScalarParameter


class ToyOutput(OutputQuantities):
    extra: ListParameter


class Toy(CellModel):

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        p, n, s, h = previous_inputs, new_inputs, transient_state, asoh
        dt = n.time - p.time
        x = s.x + h.a * dt * (p.current + 2 * n.current) * .01 + .1 * np.sin(s.v[:, :1])
        v = s.v * np.exp(-h.w.k * dt / 10) + h.c * n.current + .05 * h.w.s * p.heat * np.array([[1., -2.]])
        b = max(len(x), len(v))
        return ToyState(x=np.broadcast_to(x, (b, 1)).copy(), v=np.broadcast_to(v, (b, 2)).copy())

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        n, s, h = new_inputs, transient_state, asoh
        volts = 3 + s.x + h.a * n.current
        extra = np.concatenate(np.broadcast_arrays(s.v[:, :1] + s.v[:, 1:] * s.x, h.w.k[:, :1] * n.heat - s.v[:, 1:]), axis=1)
        b = max(len(volts), len(extra))
        return ToyOutput(terminal_voltage=np.broadcast_to(volts, (b, 1)).copy(), extra=np.broadcast_to(extra, (b, 2)).copy())


HEALTH = {'a': [.3], 'w.k': [.5, 2.], 'w.s': [1.5], 'c': [.2]}
START = [.4, -.6, .1]


def health(updatable=None):
    out = ToyHealth(a=HEALTH['a'][0], w=Parts(k=np.array([HEALTH['w.k']]), s=HEALTH['w.s'][0]), c=HEALTH['c'][0])
    if updatable is None:
        out.mark_all_updatable()
    for n in updatable or ():
        out.mark_updatable(n)
    return out


def start():
    return ToyState(v=np.array([START[:2]]), x=START[2])


def inputs(u):
    return ToyInput(time=u[0], current=u[1], heat=u[2])


def output(y):
    return ToyOutput(terminal_voltage=y[0], extra=np.array([y[1:]]))


def f(h, x, prev, new):
    """Reference of the update"""
    dt = new[0] - prev[0]
    v0, v1, pos = x
    return [v0 * math.exp(-h['w.k'][0] * dt / 10) + h['c'][0] * new[1] + .05 * h['w.s'][0] * prev[2],
            v1 * math.exp(-h['w.k'][1] * dt / 10) + h['c'][0] * new[1] - .1 * h['w.s'][0] * prev[2],
            pos + h['a'][0] * dt * (prev[1] + 2 * new[1]) * .01 + .1 * math.sin(v0)]


def g(h, x, new):
    v0, v1, pos = x
    return [3 + pos + h['a'][0] * new[1], v0 + v1 * pos, h['w.k'][0] * new[2] - v1]


def labels(names):
    return [f'{n}[{i}]' if len(HEALTH[n]) > 1 else n for n in names for i in range(len(HEALTH[n]))]


STATE_NAMES = ['v[0]', 'v[1]', 'x']
OUTPUT_NAMES = ['terminal_voltage', 'extra[0]', 'extra[1]']
CONTROL_NAMES = ['time', 'current', 'heat']
OPTIONS = [((10., 1., .5), [3.7, .3, -.2]), ((15., -2., -1.), [2.9, -1., .6]), ((5., 0., 2.), [3.2, .5, 1.])]


def read(h, names):
    return [v for n in names for v in h[n]]


def write(names, values):
    h = {k: list(v) for k, v in HEALTH.items()}
    i = 0
    for n in names:
        h[n] = [float(v) for v in values[i:i + len(h[n])]]
        i += len(h[n])
    assert i == len(values)
    return h
