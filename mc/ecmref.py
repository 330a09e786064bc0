"""A boring reference for the equivalent circuit model: one member at a time, plain Python floats, no arrays.

A member is a dictionary. Keys ending in ``_pin`` and ``_style`` describe the interpolation of the values.
"""
import math
from copy import deepcopy

NAN = float('nan')


def member(**kwargs):
    """A circuit of one member, with defaults"""
    out = dict(qt=1., ce=1., ocv=[3.5], ocv_pin=None, ocv_style='linear', ent=[0.], ent_pin=None, ent_style='linear',
               ocv_tref=25., r0=[0.05], r0_pin=None, r0_style='linear', r0_g=0., r0_tref=25., c0=None, c0_pin=None,
               c0_style='linear', rc=[], h0=[0.], h0_pin=None, h0_style='linear', gamma=0.)
    out.update(deepcopy(kwargs))
    out['rc'] = [dict(dict(r=[0.01], r_pin=None, r_style='linear', g=0., tref=25., c=[1000.], c_pin=None,
                           c_style='linear'), **rc) for rc in out['rc']]
    return out


def lagrange(xs, ys, x):
    """The polynomial through all points"""
    total = 0.
    for i, (xi, yi) in enumerate(zip(xs, ys)):
        term = yi
        for j, xj in enumerate(xs):
            if j != i:
                term *= (x - xj) / (xi - xj)
        total += term
    return total


def interp(values, pin, style, x):
    """Interpolate, extrapolating with the rule of the outermost interval"""
    n = len(values)
    if n == 1:
        return values[0]
    if pin is None:
        pin = [i / (n - 1) for i in range(n)]
    if style in ('linear', 'slinear'):
        i = 0
        while i < n - 2 and x > pin[i + 1]:
            i += 1
        return values[i] + (x - pin[i]) * (values[i + 1] - values[i]) / (pin[i + 1] - pin[i])
    if style in ('nearest', 'nearest-up'):
        best = 0
        for i in range(1, n):
            d_best, d = abs(x - pin[best]), abs(x - pin[i])
            if d < d_best or (d == d_best and style == 'nearest-up'):
                best = i
        return values[best]
    if style == 'previous':
        found = [v for p, v in zip(pin, values) if p <= x]
        return found[-1] if found else NAN
    if style == 'next':
        found = [v for p, v in zip(pin, values) if p >= x]
        return found[0] if found else NAN
    if style in ('quadratic', 'cubic'):
        # Only for values which lie on one polynomial of that degree
        degree = {'quadratic': 2, 'cubic': 3}[style]
        pts = list(range(degree + 1))
        return lagrange([pin[i] for i in pts], [values[i] for i in pts], x)
    raise ValueError(style)


def value(m, name, soc):
    return interp(m[name], m[f'{name}_pin'], m[f'{name}_style'], soc)


def ocv(m, soc, temp):
    v = value(m, 'ocv', soc)
    if temp is not None:
        v += (temp - m['ocv_tref']) * value(m, 'ent', soc)
    return v


def r0(m, soc, temp):
    v = value(m, 'r0', soc)
    if temp is not None:
        v *= math.exp(-m['r0_g'] * (temp - m['r0_tref']))
    return v


def rc_r(rc, soc, temp):
    v = interp(rc['r'], rc['r_pin'], rc['r_style'], soc)
    if temp is not None:
        v *= math.exp(-rc['g'] * (temp - rc['tref']))
    return v


def rc_c(rc, soc):
    return interp(rc['c'], rc['c_pin'], rc['c_style'], soc)


def sign(x):
    return (x > 0) - (x < 0)


def step(m, state, prev, new, behavior='constant'):
    """Advance a state

    Args:
        m: Circuit
        state: soc, q0 (or None), irc, hyst
        prev, new: (time, current, temperature)
    """
    t0, i0, temp = prev
    t1, i1, _ = new
    dt = t1 - t0
    soc = state['soc']
    linear = behavior == 'linear'
    if linear and dt == 0:
        linear, steady = False, True  # Nothing changes, so that the shape of the current does not matter
    else:
        steady = False

    # Whether the step charges or discharges
    direction = sign(i0)
    if behavior == 'linear' and direction == 0:
        direction = sign(i1)
    eff = 1. if direction < 0 else m['ce']

    charge = 0. if steady else (0.5 * (i0 + i1) * dt if linear else i0 * dt)
    out = {'soc': soc + eff * charge / (3600. * m['qt']),
           'q0': None if state['q0'] is None else state['q0'] + charge, 'irc': [], 'hyst': state['hyst']}

    for rc, i in zip(m['rc'], state['irc']):
        tau = rc_r(rc, soc, temp) * rc_c(rc, soc)
        decay = math.exp(-dt / tau)
        if linear:  # di/dt = (I0 + a t - i) / tau
            a = (i1 - i0) / dt
            out['irc'].append(i0 + a * dt - a * tau + (i - i0 + a * tau) * decay)
        else:
            out['irc'].append(i1 + (i - i1) * decay)

    # Pieces of the step during which the current keeps its sign: (charge which passes, sign)
    if not linear:
        pieces = [(i0 * dt, sign(i0))]
    elif i0 * i1 < 0:
        cross = dt * i0 / (i0 - i1)
        pieces = [(0.5 * i0 * cross, sign(i0)), (0.5 * i1 * (dt - cross), sign(i1))]
    else:
        pieces = [(charge, direction)]
    limit = value(m, 'h0', soc)
    for q, s in pieces:
        f = math.exp(-abs(eff * m['gamma'] * q / (3600. * m['qt'])))
        out['hyst'] = out['hyst'] * f + s * limit * (1 - f)
    return out


def voltage(m, state, inp):
    _, current, temp = inp
    soc = state['soc']
    v = ocv(m, soc, temp) + current * r0(m, soc, temp) + state['hyst']
    if state['q0'] is not None:
        v += state['q0'] / value(m, 'c0', soc)
    for rc, i in zip(m['rc'], state['irc']):
        v += i * rc_r(rc, soc, temp)
    return v


def vector(state):
    return [state['soc']] + ([] if state['q0'] is None else [state['q0']]) + list(state['irc']) + [state['hyst']]


def initial(m, soc=0., q0=0., irc=None, hyst=0.):
    return {'soc': soc, 'q0': None if m['c0'] is None else q0,
            'irc': [0.] * len(m['rc']) if irc is None else list(irc), 'hyst': hyst}
