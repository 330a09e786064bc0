"""Dependence of circuit parameters on SOC and temperature"""
import itertools
import math

import numpy as np

from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, OpenCircuitVoltage, RCComponent,
                                          ReferenceOCV, Resistance)

from .. import ecm, ecmref, profiles

LEVEL = 'model_checking'
STYLES = ['linear', 'slinear', 'nearest', 'nearest-up', 'zero', 'previous', 'next', 'quadratic', 'cubic']
PINS = {2: [None, [0., 1.], [.25, .5], [-.25, 1.5]], 3: [None, [0., .5, 1.], [.125, .25, .875], [-1., .5, .75]],
        4: [None, [0., .25, .5, 1.], [.125, .375, .5, .875]], 5: [None, [0., .0625, .5, .75, 1.]]}
TEMPS = [None, 25., 40., -10., 0.]
BOUND = {
    'quick': 'every class of component, interpolation style, number of values from 1 to 5, set of pinpoints (even and not) and '
             'batch of 1 to 3 rows, at pinpoints, at 3 points in each interval and at 2 points on either side outside, given as '
             'a number, a list, a table with one column and one with many; temperatures ' + str(TEMPS) + ' with 3 factors (also different ones in a batch) and 4 '
             'reference temperatures; energies for every pair of SOC limits and choice of batched fields',
    'thorough': 'as quick with more points',
}
ASSUMPTIONS = ['for quadratic and cubic interpolation the values lie on a polynomial of that degree, which the interpolation must '
               'reproduce', 'the integral behind an energy is computed to a relative 3e-4 (exactly if the voltage is linear)']


def cases(tier):
    out = [['one', cls, tier] for cls in ('Resistance', 'Capacitance', 'EntropicOCV', 'ReferenceOCV', 'HysteresisParameters')]
    out += [['many', style, n] for style in STYLES for n in (2, 3, 4, 5)
            if n > {'quadratic': 2, 'cubic': 3}.get(style, 1)]
    out += [['temperature', g, t] for g in (0., .02, -.01) for t in (25., 10., -5., 0.)]
    out += [['factors', t] for t in (25., 0.)]
    out += [['ocv', e, t] for e in range(3) for t in (25., 0., 40.)]
    out += [['rc', i] for i in range(3)]
    out += [['energy', i, b] for i in range(4) for b in (1, 2, 3)]
    return out


def build(cls, values, pin=None, style='linear', **kw):
    return {'Resistance': Resistance, 'Capacitance': Capacitance, 'EntropicOCV': EntropicOCV, 'ReferenceOCV': ReferenceOCV,
            'HysteresisParameters': HysteresisParameters}[cls](
        base_values=np.array(values), soc_pinpoints=None if pin is None else np.array(pin), interpolation_style=style, **kw)


def points(pin, n, style, tier):
    """Pinpoints, points within each interval, and points outside"""
    xs = [i / (n - 1) for i in range(n)] if pin is None else list(pin)
    pts = list(xs)
    # Halfway is a tie, which round-off decides unless the numbers are exact
    half = .53125 if 'nearest' in style and n == 4 and pin is None else .5
    fractions = (.25, half, .8125) if tier == 'quick' else (.0625, .25, .4375, half, .5625, .8125, .9375)
    for a, b in zip(xs, xs[1:]):
        pts += [a + f * (b - a) for f in fractions]
    if style not in ('previous', 'zero'):
        pts += [xs[0] - .03125, xs[0] - .5]
    if style not in ('next',):
        pts += [xs[-1] + .03125, xs[-1] + .5]
    return pts


def forms(pts):
    """The same SOC values in the shapes which are accepted, with the shape of the result per member"""
    yield 'a list', list(pts), (1, len(pts))
    yield 'an array', np.array(pts), (1, len(pts))
    yield 'a column', np.array(pts)[:, None], (len(pts), 1)
    if len(pts) % 2:
        pts = pts[:-1]
    if pts:
        yield 'a table', np.array(pts).reshape(2, -1), (2, len(pts) // 2)
    for p in pts[:3]:
        yield 'a number', p, (1, 1)


def compare(ctx, key, what, f, pts, expected):
    """Compare the values of each member with what is expected"""
    for name, soc, shape in forms(pts):
        given = np.array(soc, copy=True)
        got = f(soc)
        flat = np.ravel(np.array(soc)).tolist()
        want = np.array([[e(x) for x in flat] for e in expected]).reshape((len(expected),) + shape)
        ctx.close(key, f'{what} at {name} of SOC {flat}', got, want)
        ctx.close(key, f'{name} of SOC after evaluating {what}', soc, given, rtol=0, atol=0)
        ctx.transition(len(flat) * len(expected))
    ctx.state(key)
    ctx.trace()


def factors(case, ctx):
    """Members whose dependence on temperature differs. Values are those of (health, condition), and those of each member are on the diagonal"""
    tref = case[1]
    for batch in (2, 3):
        for g in itertools.product((0., .02, -.01), repeat=batch):
            for vals, many, soc, temp in itertools.product(([.1], [.1, .3, .2]), (False, True), (.3, 'column'), (None, 40., 'column')):
                values = [[v * (k + 1) for v in vals] for k in range(batch if many else 1)]
                obj = build('Resistance', values, temperature_dependence_factor=list(g), reference_temperature=tref)
                socs = [[.1, .6, .9][k] if soc == 'column' else soc for k in range(batch)]
                temps = [[40., -10., 25.][k] if temp == 'column' else temp for k in range(batch)]
                got = obj.get_value(np.array(socs)[:, None] if soc == 'column' else soc, np.array(temps)[:, None] if temp == 'column' else temp)
                want = [ecmref.interp(values[k if many else 0], None, 'linear', socs[k]) * (1. if temps[k] is None else math.exp(-g[k] * (temps[k] - tref)))
                        for k in range(batch)]
                key = f'{case} {g} {vals} {many} {soc} {temp}'
                members = [got[k % got.shape[0], k % got.shape[1], 0] for k in range(batch)]
                ctx.close(key, f'resistances {values} of members with factors {g} and reference {tref} at SOC {socs} and {temps}', members, want)
                ctx.transition(batch)
                ctx.state(key)
    ctx.trace()


def run(case, ctx, tier):
    kind = case[0]
    rows = [[3., 4.5, 3.25, 3.75, 3.125], [.5, -1., .25, 2., .75], [-2., 1., 1., 8., 9.]]
    if kind == 'one':
        for batch, pin in itertools.product((1, 2, 3), (None, [.4])):
            obj = build(case[1], [[r[0]] for r in rows[:batch]], pin)
            compare(ctx, f'{case} {batch} {pin}', f'{case[1]} with one value', obj.get_value, [0., .5, 1., -.25, 1.5],
                    [lambda x, r=r: r[0] for r in rows[:batch]])
    elif kind == 'many':
        _, style, n = case
        for cls, pin, batch in itertools.product(('Resistance', 'ReferenceOCV', 'HysteresisParameters'), PINS[n], (1, 2, 3)):
            values = [r[:n] for r in rows[:batch]]
            if style in ('quadratic', 'cubic'):
                xs = [i / (n - 1) for i in range(n)] if pin is None else pin
                coefs = [(1., 2., -3., 1.), (0., -1., .5, -2.), (2., 0., 1., .5)][:batch]
                values = [[sum(c * x ** k for k, c in enumerate(cs[:3 if style == 'quadratic' else 4])) for x in xs] for cs in coefs]

            def ref(row):
                def f(x):
                    if style == 'zero':
                        return ecmref.interp(row, pin, 'previous', x)
                    return ecmref.interp(row, pin, style, x)
                return f

            obj = build(cls, values, pin, style)
            pts = points(pin, n, style, tier)
            compare(ctx, f'{case} {cls} {pin} {batch}', f'{cls}, {style} interpolation of {values} at pinpoints {pin}', obj.get_value,
                    pts, [ref(v) for v in values])
            again = obj.model_copy(deep=True)  # Pinpoints are kept once filled in
            compare(ctx, f'{case} {cls} {pin} {batch} again', f'{cls} evaluated again', again.get_value, pts, [ref(v) for v in values])
            if pin is None:
                ctx.close(f'{case} pin', 'pinpoints', obj.soc_pinpoints, [i / (n - 1) for i in range(n)])
            ctx.outcome(case, values, pin)
    elif kind == 'temperature':
        _, g, tref = case
        for vals, batch, temp, style in itertools.product(([.1], [.1, .05], [.1, .3, .2]), (1, 2), TEMPS, ('linear', 'nearest')):
            values = [[v * (k + 1) for v in vals] for k in range(batch)]
            obj = build('Resistance', values, None, style, temperature_dependence_factor=g, reference_temperature=tref)
            f = 1. if temp is None else math.exp(-g * (temp - tref))
            what = f'resistance {values} with factor {g} and reference {tref} at {temp}'
            expected = [lambda x, v=v: ecmref.interp(v, None, style, x) * f for v in values]
            for given in [temp] if temp is None else [temp, np.array(temp), np.array([[temp]])]:
                compare(ctx, f'{case} {values} {temp} {style}', what, lambda s: obj.get_value(s, given), [0., .3, 1., 1.2, -.1], expected)
            compare(ctx, f'{case} {values} {temp} {style} kw', what, lambda s: obj.get_value(soc=s, temp=temp), [.7], expected)
            ctx.outcome(case, f)
    elif kind == 'factors':
        factors(case, ctx)
    elif kind == 'ocv':
        _, e, tref = case
        ent = [[0.], [.01], [.01, -.02, .03]][e]
        for vals, batch, temp in itertools.product(([3.5], [3., 4.], [3., 3.7, 4.]), (1, 2), TEMPS):
            values = [[v + k for v in vals] for k in range(batch)]
            ents = [[v * (1 - 3 * k) for v in ent] for k in range(batch)]
            for ent_batch in {1, batch}:
                members = [(v, ents[k if ent_batch > 1 else 0]) for k, v in enumerate(values)]
                obj = OpenCircuitVoltage(ocv_ref=build('ReferenceOCV', values, None, reference_temperature=tref),
                                         ocv_ent=build('EntropicOCV', ents[:ent_batch]))
                before = obj.model_dump_json(exclude={'ocv_ref': {'soc_pinpoints'}, 'ocv_ent': {'soc_pinpoints'}})
                expected = [lambda x, v=v, n=n: ecmref.interp(v, None, 'linear', x)
                            + (0. if temp is None else (temp - tref) * ecmref.interp(n, None, 'linear', x)) for v, n in members]
                for name, call in (('value', obj.get_value), ('call', obj)):
                    compare(ctx, f'{case} {values} {temp} {ent_batch} {name}', f'OCV {members} with reference {tref} at {temp}',
                            lambda s: call(s, temp), [0., .25, .5, 1., 1.5, -.5], expected)
                ctx.equal(f'{case} unchanged', 'OCV parameters after evaluation',
                          obj.model_dump_json(exclude={'ocv_ref': {'soc_pinpoints'}, 'ocv_ent': {'soc_pinpoints'}}), before)
    elif kind == 'rc':
        vals = [([.1], [100.]), ([.1, .2], [100.]), ([.1, .2, .05], [100., 300.])][case[1]]
        for g, tref, temp, batch in itertools.product((0., .02), (25., 10.), TEMPS, (1, 2)):
            r = [[v * (k + 1) for v in vals[0]] for k in range(batch)]
            c = [[v * (2 * k + 1) for v in vals[1]] for k in range(batch)]
            obj = RCComponent(r=build('Resistance', r, temperature_dependence_factor=g, reference_temperature=tref),
                              c=build('Capacitance', c))
            f = 1. if temp is None else math.exp(-g * (temp - tref))
            want_r = [lambda x, v=v: ecmref.interp(v, None, 'linear', x) * f for v in r]
            want_c = [lambda x, v=v: ecmref.interp(v, None, 'linear', x) for v in c]
            pts = [0., .3, 1., 1.2, -.1]
            key = f'{case} {g} {tref} {temp} {batch}'
            compare(ctx, key + ' r', 'resistance', lambda s: obj.get_value(s, temp)[0], pts, want_r)
            compare(ctx, key + ' c', 'capacitance', lambda s: obj.get_value(s, temp)[1], pts, want_c)
            compare(ctx, key + ' tau', 'time constant', lambda s: obj.time_constant(s, temp), pts,
                    [lambda x, a=a, b=b: a(x) * b(x) for a, b in zip(want_r, want_c)])
    else:
        energy(case, ctx, tier)


def energy(case, ctx, tier):
    _, i, batch = case
    ocv = [[3.5], [3., 4.], [3., 3.7, 4.], [3., 3.4, 3.6, 4.]][i]
    pins = {3: [None, [.2, .3, .9]]}.get(len(ocv), [None])
    limits = [(0., 1.), (1., 0.), (.2, .7), (.7, .2), (.25, .25), (0., .5), (-.1, 1.1), (.999, 0.001)]
    fields = ('qt', 'ocv', 'ent', 'ocv_tref')
    for batched in itertools.chain.from_iterable(itertools.combinations(fields, k) for k in range(len(fields) + 1)):
        if bool(batched) != (batch > 1):
            continue
        for pin, ent in itertools.product(pins, ([0.], [.01], [.01, -.02])):
            members = []
            for b in range(batch):
                k = {f: b if f in batched else 0 for f in fields}
                members.append(ecmref.member(qt=2. + k['qt'], ocv=[v + k['ocv'] / 10 for v in ocv], ocv_pin=pin,
                                             ent=[v * (1 + k['ent']) for v in ent], ocv_tref=20. + 5 * k['ocv_tref']))
            asoh = ecm.build_asoh(members, batched=batched)
            for (a, b), temp in itertools.product(limits, (None, 20., 30.)):
                got = asoh.get_theoretical_energy((a, b), temp) if (a, b) != (0., 1.) or temp is not None \
                    else asoh.get_theoretical_energy()
                want = []
                for m in members:
                    lo, hi = min(a, b), max(a, b)
                    total = integrate(lambda s: ecmref.ocv(m, s, temp), lo, hi)
                    want.append([m['qt'] * total])
                got_1 = np.asarray(got)
                if set(batched) <= {'ent', 'ocv_tref'} and batch > 1 and got_1.shape == (1, 1) and (temp is None):
                    want = want[:1]  # Without temperature, these parameters do not take part
                ctx.transition()
                ctx.close(f'{case} {batched} {pin} {ent} {a} {b} {temp}', f'energy of {members}, SOC {a} to {b} at {temp}', got, want,
                          rtol=3e-4 if len(ocv) > 2 else 1e-9)
                ctx.state(members, a, b, temp)
                ctx.outcome(want)
                if ctx.violations:
                    return
    ctx.trace()


def integrate(f, a, b):
    return profiles.runge_kutta(lambda x, y: f(a + x), 0., b - a, n=400) if b > a else 0.
