"""Adapter to the Thevenin package"""
import itertools

import numpy as np

from .. import thev  # noqa: F401

from moirae.models.thevenin import TheveninASOH, TheveninInput, TheveninModel, TheveninTransient  # noqa: E402 (needs the stand-in)
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable  # noqa: E402

LEVEL = 'model_checking'
BATCH = 3
BOUND = {
    'quick': 'circuits of 0-2 RC elements, isothermal or not; no field batched, each one, each pair, and all of them, in batches of 3; every sequence '
             'of 2 steps over currents (2, 0, -1) A and durations (30, 0, 1200) s, with states handed on; polynomials of degree 0-2 of SOC and '
             'temperature',
    'thorough': 'as quick, with every three fields batched and sequences of 3 steps if at most one is',
}
ASSUMPTIONS = ['the solver is a stand-in with a closed form, since the package is not installed', 'the temperature of the cell at the start of '
               'a step is not handed to the solver, which starts from the environment temperature', 'previous inputs are batched only if new ones are']
RULE = 'A case is a circuit, thermal mode and set of batched fields'
TOP = {'soc': .4, 'temp': 301., 'capacity': 1.5, 'mass': .2, 'c_p': 900., 'h_thermal': 11., 'a_therm': .6, 't_inf': 295., 'current': None, 'time': None}
VARY = {'soc': .06, 'temp': 4., 'capacity': .3, 'mass': .04, 'c_p': 70., 'h_thermal': 2., 'a_therm': .2, 't_inf': 6., 'current': .3, 'time': 20.}
PARTS = ('t_ref', 'soc_coeffs', 't_coeffs')


def fields(n):
    out = list(TOP) + ['ocv'] + (['eta'] if n else [])
    for i in range(n + 1):
        out += [f'r{i}.{p}' for p in PARTS]
    for i in range(n):
        out += [f'c{i}.{p}' for p in PARTS]
    return out


def cases(tier):
    for n in range(3):
        names = fields(n)
        for iso in (False, True):
            yield dict(n=n, iso=iso, group=[[]])
            yield dict(n=n, iso=iso, group=[names])
            yield dict(n=n, iso=iso, group=[names[::2], names[1::2]])
            yield dict(n=n, iso=iso, group=[[a] for a in names])
            for a in names:
                pairs = [[a, b] for b in names[names.index(a) + 1:]]
                if tier != 'quick':
                    pairs += [[a, b, c] for b, c in itertools.combinations(names[names.index(a) + 1:], 2)]
                if pairs:
                    yield dict(n=n, iso=iso, group=pairs)


def base(n, name, i):
    """Value of a field for a member"""
    k = int(name[1]) if name[1].isdigit() else 0
    if name in TOP:
        return TOP[name] + VARY[name] * i
    if name == 'ocv':
        return [3.1 + .1 * i, .8 - .2 * i, -.3 * i][:2 + (n > 0)]
    if name == 'eta':
        return [(.02 + .03 * i) * (-1) ** j + .01 * j for j in range(n)]
    part = name.split('.')[1]
    if name[0] == 'r':
        return {'t_ref': 298. + 3 * i - k, 'soc_coeffs': [.05 + .01 * k + .007 * i, .02 - .005 * i, .01 * i][:1 + k + (k == 0)],
                't_coeffs': [.002 * i, 1e-4 * (1 + k), 1e-6][:3 - k % 2]}[part]
    return {'t_ref': 290. - 2 * i, 'soc_coeffs': [900. + 300 * k + 120 * i, 50. * (i + 1)], 't_coeffs': [10. * i, 1.5]}[part]


def member(n, batched, i):
    return {f: base(n, f, i if f in batched else 0) for f in fields(n) if f not in ('current', 'time')}


def poly(coeffs, x):
    return sum(c * x ** j for j, c in enumerate(coeffs))


def both(m, prefix, soc, temp):
    return poly(m[f'{prefix}.t_coeffs'], temp - m[f'{prefix}.t_ref']) + poly(m[f'{prefix}.soc_coeffs'], soc)


def params(m, n, iso):
    p = {'num_RC_pairs': n, 'isothermal': iso, 'soc0': m['soc'], 'capacity': m['capacity'], 'mass': m['mass'], 'Cp': m['c_p'], 'T_inf': m['t_inf'],
         'h_therm': m['h_thermal'], 'A_therm': m['a_therm']}
    funcs = {'ocv': lambda soc: poly(m['ocv'], soc), 'R0': lambda soc, t: both(m, 'r0', soc, t)}
    for j in range(n):
        funcs[f'R{j + 1}'] = lambda soc, t, j=j: both(m, f'r{j + 1}', soc, t)
        funcs[f'C{j + 1}'] = lambda soc, t, j=j: both(m, f'c{j}', soc, t)
    return p, funcs


def array(members, name):
    vals = [m[name] if isinstance(m[name], list) else [m[name]] for m in members]
    return np.array(vals if any(v != vals[0] for v in vals) or len(vals) == 1 else vals[:1], dtype=float)


def build(members, n):
    def var(prefix):
        return SOCTempPolynomialVariable(**{p: array(members, f'{prefix}.{p}') for p in PARTS})
    asoh = TheveninASOH(ocv=SOCPolynomialVariable(coeffs=array(members, 'ocv')), r=tuple(var(f'r{i}') for i in range(n + 1)),
                        c=tuple(var(f'c{i}') for i in range(n)), **{k: array(members, k) for k in ('capacity', 'mass', 'c_p', 'h_thermal', 'a_therm')})
    return asoh


def voltage(m, current):
    return poly(m['ocv'], m['soc']) + current * both(m, 'r0', m['soc'], m['temp']) - sum(m.get('eta', []))


def explore(case, batched, ctx, tier):
    n, iso = case['n'], case['iso']
    size = BATCH if batched else 1
    members = [member(n, batched, i) for i in range(size)]
    asoh = build(members, n)
    model = TheveninModel(isothermal=iso)
    sim_batched = [f for f in batched if f in ('soc', 'temp', 'eta')]

    def one(name, f=None):
        rows = array(members, name)
        return rows if name in sim_batched else rows[:1]
    if n:
        start = TheveninTransient(soc=one('soc'), temp=one('temp'), eta=one('eta'))
    else:
        start = TheveninTransient.from_asoh(asoh)
        start.soc, start.temp = one('soc'), one('temp')

    def spread(v, name):
        return np.array([[v + VARY[name] * i] for i in range(size)]) if name in batched else v

    def make(t, cur):
        return TheveninInput(time=spread(t, 'time') if t else 0., current=spread(cur, 'current'), t_inf=array(members, 't_inf'))

    depth = 2 if tier == 'quick' or len(batched) > 1 else 3
    if len(batched) == 2:
        steps = [(2., 30.), (-1., 1200.), (0., 0.)]
    else:
        steps = list(itertools.product((2., 0., -1.), (30., 0., 1200.)))

    def recurse(hist, t, state, mems, prev_times):
        for cur, dt in steps:
            key = f'{case["n"]} {iso} {batched} {hist + [(cur, dt)]}'
            new_t = t + dt
            prev, new = make(t, 5.), make(new_t, cur)  # The current of the step is that at its end
            before = [o.model_dump_json() for o in (state, asoh, prev, new)]
            del thev.LOG[:]
            out = model.update_transient_state(prev, new, state, asoh)
            ctx.transition()
            ctx.equal(key, 'arguments afterwards', [o.model_dump_json() for o in (state, asoh, prev, new)], before)
            # What the solver was to be asked
            want_log, after, times = [], [], []
            for i, m in enumerate(mems):
                c = cur + (VARY['current'] * i if 'current' in batched else 0)
                time = new_t + (VARY['time'] * i if 'time' in batched and new_t else 0)
                length = time - prev_times[i]
                times.append(time)
                m = dict(m)
                if length:
                    p, f = params(m, n, iso)
                    soc, temp, eta = thev.solve({**p, **f}, m['soc'], m.get('eta', []), -c, length)
                    want_log.append({'current': -c, 'dt': length, 'eta': m.get('eta', []), **p})
                    m['soc'], m['temp'] = soc, temp
                    if n:
                        m['eta'] = eta
                after.append(m)
            # A state without members of its own stays so if nothing happens
            want = [[m['soc'], m['temp'], *m.get('eta', [])] for m in after]
            got = out.to_numpy()
            if got.shape[0] == 1 and all(w == want[0] for w in want):
                want = want[:1]
            ctx.close(key, 'state', got, want)
            ctx.outcome(want)
            ctx.state(case, batched, got)
            if len(thev.LOG) != len(want_log):
                ctx.violation(key, f'{len(thev.LOG)} models were solved, expected {len(want_log)}')
            for i, (g, w) in enumerate(zip(thev.LOG, want_log)):
                ctx.equal(key, 'parameters handed over', sorted(g), sorted(w))
                for k in w:
                    ctx.close(key, f'{k} handed over for member {i}', np.ravel(np.asarray(g[k], dtype=float)), np.ravel(np.asarray(w[k], dtype=float)))
            v = model.calculate_terminal_voltage(new, out, asoh)
            volts = [voltage(m, cur + (VARY['current'] * i if 'current' in batched else 0)) for i, m in enumerate(after)]
            got = v.to_numpy()
            if got.shape[0] == 1 and np.allclose(volts, volts[0], rtol=1e-13):
                volts = volts[:1]
            ctx.close(key, 'voltage', got, [[x] for x in volts])
            if ctx.violations:
                return
            if len(hist) + 1 < depth:
                recurse(hist + [(cur, dt)], new_t, out, after, times)
                if ctx.violations:
                    return
            else:
                ctx.trace()

    recurse([], 0., start, members, [0.] * size)
    ctx.sample({'case': case['n'], 'batched': batched, 'members': members[:2]})


def run(case, ctx, tier):
    if case['group'] == [[]]:
        m = member(case['n'], [], 0)
        asoh = build([m], case['n'])
        out = TheveninTransient.from_asoh(asoh, soc=.25, temp=310.)
        ctx.close('from_asoh', 'state', out.to_numpy(), [[.25, 310.] + [0.] * case['n']])
        ctx.equal('from_asoh', 'number of RC elements', asoh.num_rc_elements, case['n'])
        for n_r, n_c in itertools.product(range(5), range(4)):  # One R more than there are C
            def make(n_r=n_r, n_c=n_c):
                return TheveninASOH(r=tuple(SOCTempPolynomialVariable() for _ in range(n_r)), c=tuple(SOCTempPolynomialVariable() for _ in range(n_c)))
            ctx.transition()
            try:
                got = make().num_rc_elements
            except ValueError:
                got = 'refused'
            ctx.equal(f'{n_r} {n_c}', 'number of RC elements', got, n_c if n_r == n_c + 1 else 'refused')
            ctx.outcome([n_r, n_c, got])
    for batched in case['group']:
        explore(case, batched, ctx, tier)
        if ctx.violations:
            return
