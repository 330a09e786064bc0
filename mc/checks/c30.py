"""Templates, defaults and copies"""
import copy
import itertools

import numpy as np

from .. import ecm, thev  # noqa: F401 (the stand-in for the solver must be there before the adapter is imported)

from moirae.models.ecm import ECMASOH, ECMInput, ECMTransientVector, EquivalentCircuitModel
from moirae.models.ecm.components import (EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity, OpenCircuitVoltage, ReferenceOCV, Resistance)
from moirae.models.thevenin import TheveninASOH, TheveninInput, TheveninTransient
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable

LEVEL = 'model_checking'
ARRAY = {'scalar': .3, 'list': [.3, .2, .5], 'array': np.array([.1, .4]), 'batch': np.array([[.1, .4], [.2, .3], [.3, .6]])}
OPTIONS = {'qt': [None, 2.5, np.array([1., 3., 2.])], 'CE': [None, .9], 'OCV': [None, *ARRAY.values()], 'R0': [None, *ARRAY.values()], 'C0': [None, *ARRAY.values()],
           'H0': [None, *ARRAY.values()]}
BOUND = {
    'quick': 'circuits: with and without series capacitor, 0 to 3 RC elements, every pair of optional arguments over every value (default, number, list, array, batch), elements given as '
             'numbers or arrays, the wrong number of elements; states: every combination of arguments, and from circuits; pairs of objects built in the same way (by all templates, by default '
             'arguments, as copies), before or after one another: each parameter of one is changed in every way (in place, by name, as part of a vector, which are updatable), and the other '
             'one, later ones and the arguments compared',
    'thorough': 'as quick, with every three optional arguments',
}
ASSUMPTIONS = ['constants of the templates which are not documented are not checked', 'objects which are passed as fields of others are part of them']


def cases(tier):
    out = []
    for c0, n in itertools.product((False, True), range(4)):
        for a, b in itertools.combinations(OPTIONS, 2):
            out.append(['circuit', c0, n, a, b])
        out.append(['elements', c0, n])
        out.append(['state', c0, n])
    out += [['independent', k] for k in BUILD]
    return out


def flat(x):
    """As the rows of a two-dimensional array"""
    return np.atleast_2d(np.array(x, dtype=float))


def column(x):
    return np.atleast_1d(np.array(x, dtype=float))[:, None]


def circuit(case, ctx, tier):
    _, c0, n, *names = case
    third = [None] if tier == 'quick' else [None] + [k for k in OPTIONS if k > max(names) and k not in names]
    for extra in third:
        chosen = names + ([extra] if extra else [])
        for values in itertools.product(*(OPTIONS[k] for k in chosen)):
            given = {k: v for k, v in zip(chosen, values) if v is not None}
            kept = copy.deepcopy(given)
            key = f'{case} {given}'
            sizes = {np.shape(v)[0] for k, v in given.items() if np.ndim(v) == (1 if k == 'qt' else 2) and (c0 or k != 'C0')}
            assert len(sizes) < 2
            asoh = ECMASOH.provide_template(has_C0=c0, num_RC=n, **given)
            ctx.transition()
            ctx.state(key)
            ctx.equal(key, 'number of RC elements', len(asoh.rc_elements), n)
            ctx.equal(key, 'series capacitor', asoh.c0 is not None, c0)
            want = {'q_t.base_values': column(given.get('qt', 10.)), 'ce': column(given.get('CE', 1.)), 'r0.base_values': flat(given.get('R0', .05)),
                    'h0.base_values': flat(given.get('H0', .05))}
            if 'OCV' in given:
                want['ocv.ocv_ref.base_values'] = flat(given['OCV'])
            if c0 and 'C0' in given:
                want['c0.base_values'] = flat(given['C0'])
            got = dict(asoh.iter_parameters(updatable_only=False))
            for k, v in want.items():
                ctx.close(key, k, got[k], v)
            if c0 and 'C0' not in given:  # The full charge makes a difference of 10 mV
                ctx.close(key, 'voltage of the capacitor at full charge', np.broadcast_to(want['q_t.base_values'] * 3600 / asoh.c0.base_values, want['q_t.base_values'].shape),
                          np.full_like(want['q_t.base_values'], .01))
            ctx.equal(key, 'updatable parameters', asoh.updatable_names, ())
            ctx.equal(key, 'size of the batch', asoh.batch_size, max(sizes, default=1))
            for k, v in given.items():
                if not np.array_equal(v, kept[k]):
                    ctx.violation(key, f'argument {k} was changed to {v}')
            at_rest(ctx, key, asoh, c0, n)
            # The arguments can be used for something else
            before = ecm.snapshot(asoh)
            for v in given.values():
                if isinstance(v, np.ndarray):
                    v += 1.
            ctx.equal(key, 'circuit after its arguments are changed', ecm.snapshot(asoh), before)
            for k, v in given.items():
                if isinstance(v, np.ndarray):
                    v[...] = kept[k]
            ctx.trace()
            ctx.outcome([v.tolist() for v in got.values()])
            if ctx.violations:
                return
    ctx.sample({'case': case, 'parameters': {k: v for k, v in got.items()}})


def at_rest(ctx, key, asoh, c0, n):
    """The state made for a circuit fits it, is at rest, and stays so as long as there is no current"""
    before = ecm.snapshot(asoh)
    state = ECMTransientVector.from_asoh(asoh)
    ctx.equal(key, 'names of the state', state.all_names, ('soc',) + ('q0',) * c0 + (() if n == 0 else ('i_rc',) if n == 1 else tuple(f'i_rc[{i}]' for i in range(n))) + ('hyst',))
    ctx.close(key, 'state made for the circuit', state.to_numpy(), np.zeros((1, 2 + c0 + n)))
    model, rest = EquivalentCircuitModel(), [ECMInput(time=t, current=0., temperature=30.) for t in (0., 500.)]
    new = model.update_transient_state(rest[0], rest[1], state, asoh)
    for s in (state, new):
        ctx.close(key, 'state at rest', s.to_numpy()[:1], np.zeros((1, 2 + c0 + n)))
        volts = model.calculate_terminal_voltage(rest[1], s, asoh).to_numpy()
        ocv = asoh.ocv(soc=[[0.]], temp=np.array([[30.]])).reshape(-1, 1)
        ctx.close(key, 'voltage at rest', volts, np.broadcast_to(ocv, volts.shape) if len(ocv) == 1 else ocv)
    ctx.equal(key, 'circuit after its use', ecm.snapshot(asoh), before)


def elements(case, ctx, tier):
    """RC elements, given one by one"""
    _, c0, n = case
    kinds = list(ARRAY.values()) + [np.array(.7), 0., [0., 0.]]
    for count in range(4):
        for values in itertools.islice(itertools.product(itertools.product(kinds, repeat=2), repeat=count), 0, None, 1 if count < 2 else 7 if count < 3 else 1009):
            key = f'{case} {values}'
            given, kept = [tuple(v) for v in values], copy.deepcopy(values)
            ctx.transition()
            ctx.state(key)
            try:
                asoh = ECMASOH.provide_template(has_C0=c0, num_RC=n, RC=given)
            except ValueError:
                ctx.outcome('refused')
                ctx.equal(key, 'refused', True, count != n)
                continue
            if n == 0:  # There is nothing to be described
                ctx.equal(key, 'number of elements', len(asoh.rc_elements), 0)
                continue
            ctx.equal(key, 'number of elements', len(asoh.rc_elements), n)
            ctx.equal(key, 'accepted', True, count == n)
            for i, (r, c) in enumerate(values):
                ctx.close(key, f'resistance of {i}', asoh.rc_elements[i].r.base_values, flat(r))
                ctx.close(key, f'capacitance of {i}', asoh.rc_elements[i].c.base_values, flat(c))
            ctx.outcome([(np.shape(r), np.shape(c)) for r, c in values])
            ctx.equal(key, 'arguments', str(values), str(kept))
            ctx.trace()
        if ctx.violations:
            return
    # Elements which are not described in detail
    asoh = ECMASOH.provide_template(has_C0=c0, num_RC=n)
    for i in range(n):
        for j in range(n):
            separate(ctx, f'{case} {i} {j}', asoh, f'rc_elements.{i}.r.base_values', f'rc_elements.{j}.r.base_values')
            separate(ctx, f'{case} {i} {j}', asoh, f'rc_elements.{i}.c.base_values', f'rc_elements.{j}.c.base_values')


def separate(ctx, key, asoh, name, other):
    """Changing one leaves the other alone"""
    if name == other:
        return
    asoh = asoh.model_copy(deep=True)
    before = ecm.snapshot(asoh)
    changed = dict(asoh.iter_parameters(updatable_only=False))[name]
    kept = dict(asoh.iter_parameters(updatable_only=False))[other].copy()
    changed *= 2
    asoh.mark_updatable(name)
    values = dict(asoh.iter_parameters(updatable_only=False))
    ctx.close(key, f'{other} when {name} is changed', values[other], kept)
    ctx.equal(key, 'updatable', asoh.updatable_names, (name,))
    changed -= changed // 2 if changed.dtype.kind == 'i' else changed / 2
    asoh.mark_all_fixed()
    ctx.equal(key, 'circuit afterwards', ecm.snapshot(asoh), before)


def state(case, ctx, tier):
    _, c0, n = case
    currents = [None, 0., -1.5, 2, np.float64(.5), [.1] * n, [.1 * k for k in range(n)], np.arange(n) - 1., tuple(range(n)), [.1] * (n + 1), np.ones(max(0, n - 1))]
    for soc, q0, i_rc, hyst in itertools.product((None, .4, 1), (None, 3., -2), currents, (None, -.01)):
        given = {k: v for k, v in (('soc', soc), ('q0', q0), ('i_rc', i_rc), ('hysteresis', hyst)) if v is not None}
        kept = copy.deepcopy(given)
        key = f'{case} {given}'
        ctx.state(key)
        ctx.transition()
        mismatch = i_rc is not None and np.ndim(i_rc) == 1 and len(i_rc) != n
        try:
            out = ECMTransientVector.provide_template(has_C0=c0, num_RC=n, **given)
        except ValueError:
            ctx.equal(key, 'refused', True, mismatch)
            continue
        ctx.equal(key, 'accepted', True, not mismatch)
        want = [soc or 0.] + ([q0 or 0.] if c0 else []) + (list(i_rc) if np.ndim(i_rc) else [i_rc or 0.] * n) + [hyst or 0.]
        ctx.close(key, 'state', out.to_numpy(), [want])
        ctx.equal(key, 'argument', str(given), str(kept))
        ctx.outcome(want)
        ctx.trace()
        if isinstance(i_rc, np.ndarray) and n:
            i_rc += 5.
            ctx.close(key, 'state after its argument is changed', out.to_numpy(), [want])
            i_rc -= 5.
    for soc, temp in itertools.product((None, .3), (None, 310.)):
        asoh = TheveninASOH(r=tuple(SOCTempPolynomialVariable() for _ in range(n + 1)), c=tuple(SOCTempPolynomialVariable() for _ in range(n)))
        out = TheveninTransient.from_asoh(asoh, **{k: v for k, v in (('soc', soc), ('temp', temp)) if v is not None})
        ctx.close(f'{case} {soc} {temp}', 'state', out.to_numpy(), [[soc or 0., temp or 298.] + [0.] * n])
        ctx.equal(f'{case} {soc} {temp}', 'RC elements', asoh.num_rc_elements, n)


def _ocv():
    return OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=[3., 4.]))


def _circuit():
    return ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ocv=_ocv(), r0=Resistance(base_values=.1))


BUILD = {
    'template': lambda: ECMASOH.provide_template(has_C0=True, num_RC=2),
    'template with arrays': lambda: ECMASOH.provide_template(has_C0=True, num_RC=1, OCV=np.array([3., 4.]), R0=[.1, .2], H0=ARRAY['batch'], RC=[(ARRAY['array'], 5.)]),
    'circuit with defaults': _circuit,
    'voltage with defaults': _ocv,
    'entropy with defaults': EntropicOCV,
    'hysteresis with defaults': lambda: HysteresisParameters(base_values=ARRAY['list']),
    'resistance with defaults': lambda: Resistance(base_values=ARRAY['array']),
    'Thevenin': TheveninASOH,
    'Thevenin with elements': lambda: TheveninASOH(r=(SOCTempPolynomialVariable(), SOCTempPolynomialVariable(soc_coeffs=[1., 2.])), c=(SOCTempPolynomialVariable(),)),
    'polynomial': SOCPolynomialVariable, 'polynomial of temperature': SOCTempPolynomialVariable,
    'state': lambda: ECMTransientVector.provide_template(has_C0=True, num_RC=2),
    'state of the circuit': lambda: ECMTransientVector.from_asoh(ECMASOH.provide_template(has_C0=True, num_RC=1)),
    'state with defaults': ECMTransientVector, 'inputs with defaults': ECMInput, 'Thevenin state': TheveninTransient, 'Thevenin inputs': TheveninInput,
    'Thevenin state of the circuit': lambda: TheveninTransient.from_asoh(TheveninASOH()),
}


def leaves(x):
    if hasattr(x, 'iter_parameters'):
        return dict(x.iter_parameters(updatable_only=False))
    return {k: getattr(x, k) for k in x.all_fields if getattr(x, k) is not None}


def changes(x):
    """Every way in which a single object can be changed"""
    names = [k for k, v in leaves(x).items() if v.size]
    if not hasattr(x, 'iter_parameters'):
        for k in names:
            yield f'{k} in place', lambda o, k=k: leaves(o)[k].__iadd__(1)
            yield f'{k} replaced', lambda o, k=k: setattr(o, k, leaves(o)[k] + 2.)
        yield 'vector', lambda o: o.from_numpy(o.to_numpy() + 3.)
        return
    for k in names:
        yield f'{k} in place', lambda o, k=k: leaves(o)[k].__iadd__(1)
        yield f'{k} set', lambda o, k=k: o.set_value(k, leaves(o)[k] + 2.)
        yield f'{k} updatable', lambda o, k=k: o.mark_updatable(k)

        def update(o, k=k):
            o.mark_updatable(k)
            o.update_parameters(o.get_parameters([k]) + 3., [k])
        yield f'{k} updated', update
    yield 'all updatable', lambda o: o.mark_all_updatable()
    yield 'own updatable', lambda o: o.mark_all_updatable(recurse=False)

    def many(o):
        o.mark_all_updatable()
        o.update_parameters(o.get_parameters() + 4.)
    yield 'all updated', many


def view(x):
    return ecm.snapshot(x), sorted((k, v.tolist(), v.dtype.kind) for k, v in leaves(x).items())


def independent(case, ctx, tier):
    _, kind = case
    build = BUILD[kind]
    copies = {'another': lambda x: build(), 'deep copy': lambda x: x.model_copy(deep=True), 'copied': copy.deepcopy, 'from JSON': lambda x: type(x).model_validate_json(x.model_dump_json())}
    if kind == 'Thevenin with elements' or kind == 'Thevenin':
        copies.pop('from JSON')  # The fields are declared to be of the base class
    copies['with values'] = (lambda x: x.make_copy(x.to_numpy())) if not hasattr(build(), 'iter_parameters') else (lambda x: x.make_copy(np.zeros((1, 0)), []))
    fresh = view(build())
    for name, do in list(changes(build())):
        for how, make in copies.items():
            for which in (0, 1):  # Whether the original or the copy is changed
                key = f'{kind} {name} {how} {which}'
                first = build()
                pair = [first, make(first)]
                ctx.equal(key, f'{how} of {kind}', view(pair[1])[0], fresh[0])
                do(pair[which])
                ctx.transition()
                ctx.state(key)
                if view(pair[which]) == fresh:
                    ctx.violation(key, f'{name} of {kind} had no effect')
                ctx.equal(key, f'{how} of {kind} ({1 - which}) after {name} of {which}', view(pair[1 - which])[0], fresh[0])
                ctx.equal(key, f'{kind} built after {name}', view(build()), fresh)
                ctx.outcome(view(pair[which])[1])
                ctx.trace()
                if ctx.violations:
                    return
    ctx.sample({'kind': kind, 'parameters': {k: v for k, v in leaves(build()).items()}})


def run(case, ctx, tier):
    {'circuit': circuit, 'elements': elements, 'state': state, 'independent': independent}[case[0]](case, ctx, tier)
