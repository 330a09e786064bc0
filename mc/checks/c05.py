"""Health descriptions and containers in JSON"""
import itertools
import json

import numpy as np

from moirae.models.ecm import ECMASOH, ECMInput, ECMMeasurement, ECMTransientVector

from .. import ecm, ecmref, thev  # noqa: F401
from ..core import bfs, inner
from moirae.models.thevenin import TheveninInput, TheveninTransient  # noqa: E402 (needs the stand-in)
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable  # noqa: E402
from moirae.models.base import OutputQuantities  # noqa: E402

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every history of 4 operations (evaluate, simulate, write by vector with 1 or 2 rows, mark one, all or none, change '
             'pinpoints or interpolation, deep copy, trip through JSON) for 10 circuits, each trip checked against an object which '
             'did not take it, and every presence and batching of the fields of 9 other classes',
    'thorough': 'histories of 5 operations',
}
ASSUMPTIONS = ['fields have concrete types, as is the case for all classes in this code base']
CIRCUITS = [dict(), dict(c0=[1e3], rc=[dict()]), dict(ocv=[3., 3.5, 4.], r0=[.1, .2], rc=[dict(r=[.1, .2]), dict(c=[1e3, 2e3, 4e3])]),
            dict(ocv=[3., 3.5, 4.], ocv_pin=[.1, .2, .7], ent=[.01, -.02], ent_pin=[.2, .9], ocv_style='nearest'),
            dict(ocv=[3., 3.2, 3.5, 4.], ocv_style='cubic', c0=[1e3, 2e3], c0_pin=[.3, .4], h0=[.02, .05], h0_style='previous', gamma=.9),
            dict(r0=[.1, .3, .2], r0_style='quadratic', r0_g=.01, r0_tref=12.5, ocv_tref=10., ce=.9,
                 rc=[dict(r=[.1, .2], r_style='next', g=.02, tref=31., c=[1e3, 3e3], c_pin=[.5, .75])]),
            dict(qt=[1., 2.], rc=[dict(g=[.01, .02])]), dict(ocv=[[3., 4.], [3.2, 4.1]], rc=[dict(r=[[.1], [.2]])], c0=[[1e3], [2e3]]),
            dict(h0=[[.1], [.2]], gamma=[.5, .6], ce=[.9, 1.]), dict(qt=1 / 3, r0=[.1 + .2], r0_g=1e-300, ocv=[2. / 3, 1e17, np.pi])]


def cases(tier):
    return [['circuit', i, j] for j in range(8) for i in range(len(CIRCUITS))] + [['template', i, j] for j in range(8) for i in (0, 1)] \
        + [['container', i] for i in range(6)] + [['part', i] for i in range(3)]


def make_circuit(i):
    spec = CIRCUITS[i]
    batched = {6: ['qt', 'rc0.g'], 7: ['ocv', 'rc0.r', 'c0'], 8: ['h0', 'gamma', 'ce']}.get(i)
    if batched is None:
        return ecm.build_asoh(ecmref.member(**spec))
    members = []
    for b in (0, 1):
        kw = {k: v[b] for k, v in spec.items() if k in batched}
        kw['rc'] = [{k: v[b] for k, v in rc.items()} for rc in spec.get('rc', [])]
        members.append(ecmref.member(**kw))
    return ecm.build_asoh(members, batched)


def describe(obj):
    """Everything which can be read from a health description"""
    out = {'names': list(obj.all_names), 'updatable': list(obj.updatable_names), 'num': obj.num_updatable, 'batch': obj.batch_size,
           'values': {n: (v.shape, v.tolist()) for n, v in obj.iter_parameters(updatable_only=False)}, 'json': None}
    out['data'] = ecm._strip(json.loads(obj.model_dump_json()))
    return out


def details(obj, out, prefix=''):
    """Pinpoints and styles of every part"""
    for name in type(obj).model_fields:
        value = getattr(obj, name)
        if name in ('soc_pinpoints', 'interpolation_style', 'reference_temperature'):
            out[prefix + name] = value.tolist() if isinstance(value, np.ndarray) else value
        elif isinstance(value, tuple):
            for i, v in enumerate(value):
                details(v, out, f'{prefix}{name}.{i}.')
        elif hasattr(type(value), 'model_fields'):
            details(value, out, f'{prefix}{name}.')
    return out


def simulate(asoh):
    """Voltages and states over some steps"""
    out = []
    for behavior in ('constant', 'linear'):
        model = ecm.EquivalentCircuitModel(behavior)
        state = ECMTransientVector.from_asoh(asoh)
        state.soc = np.array([[.4]])
        prev = ECMInput(time=0., current=1., temperature=25.)
        for t, i, temp in [(10., 1., 30.), (400., -.5, 20.), (900., .7, None)]:
            new = ECMInput(time=t, current=i, temperature=temp)
            state = model.update_transient_state(prev, new, state, asoh)
            v = model.calculate_terminal_voltage(new, state, asoh)
            out.append([state.to_numpy().tolist(), v.to_numpy().tolist()])
            prev = new
    out.append(np.asarray(asoh.get_theoretical_energy((.1, .9), 20.)).tolist())
    return out


def run(case, ctx, tier):
    if case[0] == 'container':
        return containers(case, ctx)
    if case[0] == 'part':
        return parts(case, ctx)
    make = (lambda: make_circuit(case[1])) if case[0] == 'circuit' else \
        (lambda: ECMASOH.provide_template(has_C0=bool(case[1]), num_RC=2 * case[1]))
    names = list(make().all_names)
    widths = {n: v.shape[1] for n, v in make().iter_parameters(updatable_only=False)}
    batch = make().batch_size
    picked = [names[0], 'ocv.ocv_ref.base_values', names[-1]]
    ops = [['evaluate'], ['json'], ['simulate'], ['update', 'ocv.ocv_ref.base_values', 1], ['update', 'r0.base_values', max(batch, 2)],
           ['mark', picked[0]], ['mark', picked[1]], ['mark', picked[2]], ['all'], ['none'], ['pins'], ['style'], ['copy'], ['empty']]

    def apply(obj, op):
        if op[0] == 'evaluate':
            obj.ocv(np.array([.2, .7]), 30.)
            obj.r0.get_value(.3, 30.)
            [rc.get_value(.4, 20.) for rc in obj.rc_elements]
        elif op[0] == 'simulate':
            simulate(obj)
        elif op[0] == 'update':
            before = obj.model_copy(deep=True)
            values = np.array([[.25 * b + .125 * j + 1. for j in range(widths[op[1]])] for b in range(op[2])])
            del before
            obj.set_value(op[1], values if widths[op[1]] > 1 or op[2] > 1 else values[0, 0])
        elif op[0] == 'mark':
            obj.mark_updatable(op[1])
        elif op[0] == 'all':
            obj.mark_all_updatable()
        elif op[0] == 'none':
            obj.mark_all_fixed()
        elif op[0] == 'pins':
            n = obj.ocv.ocv_ref.base_values.shape[-1]
            obj.ocv.ocv_ref.soc_pinpoints = np.linspace(-.25, 1.125, n) ** 3
        elif op[0] == 'style':
            obj.ocv.ocv_ref.interpolation_style = 'nearest'
        elif op[0] == 'empty':  # A set with members which do not lead to a parameter
            obj.updatable = {'q_t'}
        return obj

    def build(hist):
        obj, twin = make(), make()  # The twin never takes a trip through JSON
        for op in hist:
            if op[0] == 'json':
                obj = type(obj).model_validate_json(obj.model_dump_json())
            elif op[0] == 'copy':
                obj = obj.model_copy(deep=True)
            else:
                apply(obj, op)
                apply(twin, op)
        return obj, twin

    def invariant(hist, pair):
        obj, twin = pair
        key = f'{case} {hist}'
        trip = type(obj).model_validate_json(obj.model_dump_json())
        want = describe(twin)
        behaviour = simulate(twin.model_copy(deep=True)) if hist and hist[-1][0] not in ('mark', 'copy') else None
        for what, o in (('read from JSON', trip), ('object', obj)):
            got = describe(o)
            for k in want:
                if got[k] != want[k]:
                    ctx.violation(key, f'{k} of the {what} after {hist}: got {got[k]}, expected {want[k]}')
                    return
            ctx.equal(key, f'interpolation of the {what} after {hist}', details(o, {}), details(twin, {}))
            if behaviour is not None:
                ctx.equal(key, f'simulation of the {what} after {hist}', simulate(o.model_copy(deep=True)), behaviour)
        # The two are separate
        for n, v in trip.iter_parameters(updatable_only=False):
            v += 1
        trip.mark_all_updatable()
        ctx.equal(key, f'object after changing what was read from JSON, after {hist}', describe(obj), want)
        ctx.outcome(want['values'], want['updatable'])
        if not ctx.samples and len(hist) == 2:
            ctx.sample({'case': case, 'history': hist, 'updatable': want['updatable'], 'values': want['values']})

    def canon(pair):
        return [(describe(o), details(o, {})) for o in pair], inner(*pair)

    mine = ops[case[2]::8]
    if case[2] == 0:
        invariant([], build([]))
    depth = (3 if tier == 'quick' else 4) - (case[0] == 'template')
    for op in mine:
        bfs(ctx, str(case[:2]), lambda pair: ops, lambda hist: build([op] + hist), lambda hist, pair: invariant([op] + hist, pair), canon,
            depth - 1)


def containers(case, ctx):
    cls = [ECMTransientVector, ECMInput, ECMMeasurement, TheveninInput, TheveninTransient, OutputQuantities][case[1]]
    lists = {'i_rc', 'eta'}
    optional = {'q0', 'temperature'}
    fields = list(cls.model_fields)
    options = []
    for f in fields:
        opts = [('v', b, n) for b in (1, 2, 3) for n in ((0, 1, 2) if f in lists else (1,))]
        if f in optional:
            opts.append(('absent', 1, 0))
        options.append(opts)
    for combo in itertools.product(*options):
        if len({b for _, b, n in combo if b > 1}) > 1:
            continue
        count = itertools.count(1)
        kwargs, want = {}, {}
        for f, (kind, b, n) in zip(fields, combo):
            if kind == 'absent':
                want[f] = None
                continue
            rows = np.array([[1 / next(count) for _ in range(n)] for _ in range(b)]).reshape(b, n)
            kwargs[f] = rows if f in lists else rows[:, 0]
            want[f] = rows
        obj = cls(**kwargs)
        once = cls.model_validate_json(obj.model_dump_json())
        twice = cls.model_validate_json(once.model_dump_json())
        key = f'{case} {combo}'
        for o in (once, twice):
            ctx.transition()
            for f in fields:
                v = getattr(o, f)
                if want[f] is None:
                    ctx.equal(key, f'{f} of {cls.__name__} {combo}', v, None)
                else:
                    ctx.close(key, f'{f} of {cls.__name__} {combo}', v, want[f], rtol=0, atol=0)
            ctx.equal(key, f'names of {cls.__name__}', list(o.all_names), list(obj.all_names))
            ctx.equal(key, f'batch size of {cls.__name__}', o.batch_size, obj.batch_size)
            if any(n for _, _, n in combo):
                ctx.close(key, f'vector of {cls.__name__}', o.to_numpy(), obj.to_numpy(), rtol=0, atol=0)
        ctx.state(case, combo)
        ctx.outcome(case, combo)
        ctx.trace()


def parts(case, ctx):
    """Other descriptions of health"""
    for nb, n, m, marks in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), range(4)):
        rows = np.arange(1., 1 + nb * n).reshape(nb, n) / 7
        t_rows = np.arange(1., 1 + nb * m).reshape(nb, m) / 9
        if case[1] == 0:
            obj = SOCPolynomialVariable(coeffs=rows)
            call = lambda o: [o(.3, b).tolist() for b in range(nb)]  # noqa: E731
        elif case[1] == 1:
            obj = SOCTempPolynomialVariable(soc_coeffs=rows, t_coeffs=t_rows, t_ref=np.arange(290., 290. + nb))
            call = lambda o: [o(.3, 300., b).tolist() for b in range(nb)]  # noqa: E731
        else:
            obj = ecm.build_asoh(ecmref.member(rc=[dict(r=[.1 * j for j in range(1, n + 1)], c=[50. * j for j in range(1, m + 1)])]))
            obj = obj.rc_elements[0]
            call = lambda o: [np.asarray(v).tolist() for v in o.get_value([.2, .8], 30.)]  # noqa: E731
        if marks & 1:
            obj.mark_all_updatable(recurse=False)
        if marks & 2:
            obj.mark_updatable(obj.all_names[-1])
        trip = type(obj).model_validate_json(type(obj).model_validate_json(obj.model_dump_json()).model_dump_json())
        key = f'{case} {nb} {n} {m} {marks}'
        want, got = describe(obj), describe(trip)
        ctx.equal(key, f'{type(obj).__name__} read from JSON', got, want)
        ctx.equal(key, f'{type(obj).__name__} evaluated', call(trip), call(obj))
        ctx.equal(key, f'{type(obj).__name__} evaluated, read from JSON', call(type(obj).model_validate_json(obj.model_dump_json())), call(obj))
        ctx.state(case, nb, n, m, marks)
        ctx.transition()
        ctx.trace()
        ctx.outcome(want)
