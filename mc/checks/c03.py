"""Writing and copying health descriptions"""
import itertools

import numpy as np

from moirae.models.ecm import ECMASOH

from .. import ecm, ecmref, shapes
from ..core import bfs, inner

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every history of 3 operations (2 for circuits) (write by vector with 1, 2 or 3 rows to all, one or two parameters, set by name, copy '
             'with and without new values, change in place, change by 1e-9, capacity in Amp-seconds) on an object and its copy, for 6 nested '
             'models which start with floats or integers and 4 circuits; every pair of parameters of 36 default circuits',
    'thorough': 'as quick, 4 operations (3 for circuits)',
}
ASSUMPTIONS = ['batch sizes are 1 or agree, as the code requires']
MADE = [[('g', 'S', 1), ('f', 'L', (1, 2))], [('g', 'L', (1, 1)), ('f', 'S', 1), ('a', 'L', (1, 3))],
        [('g', 'M', [('x', 'S', 1), ('y', 'L', (1, 2))]), ('f', 'S', 1)],
        [('g', 'T', [[('x', 'S', 1)], [('x', 'L', (1, 2))]])],
        [('g', 'D', {'b': [('x', 'S', 1)], 'a': [('x', 'L', (1, 2))]}), ('f', 'N', None)],
        [('g', 'M', [('t', 'T', [[('x', 'S', 1)], [('d', 'M', [('x', 'S', 1)])]])])]]
CIRCUITS = [dict(c0=False, rc=0), dict(c0=True, rc=1), dict(c0=False, rc=2), dict(c0=True, rc=2, ocv=[3., 4.])]


def cases(tier):
    out = [['independent', c0, n, given, ocv] for c0 in (0, 1) for n in (0, 1, 2, 3) for given in (0, 1) for ocv in (0, 1)]
    out += [['default parts']]
    out += [['made', i] for i in range(len(MADE))] + [['integers', i] for i in range(len(MADE))]
    out += [['circuit', i] for i in range(len(CIRCUITS))]
    # Split the larger searches by their first operation
    return [c + [j] for c in out for j in (range(12) if c[0] in ('made', 'integers', 'circuit') else [0])]


def template(c0, rc, ocv=None, given=False):
    return ECMASOH.provide_template(
        has_C0=bool(c0), num_RC=rc, OCV=ocv,
        RC=[(np.array([.01, .02]), np.array([100.])) for _ in range(rc)] if given and rc else None)


def table_of(obj):
    return {n: v.tolist() for n, v in obj.iter_parameters(updatable_only=False)}


def independent(case, ctx):
    """Changing any parameter of a new object in place affects no other parameter, of it or of another new object"""
    if case[0] == 'default parts':
        def make():
            m = ecmref.member()
            base = ecm.build_asoh(m)
            return ECMASOH(q_t=base.q_t, ocv=base.ocv, r0=base.r0)
    else:
        _, c0, n, given, ocv, _ = case
        make = lambda: template(c0, n, [3., 3.5, 4.] if ocv else None, given)  # noqa: E731
    names = list(make().all_names)
    for name in names:
        one, two = make(), make()
        before_one, before_two = table_of(one), table_of(two)
        value = dict(one.iter_parameters(updatable_only=False))[name]
        value += 1
        ctx.transition()
        for other in names:
            want = (np.array(before_one[other]) + int(other == name)).tolist()
            ctx.close(f'{case} {name}', f'{other} of a new circuit after {name} changed', table_of(one)[other], want)
        ctx.equal(f'{case} {name}', f'another new circuit after {name} changed', table_of(two), before_two)
        ctx.state(case, name)
    for name in names:  # The same by name
        one = make()
        before = table_of(one)
        one.set_value(name, np.array(before[name]) * 3 + 1)
        for other in names:
            want = (np.array(before[other]) * 3 + 1).tolist() if other == name else before[other]
            ctx.close(f'{case} {name}', f'{other} after {name} was set', table_of(one)[other], want)
        ctx.transition()
    ctx.trace()


def run(case, ctx, tier):
    if case[0] in ('independent', 'default parts'):
        return independent(case, ctx)
    if case[0] in ('made', 'integers'):
        make = lambda: shapes.build(MADE[case[1]], None, float if case[0] == 'made' else int)  # noqa: E731
        lv = shapes.leaves(MADE[case[1]])
    else:
        make = lambda: template(**CIRCUITS[case[1]])  # noqa: E731
        lv = [(n, v.tolist()) for n, v in make().iter_parameters(updatable_only=False)]
    start = dict(lv)
    names = list(start)
    width = {n: len(start[n][0]) for n in names}
    pick = names if len(names) <= 3 else [names[0], names[2], names[-2]]
    if case[0] == 'circuit' and case[1]:
        pick = ['q_t.base_values', 'r0.base_values', f'rc_elements.{CIRCUITS[case[1]]["rc"] - 1}.r.base_values']

    def rows(count, n, salt):
        return [[100.25 * salt + 10. * b + i for i in range(n)] for b in range(count)]

    ops = []
    for who in (0, 1):
        ops += [['update', who, None, b] for b in (1, 2, 3)]
        ops += [['update', who, [n], b] for n in pick for b in (1, 2)]
        ops += [['update', who, [pick[-1], pick[0]], 2]] if len(pick) > 1 else []
        ops += [['set', who, pick[0], b] for b in (1, 2)] + [['set', who, pick[-1], b] for b in (1, 2)]
        ops += [['inplace', who, n] for n in (pick[0], pick[-1])]
        ops += [['nudge', who, pick[0]]]
        if case[0] == 'circuit':
            ops += [['amp_seconds', who, b] for b in (1, 2)]
    ops += [['copy', 0], ['copy', 1], ['make_copy', 0, None, 1], ['make_copy', 0, [pick[-1]], 2], ['make_copy', 1, [pick[0]], 1]]
    ops.sort(key=lambda op: op[1])
    refused = []

    def consistent(tab):
        return len({len(v) for v in tab.values() if len(v) > 1}) <= 1

    def ref_op(refs, op):
        """Apply an operation to the tables. Returns the array that is written, if any"""
        salt = 1 + ops.index(op) % 7
        who = op[1]
        if op[0] in ('update', 'make_copy'):
            sel = names if op[2] is None else op[2]
            values = rows(op[3], sum(width[n] for n in sel), salt)
            tab = refs[who] if op[0] == 'update' else {k: [list(r) for r in v] for k, v in refs[who].items()}
            pos = 0
            for n in sel:
                tab[n] = [r[pos:pos + width[n]] for r in values]
                pos += width[n]
            if op[0] == 'make_copy':
                refs[1 - who] = tab
            return values
        if op[0] == 'set':
            values = rows(op[3], width[op[2]], salt)
            refs[who][op[2]] = values
            return values
        if op[0] == 'nudge':
            refs[who][op[2]] = [[v + 1e-9 for v in r] for r in refs[who][op[2]]]
            return refs[who][op[2]]
        if op[0] == 'inplace':
            refs[who][op[2]] = [[v + 1 for v in r] for r in refs[who][op[2]]]
        elif op[0] == 'amp_seconds':
            refs[who]['q_t.base_values'] = [[(b + 1.)] for b in range(op[2])]
        elif op[0] == 'copy':
            refs[1 - who] = {k: [list(r) for r in v] for k, v in refs[who].items()}
        return None

    def build(hist):
        objs, refs = [make(), make()], [{k: v for k, v in lv}, {k: v for k, v in lv}]
        for o in objs:
            o.mark_all_updatable()
        for op in hist:
            values = ref_op(refs, op)
            if not all(consistent(t) for t in refs):
                return None
            who = op[1]
            o = objs[who]
            if op[0] == 'update':
                arr = np.array(values) if op[3] > 1 else np.array(values[0])
                o.update_parameters(arr, op[2])
                arr[...] = -999.  # Writes must not share memory with the caller
            elif op[0] == 'nudge':
                o.update_parameters(np.array(values), [op[2]])
            elif op[0] == 'set':
                if width[op[2]] == 1:
                    arr = np.array([r[0] for r in values]) if len(values) > 1 else values[0][0]
                else:
                    arr = np.array(values) if len(values) > 1 else np.array(values[0])
                o.set_value(op[2], arr)
                if isinstance(arr, np.ndarray):
                    arr[...] = -999.
            elif op[0] == 'inplace':
                arr = dict(o.iter_parameters(updatable_only=False))[op[2]]
                arr += 1
            elif op[0] == 'amp_seconds':
                o.q_t.value = 3600. if op[2] == 1 else np.array([3600., 7200.])
            elif op[0] == 'copy':
                objs[1 - who] = o.model_copy(deep=True)
            elif op[0] == 'make_copy':
                arr = np.array(values)
                objs[1 - who] = o.make_copy(arr, op[2])
                arr[...] = -999.
        return objs, refs

    def invariant(hist, pair):
        objs, refs = pair
        key = f'{case} {hist}'
        for i, (o, tab) in enumerate(zip(objs, refs)):
            what = f'{"object" if i == 0 else "copy"} after {hist}'
            got = dict(o.iter_parameters(updatable_only=False))
            if not ctx.equal(key, f'parameters of the {what}', list(got), names):
                return
            for n in names:
                if not isinstance(got[n], np.ndarray) or got[n].shape != (len(tab[n]), width[n]) \
                        or not np.array_equal(got[n], tab[n]):
                    ctx.violation(key, f'{n} of the {what}: got {got[n]!r}, expected {tab[n]}')
                    return
            batch = max(len(v) for v in tab.values())
            ctx.equal(key, f'batch size of the {what}', o.batch_size, batch)
            vec = o.get_parameters()
            ctx.close(key, f'vector of the {what}', vec, shapes.flatten(list(tab.items()), names, batch), rtol=1e-12)
            vec[...] = -999.  # Must not be the memory of the object
            one = o.get_parameters([names[0]])
            one[...] = -999.
            ctx.close(key, f'vector of the {what} after changing the previous', o.get_parameters(),
                      shapes.flatten(list(tab.items()), names, batch), rtol=1e-12)
            if case[0] == 'circuit':
                ctx.close(key, f'capacity in Amp-seconds of the {what}', o.q_t.value, np.array(tab['q_t.base_values']) * 3600)
                ctx.close(key, f'capacity in Amp-hours of the {what}', o.q_t.amp_hour, tab['q_t.base_values'])
        ctx.outcome(case[:2], refs)
        if len(hist) == 1 and not refused:  # A vector of the wrong length is refused
            refused.append(1)
            for o in make(), objs[0]:
                o.mark_all_updatable()
                for n in (sum(width.values()) - 1, sum(width.values()) + 1):
                    try:
                        o.model_copy(deep=True).update_parameters(np.zeros(n))
                        ctx.violation(key, f'{n} values were accepted for {sum(width.values())} parameters')
                    except ValueError:
                        pass
        if not ctx.samples and len(hist) == 2:
            ctx.sample({'case': case, 'history': hist, 'object': refs[0], 'copy': refs[1]})

    def canon(pair):
        return pair[1], inner(*pair[0])

    # This worker explores the histories which begin with its share of the operations
    # The two objects are equal at the start, so only histories which start with the first one differ
    depth = (3 if case[0] == 'made' else 2) + (tier == 'thorough')
    mine = [op for op in ops if op[1] == 0][case[2]::12]
    first = [build([])]
    if case[2] == 0:
        invariant([], first[0])
    for op in mine:
        def sub(hist, op=op):
            return build([op] + hist)
        bfs(ctx, str(case[:2]), lambda pair: ops, sub, lambda hist, pair, op=op: invariant([op] + hist, pair), canon, depth - 1)
