"""Names of health parameters"""
import itertools

from .. import ecm, ecmref, shapes

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every model with up to 2 fields over 22 kinds of field (scalars, lists of length 0-3 and 12, absent, sub-models, tuples '
             'and dictionaries nested up to 3 levels, batches of 1-3), every updatable subset of up to 3 names, every ordered '
             'selection of up to 2 names; and 48 circuits, before and after evaluation',
    'thorough': 'as quick, up to 3 fields',
}
ASSUMPTIONS = ['names of dictionary members contain no dots']


def cases(tier):
    out = [['circuit', c0, n, ocv, ev] for c0 in (0, 1) for n in (0, 1, 2, 11) for ocv in (1, 2, 3) for ev in (0, 1)]
    return out + [['made', i] for i in range(len(shapes.catalogue(2 if tier == 'quick' else 3)))]


def circuit(c0, n, ocv, ev):
    """A circuit and the parameters it must have"""
    m = ecmref.member(c0=[1., 2.] if c0 else None, ocv=[3., 3.5, 4.][:ocv], h0=[.1, .2, .3],
                      rc=[dict(r=[.1 + i, .2 + i], c=[3.]) for i in range(n)])
    asoh = ecm.build_asoh(m)
    if ev:
        state, inp = ecm.build_state(ecmref.initial(m)), ecm.build_input((0., 0., 25.))
        model = ecm.EquivalentCircuitModel()
        model.calculate_terminal_voltage(inp, state, asoh)
        model.update_transient_state(inp, ecm.build_input((1., 0., 25.)), state, asoh)
    lv = [('q_t.base_values', [[m['qt']]]), ('ce', [[m['ce']]]), ('ocv.ocv_ref.base_values', [m['ocv']]),
          ('ocv.ocv_ref.reference_temperature', [[25.]]), ('ocv.ocv_ent.base_values', [[0.]]),
          ('r0.base_values', [m['r0']]), ('r0.temperature_dependence_factor', [[0.]])]
    if c0:
        lv.append(('c0.base_values', [m['c0']]))
    for i, rc in enumerate(m['rc']):
        lv += [(f'rc_elements.{i}.r.base_values', [rc['r']]), (f'rc_elements.{i}.r.temperature_dependence_factor', [[0.]]),
               (f'rc_elements.{i}.c.base_values', [rc['c']])]
    lv += [('h0.base_values', [m['h0']]), ('h0.gamma', [[0.]])]
    grp = ['q_t', 'ocv', 'ocv.ocv_ref', 'ocv.ocv_ent', 'r0', 'h0', 'rc_elements']
    grp += ['c0'] if c0 else []
    for i in range(n):
        grp += [f'rc_elements.{i}', f'rc_elements.{i}.r', f'rc_elements.{i}.c']
    return asoh, lv, grp


def run(case, ctx, tier):
    if case[0] == 'circuit':
        make = lambda: circuit(*case[1:])[0]  # noqa: E731
        obj, lv, grp = circuit(*case[1:])
        full = False
    else:
        shape = shapes.catalogue(2 if tier == 'quick' else 3)[case[1]]
        make = lambda: shapes.build(shape)  # noqa: E731
        obj, lv, grp = make(), shapes.leaves(shape), shapes.groups(shape)
        full = len(lv) <= 6
    key = f'{case}'
    names = [n for n, _ in lv]
    table = dict(lv)
    batch = max(len(r) for _, r in lv)
    ctx.state(key)

    # All views of all names
    ctx.equal(key, 'names', list(obj.all_names), names)
    ctx.equal(key, 'batch size', obj.batch_size, batch)
    ctx.equal(key, 'iterated names', [n for n, _ in obj.iter_parameters(updatable_only=False)], names)
    for n, v in obj.iter_parameters(updatable_only=False):
        ctx.close(key, f'iterated value of {n}', v, table[n])
    ctx.equal(key, 'expanded names', list(obj.expand_names(obj.all_names)), [e for n, r in lv for e in shapes.expand(n, r)])
    ctx.equal(key, 'own fields only', [n for n, _ in obj.iter_parameters(updatable_only=False, recurse=False)],
              [n for n in names if '.' not in n])
    ctx.transition(5)

    # Groups
    for g in grp:
        want = [e for n, r in lv if n.startswith(g + '.') for e in shapes.expand(n, r)]
        ctx.equal(key, f'expansion of group {g}', list(obj.expand_names([g])), want)
        ctx.transition()
        ctx.outcome(key, want)

    # Every ordered selection of names
    pick = names if full or len(names) <= 8 else names[:4] + names[-3:]
    for k in (0, 1, 2):
        for sel in itertools.permutations(pick, k):
            if k == 0:
                continue
            want = shapes.flatten(lv, sel, batch)
            ctx.close(key, f'values of {sel}', obj.get_parameters(list(sel)), want)
            ctx.equal(key, f'expansion of {sel}', list(obj.expand_names(sel)), [e for n in sel for e in shapes.expand(n, table[n])])
            ctx.transition(2)
            ctx.state(key, sel)
    ctx.close(key, 'values of all names', obj.get_parameters(obj.all_names), shapes.flatten(lv, names, batch))

    # Every subset of updatable names, in any order of marking
    subsets = [s for k in range(0, 4 if full else 3) for s in itertools.combinations(pick, k)]
    for sub in subsets + [tuple(names)]:
        o = make()
        for n in reversed(sub):
            o.mark_updatable(n)
        want = [n for n in names if n in sub]
        ctx.equal(key, f'updatable names after marking {sub}', list(o.updatable_names), want)
        ctx.equal(key, f'number of updatable values after marking {sub}', o.num_updatable, sum(len(table[n][0]) for n in want))
        ctx.equal(key, f'all names after marking {sub}', list(o.all_names), names)
        ctx.close(key, f'updatable values after marking {sub}', o.get_parameters(),
                  shapes.flatten(lv, want, batch) if want else [[]] * batch)
        ctx.equal(key, f'iterated updatable names after {sub}', [n for n, _ in o.iter_parameters()], want)
        ctx.transition(4)
        ctx.state(key, 'marked', sub)
        ctx.trace()
    ctx.sample({'case': case, 'names': names})
