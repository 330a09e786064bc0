"""Which parameters are updatable"""
import numpy as np

from .. import shapes
from ..core import bfs, inner
from .c01 import circuit

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every history of up to 4 marking operations (3 on models with many parameters; each parameter, each sub-model, everything or own fields only, fixed '
             'with and without recursion, the same for each part of the model, and continuing on a copy), with an update of each parameter attempted, and what each part offers compared, in each state, '
             'on 11 nested models and 3 circuits',
    'thorough': 'as quick, 5 operations',
}
ASSUMPTIONS = []
PICKS = [[('g', 'S', 1)], [('g', 'S', 1), ('f', 'L', (1, 2))], [('g', 'M', [('x', 'S', 1), ('y', 'L', (1, 2))])],
         [('g', 'M', [('x', 'S', 1)]), ('f', 'M', [('x', 'S', 1)])],
         [('g', 'T', [[('x', 'S', 1)], [('x', 'S', 1), ('y', 'S', 1)]]), ('f', 'S', 1)],
         [('g', 'D', {'a': [('x', 'S', 1)], 'b': [('x', 'S', 1)]}), ('f', 'N', None)],
         [('g', 'M', [('m', 'M', [('x', 'S', 1)]), ('x', 'S', 1)]), ('x', 'S', 1)],
         [('g', 'M', [('t', 'T', [[('x', 'S', 1)], [('x', 'S', 1)]]), ('d', 'D', {'q': [('x', 'L', (1, 2))]})])],
         [('g', 'T', [[('m', 'M', [('x', 'S', 1)])], [('m', 'M', [('x', 'S', 1)])]])],
         [('g', 'S', 2), ('f', 'M', [('x', 'S', 1), ('l', 'L', (2, 2))])],
         [('g', 'T', [[('x', 'S', 1)]] * 11)]]


def cases(tier):
    return [['made', i] for i in range(len(PICKS))] + [['circuit', 0, 0, 1, 0], ['circuit', 1, 2, 2, 0],
                                                       ['circuit', 0, 1, 2, 1]]


def circuit_marks(name):
    parts = name.split('.')
    out, prefix, i = [], '', 0
    while i < len(parts):
        out.append((prefix, parts[i]))
        step = 2 if parts[i] == 'rc_elements' else 1
        prefix += '.'.join(parts[i:i + step]) + '.'
        i += step
    return out


def run(case, ctx, tier):
    if case[0] == 'circuit':
        make = lambda: circuit(*case[1:])[0]  # noqa: E731
        _, lv, grp = circuit(*case[1:])
        need = {n: circuit_marks(n) for n, _ in lv}
        every = {p for v in need.values() for p in v}
        every |= set() if case[2] else {('', 'rc_elements')}
        if case[4]:  # SOC pinpoints exist after evaluation and may be marked, but they are not parameters
            every |= {('marks of pinpoints do not', 'matter')}
        own = {p for p in every if p[0] == ''}
        names = [n for n, _ in lv]
        step = ['ce', 'q_t.base_values', 'ocv.ocv_ref.base_values', 'r0', 'h0.gamma', 'ocv'] + [n for n in names if 'rc_' in n][:4]
        group_marks = {'r0': [('', 'r0')], 'ocv': [('', 'ocv')]}
    else:
        shape = PICKS[case[1]]
        make = lambda: shapes.build(shape)  # noqa: E731
        lv = shapes.leaves(shape)
        names = [n for n, _ in lv]
        need = {n: shapes.marks(shape, n) for n in names}
        every, own = set(shapes.all_fields(shape)), set(shapes.all_fields(shape, recurse=False))
        parts = [g for g in shapes.groups(shape) if not _is_member(shape, g)]
        group_marks = {g: shapes.marks(shape, g) for g in parts}
        step = (names if len(names) <= 6 else names[:2] + names[-2:]) + parts
    table = dict(lv)
    batch = max(len(r) for r in table.values())
    prefixes = sorted({p for p, _ in every} - {'', 'marks of pinpoints do not'})
    if case[0] == 'circuit':
        prefixes = [p for p in prefixes if p in ('ocv.', 'ocv.ocv_ref.', 'r0.', 'rc_elements.0.')]
    ops = [['mark', n] for n in step] + [['all', True], ['all', False], ['fixed', True], ['fixed', False], ['copy']]
    ops += [['part', p, *how] for p in prefixes for how in (['fixed', False], ['all', False], ['fixed', True])[:3 if len(prefixes) <= 3 else 2]]

    def build(hist):
        obj, ref = make(), set()
        for op in hist:
            if op[0] == 'mark':
                obj.mark_updatable(op[1])
                ref |= set(need[op[1]] if op[1] in need else group_marks[op[1]])
            elif op[0] == 'all':
                obj.mark_all_updatable(recurse=op[1])
                ref |= every if op[1] else own
            elif op[0] == 'fixed':
                obj.mark_all_fixed(recurse=op[1])
                ref -= every if op[1] else own
            elif op[0] == 'part':
                inside = {p for p in every if (p[0].startswith(op[1]) if op[3] else p[0] == op[1])}
                part = _part(obj, op[1])
                if op[2] == 'fixed':
                    part.mark_all_fixed(recurse=op[3])
                    ref -= inside
                else:
                    part.mark_all_updatable(recurse=op[3])
                    ref |= inside
            else:
                old, obj = obj, obj.model_copy(deep=True)
                old.mark_all_updatable()  # Must not be seen by the copy
                if len(ref) % 2:
                    old.mark_all_fixed()
        return obj, ref

    def invariant(hist, pair):
        obj, ref = pair
        key = f'{case} {hist}'
        want = [n for n in names if all(p in ref for p in need[n])]
        ctx.equal(key, f'updatable names after {hist}', list(obj.updatable_names), want)
        ctx.equal(key, f'number of updatable values after {hist}', obj.num_updatable, sum(len(table[n][0]) for n in want))
        for p in prefixes:  # What each part offers does not depend on the marks above it
            part = [n[len(p):] for n in names if n.startswith(p) and all(q in ref for q in need[n] if q[0].startswith(p))]
            ctx.equal(key, f'updatable names of {p[:-1]} after {hist}', list(_part(obj, p).updatable_names), part)
        ctx.outcome(case, want)
        for n in names if len(names) <= 16 else step:
            if n not in table:
                continue
            new = np.array(table[n]) + 1000.
            try:
                obj.update_parameters(new, [n])
                done = True
            except ValueError:
                done = False
            ctx.equal(key, f'whether {n} could be updated after {hist}', done, n in want)
            after = dict(obj.iter_parameters(updatable_only=False))
            ctx.close(key, f'{n} after an update that was {"accepted" if done else "refused"} after {hist}', after[n],
                      new if n in want else table[n])
            if done:
                obj.update_parameters(np.array(table[n]), [n])
            ctx.transition()
        ctx.close(key, f'values after updates and {hist}', obj.get_parameters(names), [[v for n in names for v in table[n][b % len(table[n])]] for b in range(batch)])
        if not ctx.samples:
            ctx.sample({'case': case, 'history': hist, 'updatable': want})

    bfs(ctx, str(case), lambda pair: ops, build, invariant, lambda pair: (sorted(pair[1]), inner(pair[0])),
        (3 if case[0] == 'circuit' or len(ops) > 9 else 4) if tier == 'quick' else 5)


def _part(obj, prefix):
    for step in prefix[:-1].split('.'):
        obj = obj[int(step)] if isinstance(obj, tuple) else obj[step] if isinstance(obj, dict) else getattr(obj, step)
    return obj


def _is_member(shape, name):
    """Whether a name is that of a member of a tuple or dictionary, which is not a field"""
    for field, kind, content in shape:
        if not name.startswith(field + '.'):
            continue
        rest = name[len(field) + 1:]
        if kind == 'M':
            return _is_member(content, rest)
        if '.' not in rest:
            return True
        k, rest = rest.split('.', 1)
        return _is_member(content[int(k)] if kind == 'T' else content[k], rest)
    return False
