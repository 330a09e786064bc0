"""Conversion of containers to and from vectors"""
import itertools
import json

import numpy as np
from pydantic import create_model
from typing import Optional

from moirae.models.base import GeneralContainer, ListParameter, ScalarParameter
from moirae.models.ecm import ECMInput, ECMMeasurement, ECMTransientVector

from .. import shapes, thev  # noqa: F401

from ..core import bfs, inner
from moirae.models.thevenin import TheveninInput, TheveninTransient  # noqa: E402 (needs the stand-in)

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every container of up to 3 fields, each a scalar, a list of 0 to 3 (11, 12) values or absent and each with batch size 1 or a common one of 2, 3 or 11, of floats or integers, '
             'every presence and batching of the fields of the 5 containers of the circuit models, and every history of 3 '
             'operations (fewer for larger or batched containers; fill from a vector of 1, 2 or 3 rows, copy with new values, copy, JSON, change in place)',
    'thorough': 'containers of up to 4 fields and histories of 4 operations',
}
ASSUMPTIONS = ['at least one field is present']
OPS = [['fill', 1, 1], ['fill', 1, 2], ['fill', 2, 2], ['fill', 3, 2], ['make_copy', 1, 2], ['make_copy', 1, 1], ['make_copy', 2, 2],
       ['make_copy', 3, 2], ['copy'], ['json'], ['inplace', 0], ['inplace', -1], ['swap']]
_made = {}


def made(fields):
    """Class for a list of kinds"""
    key = ''.join(f[0] for f in fields)
    if key not in _made:
        types = {'S': (ScalarParameter, ...), 'L': (ListParameter, ...), 'N': (Optional[ScalarParameter], None),
                 'M': (Optional[ListParameter], None)}
        _made[key] = create_model('Made' + key, __base__=GeneralContainer,
                                  **{f'{"zyxw"[i]}{i}': types[k] for i, k in enumerate(key)})
    return _made[key]


def cases(tier):
    size = 3 if tier == 'quick' else 4
    out = []
    kinds = [('S', 1), ('L', 0), ('L', 1), ('L', 2), ('L', 3), ('N', None), ('M', None)]
    for n in range(1, size + 1):
        for combo in itertools.product(kinds, repeat=n):
            if all(w is None for _, w in combo):
                continue
            out.append(['made', [list(k) for k in combo]])
    out += [['made', [list(k) for k in combo]] for combo in [(('L', 12),), (('L', 12), ('S', 1)), (('L', 2), ('N', None), ('L', 11))]]
    for has_q, n in itertools.product((0, 1), (0, 1, 2, 3, 11)):
        out.append(['real', 'ECMTransientVector', [['S', 1], ['S', 1] if has_q else ['N', None], ['L', n], ['S', 1]]])
    out += [['real', 'ECMInput', [['S', 1], ['S', 1], [k, 1 if k == 'S' else None]]] for k in 'SN']
    out += [['real', 'ECMMeasurement', [['S', 1]]]]
    out += [['real', 'TheveninTransient', [['S', 1], ['S', 1], ['L', n]]] for n in (0, 1, 2)]
    out += [['real', 'TheveninInput', [['S', 1]] * 4]]
    # Many small cases go to one worker at a time
    return [out[i:i + 3] for i in range(0, len(out), 3)]


def run(group, ctx, tier):
    for case in group:
        one(case, ctx, tier)


def one(case, ctx, tier):
    fields = case[-1]
    if case[0] == 'made':
        cls = made([(k, w) for k, w in fields])
    else:
        cls = {'ECMTransientVector': ECMTransientVector, 'ECMInput': ECMInput, 'ECMMeasurement': ECMMeasurement,
               'TheveninTransient': TheveninTransient, 'TheveninInput': TheveninInput}[case[1]]
    names = list(cls.model_fields)
    fields = fields[:len(names)]
    present = [i for i, (_, w) in enumerate(fields) if w is not None]
    width = sum(fields[i][1] for i in present)
    for batched in itertools.product((0, 1), repeat=len(present)):
        if any(b and fields[i][1] == 0 for i, b in zip(present, batched)):
            continue
        for size in ((2, 3, 11) if any(batched) else (1,)):
            depth = 3 if len(fields) == 1 or (case[0] == 'real' and not any(batched)) else 2 if len(fields) == 2 else 1
            if size == 11:
                depth = 1
            if case[0] == 'real' and size == 2:
                depth = max(2, depth)
            explore(case, ctx, cls, names, fields, present, width, batched, size, depth + (tier == 'thorough'))
            explore(case, ctx, cls, names, fields, present, width, batched, size, min(depth, 2), int)
            if ctx.violations:
                return


def explore(case, ctx, cls, names, fields, present, width, batched, size, depth, number=float):
    def fresh():
        count = itertools.count(1)
        kwargs, tab, given = {}, {}, []
        for i, b in zip(present, batched):
            n = size if b else 1
            rows = [[number(next(count)) for _ in range(fields[i][1])] for _ in range(n)]
            tab[names[i]] = rows
            arr = np.array(rows, dtype=number).reshape(n, fields[i][1])
            arr = arr[:, 0] if fields[i][0] == 'S' else arr
            given.append(arr)
            kwargs[names[i]] = arr
        obj = cls(**kwargs)
        for a in given:
            a[...] = -999.  # The container must not share memory with the arrays given
        return obj, tab

    def vector(rows, salt):
        return [[100.25 * salt + 10. * b + j for j in range(width)] for b in range(rows)]

    def build(hist):
        obj, tab = fresh()
        others = []  # (object, table) pairs which must stay as they are
        for op in hist:
            if op[0] in ('fill', 'make_copy'):
                rows = vector(op[1], 1 + OPS.index(op))
                arr = np.array(rows).reshape(op[1], width)
                arr = arr[0] if op[2] == 1 else arr
                new, pos = {}, 0
                for i in present:
                    new[names[i]] = [r[pos:pos + fields[i][1]] for r in rows]
                    pos += fields[i][1]
                if op[0] == 'fill':
                    obj.from_numpy(arr)
                else:
                    others.append((obj, tab))
                    obj = obj.make_copy(arr)
                tab = new
                arr[...] = -999.
            elif op[0] == 'copy':
                others.append((obj, tab))
                obj = obj.model_copy(deep=True)
                tab = dict(tab)
            elif op[0] == 'json':
                others.append((obj, tab))
                obj = cls.model_validate_json(obj.model_dump_json())
                tab = dict(tab)
            elif op[0] == 'inplace':
                name = names[present[op[1]]]
                arr = getattr(obj, name)
                arr += 1
                tab = dict(tab)
                tab[name] = [[v + 1 for v in r] for r in tab[name]]
            elif op[0] == 'swap' and others:
                (obj, tab), others[-1] = others[-1], (obj, tab)
        return obj, tab, others

    def invariant(hist, pair):
        obj, tab, others = pair
        for i, (o, t) in enumerate([(obj, tab)] + others):
            key = f'{case} {batched} {size} {number.__name__} {hist}'
            what = f'{"container" if i == 0 else "original of a copy"} after {hist}'
            batch = max(len(t[names[j]]) for j in present)
            for j, name in enumerate(names):
                value = getattr(o, name)
                if j not in present:
                    if value is not None:
                        ctx.violation(key, f'{name}, which was absent, is {value!r} in the {what}')
                    continue
                ctx.close(key, f'{name} of the {what}', value, np.array(t[name]).reshape(len(t[name]), fields[j][1]))
                ctx.equal(key, f'length of {name} of the {what}', o.length_field(name), fields[j][1])
            table = [(names[j], t[names[j]]) for j in present]
            want = np.array(shapes.flatten(table, [n for n, _ in table], batch)).reshape(batch, width)
            vec = o.to_numpy()
            if not ctx.close(key, f'vector of the {what}', vec, want):
                return
            ctx.equal(key, f'batch size of the {what}', o.batch_size, batch)
            ctx.equal(key, f'length of the {what}', len(o), width)
            ctx.equal(key, f'fields of the {what}', list(o.all_fields), names)
            flat = []
            for j in present:
                w = fields[j][1]
                flat += [names[j]] if w == 1 else [f'{names[j]}[{k}]' for k in range(w)]
            ctx.equal(key, f'names of the {what}', list(o.all_names), flat)
            ctx.equal(key, f'names in reverse of the {what}', list(o.expand_names(names[::-1])),
                      [f for j in present[::-1] for f in flat if f.split('[')[0] == names[j]])
            vec[...] = -999.
            ctx.close(key, f'vector of the {what} after changing the previous', o.to_numpy(), want)
            # There and back
            twin = o.model_copy(deep=True)
            twin.from_numpy(o.to_numpy())
            ctx.close(key, f'vector of the {what} filled from itself', twin.to_numpy(), want)
            blank = o.make_copy(o.to_numpy() * 0)
            ctx.close(key, f'vector of the {what} after making a copy with zeros', o.to_numpy(), want)
            ctx.equal(key, f'fields absent from a copy of the {what}', [getattr(blank, n) is None for n in names],
                      [j not in present for j in range(len(names))])
        ctx.outcome(tab)
        if not ctx.samples and len(hist) == 2:
            ctx.sample({'case': case, 'history': hist, 'values': tab, 'json': json.loads(obj.model_dump_json())})

    def canon(pair):
        return pair[1], [t for _, t in pair[2]], inner(pair[0], *[o for o, _ in pair[2]])

    bfs(ctx, f'{case} {batched} {size} {number.__name__}', lambda pair: OPS, build, invariant, canon, depth)
