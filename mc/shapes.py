"""Health descriptions of every shape up to a size, along with the list of the names they must have

A shape is a list of (field name, kind, content):
    ('s', 'S', batch)                scalar
    ('l', 'L', (batch, length))      list
    ('m', 'M', shape)                sub-model
    ('t', 'T', [shape, ...])         tuple of sub-models
    ('d', 'D', {key: shape})         dictionary of sub-models
    ('n', 'N', None)                 optional sub-model or parameter which is absent
"""
import itertools
from typing import Dict, Optional, Tuple

import numpy as np
from pydantic import create_model

from moirae.models.base import HealthVariable, ListParameter, ScalarParameter

_cache = {}


def _class(shape):
    """Class with fields as in a shape"""
    key = tuple((f, k) for f, k, _ in shape)
    if key not in _cache:
        types = {'S': (ScalarParameter, ...), 'L': (ListParameter, ...), 'M': (HealthVariable, ...),
                 'T': (Tuple[HealthVariable, ...], ...), 'D': (Dict[str, HealthVariable], ...),
                 'N': (Optional[HealthVariable], None)}
        _cache[key] = create_model('Made' + ''.join(k for _, k, _ in shape), __base__=HealthVariable,
                                   **{f: types[k] for f, k, _ in shape})
    return _cache[key]


def build(shape, counter=None, number=float):
    """Instantiate a shape, filling it with distinct numbers in declaration order"""
    counter = counter if counter is not None else itertools.count(1)
    kwargs = {}
    for field, kind, content in shape:
        if kind == 'S':
            kwargs[field] = np.array([number(next(counter)) for _ in range(content)])
        elif kind == 'L':
            b, n = content
            kwargs[field] = np.array([[number(next(counter)) for _ in range(n)] for _ in range(b)]).reshape(b, n)
        elif kind == 'M':
            kwargs[field] = build(content, counter, number)
        elif kind == 'T':
            kwargs[field] = tuple(build(c, counter, number) for c in content)
        elif kind == 'D':
            kwargs[field] = {k: build(c, counter, number) for k, c in content.items()}
    return _class(shape)(**kwargs)


def leaves(shape, counter=None, prefix=''):
    """(name, rows of values) of each parameter, in order"""
    counter = counter if counter is not None else itertools.count(1)
    out = []
    for field, kind, content in shape:
        name = prefix + field
        if kind == 'S':
            out.append((name, [[float(next(counter))] for _ in range(content)]))
        elif kind == 'L':
            out.append((name, [[float(next(counter)) for _ in range(content[1])] for _ in range(content[0])]))
        elif kind == 'M':
            out += leaves(content, counter, name + '.')
        elif kind == 'T':
            for i, c in enumerate(content):
                out += leaves(c, counter, f'{name}.{i}.')
        elif kind == 'D':
            for k, c in content.items():
                out += leaves(c, counter, f'{name}.{k}.')
    return out


def groups(shape, prefix=''):
    """Names of everything which holds parameters: fields which are models or collections, and members of those"""
    out = []
    for field, kind, content in shape:
        name = prefix + field
        if kind == 'M':
            out += [name] + groups(content, name + '.')
        elif kind == 'T':
            out.append(name)
            for i, c in enumerate(content):
                out += [f'{name}.{i}'] + groups(c, f'{name}.{i}.')
        elif kind == 'D':
            out.append(name)
            for k, c in content.items():
                out += [f'{name}.{k}'] + groups(c, f'{name}.{k}.')
    return out


def marks(shape, name, prefix=''):
    """(path of part, field) pairs which must be marked for a field to be updatable"""
    for field, kind, content in shape:
        full = prefix + field
        if name == full:
            return [(prefix, field)]
        if not name.startswith(full + '.'):
            continue
        if kind == 'M':
            return [(prefix, field)] + marks(content, name, full + '.')
        for k, c in (enumerate(content) if kind == 'T' else content.items()):
            if name.startswith(f'{full}.{k}.'):
                return [(prefix, field)] + marks(c, name, f'{full}.{k}.')
    raise KeyError(name)


def all_fields(shape, prefix='', recurse=True):
    """(path of part, field) pairs of everything which can be marked"""
    out = []
    for field, kind, content in shape:
        if kind != 'N':
            out.append((prefix, field))
        if not recurse:
            continue
        if kind == 'M':
            out += all_fields(content, f'{prefix}{field}.')
        elif kind in 'TD':
            for k, c in (enumerate(content) if kind == 'T' else content.items()):
                out += all_fields(c, f'{prefix}{field}.{k}.')
    return out


def expand(name, rows):
    n = len(rows[0])
    return [name] if n == 1 else [f'{name}[{i}]' for i in range(n)]


def flatten(lvs, names, batch):
    """Vector of values for names"""
    table = dict(lvs)
    cols = []
    for n in names:
        rows = table[n]
        rows = rows * batch if len(rows) == 1 else rows
        cols.append(rows)
    return [[v for c in cols for v in c[b]] for b in range(batch)]


def catalogue(max_fields, batches=True):
    """Every shape with at most some fields per level, with fields which themselves nest up to two levels"""
    small = [[('x', 'S', 1)], [('l', 'L', (1, 2)), ('x', 'S', 1)], [('x', 'S', 1), ('m', 'M', [('l', 'L', (1, 3))])],
             [('t', 'T', [[('x', 'S', 1)], [('l', 'L', (1, 2))]])],
             [('m', 'M', [('d', 'D', {'q': [('x', 'S', 1)]}), ('x', 'S', 1)])]]
    kinds = [('S', 1), ('L', (1, 1)), ('L', (1, 2)), ('L', (1, 0)), ('N', None), ('L', (1, 12))]
    if batches:
        kinds += [('S', 2), ('L', (2, 2)), ('S', 3)]
    kinds += [('M', s) for s in small]
    kinds += [('T', [small[0], small[1]]), ('T', []), ('T', [small[2]]), ('T', [small[3], small[0]]),
              ('T', [small[0]] * 11)]
    kinds += [('D', {'b': small[0], 'a': small[1]}), ('D', {'z': small[3], 'zz': small[0]}), ('D', {'1': small[0], '0': small[4]})]
    out = []
    for n in range(1, max_fields + 1):
        for combo in itertools.product(kinds, repeat=n):
            shape = [(('ga', 'g', 'a')[i], k, c) for i, (k, c) in enumerate(combo)]
            lvs = leaves(shape)
            sizes = {len(r) for _, r in lvs if len(r) > 1}
            if len(sizes) <= 1 and lvs:
                out.append(shape)
    return out
