"""Estimates written to file and read back"""
import itertools
import json
from pathlib import Path

import h5py
import numpy as np
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.models.ecm import ECMASOH, ECMTransientVector

from .. import est, tables, toy

LEVEL = 'model_checking'
WHAT = ['full', 'mean_cov', 'mean_var', 'mean', 'none']
COMPRESS = {'default': None, 'none': {}, 'gzip': {'compression': 'gzip', 'shuffle': True}, 'chunks': {'compression': 'lzf', 'chunks': True}}
TARGET = ['path', 'text', 'group', 'key']
CYCLES = [0, 1, 3]
BOUND = {
    'quick': f'{len(WHAT)} kinds of content per step x {len(WHAT)} per cycle x fixed or growing x known, larger or unknown sizes x {len(COMPRESS)} kinds of compression x {len(TARGET)} places x estimators with '
             f'one or three outputs: all sequences of up to 3 steps over cycles {CYCLES} (in any order); runs of 0, 1, 127 to 129 and 400 steps, and cycles from 127 to 400, with jumps to every cycle up to 519; every sequence of 3 runs over 2 '
             'places in a file; all orders of two readers',
    'thorough': 'as quick, up to 5 steps over 4 cycles, every sequence of 4 runs over 3 places, and runs of up to 2000 steps',
}
ASSUMPTIONS = ['times are numbers and cycles are not negative', 'as many steps and cycles as announced, or fewer']


def cases(tier):
    out = []
    for step, cycle in itertools.product(WHAT, WHAT):
        for fixed in (False, True):
            out.append(['content', step, cycle, fixed])
        out.append(['long', step, cycle])
    for step, cycle in itertools.product(('full', 'mean', 'none'), ('full', 'mean_var', 'none')):
        out.append(['readers', step, cycle])
        if tier == 'thorough' or (step, cycle) in (('full', 'mean_var'), ('mean', 'full'), ('none', 'full'), ('mean', 'none')):
            out.append(['places', step, cycle])
    return out + [['refuse']]


_estimators = {}


def estimator(kind):
    if kind not in _estimators:
        if kind == 'toy':
            _estimators[kind] = est.build_toy('joint', ['w.k', 'a'], (0., .5, .2))[0]
        else:
            _estimators[kind] = est.build(*(('joint', 'rc', ['r0.base_values']) if kind == 'joint' else ('dual', 'full', ['c0.base_values'])), (0., .5, 25.))[0]
    return _estimators[kind]


def dist(n, seed):
    """Any distribution, each a different one"""
    k = np.arange(1., n + 1)
    a = np.diag(k) + .1 * np.outer(k, k) + .01 * seed
    if seed % 3 == 1:
        a *= 1e-18  # Almost exact
    return MultivariateGaussian(mean=k / 3 + seed, covariance=a * (1 + .1 * seed))


def steps(kind, cycles):
    e = estimator(kind)
    first = {'joint': 0., 'dual': -2.25, 'toy': -1.5}[kind]
    return [(first + 1.5 * i + (i % 2) * .25, c, dist(e.num_state_dimensions, i), dist(e.num_output_dimensions, i + .5)) for i, c in enumerate(cycles)]


def want(data, where):
    """What must be read"""
    if where == 'per_timestep':
        return [(t, s, o) for t, _, s, o in data]
    first = {}
    for t, c, s, o in data:
        first.setdefault(0 if c is None else c, (t, s, o))
    return [first[c] for c in sorted(first)]


def compare(ctx, key, what, got, data, where, content):
    expected = want(data, where)
    if len(got) != len(expected):
        return ctx.violation(key, f'{what}: {len(got)} rows {where}, expected {len(expected)}')
    for i, (g, w) in enumerate(zip(got, expected)):
        if not ctx.close(key, f'time of row {i} {where} {what}', g[0], w[0], rtol=0, atol=0):
            return
        for name, a, b in (('state', g[1], w[1]), ('output', g[2], w[2])):
            ctx.equal(key, f'type of {name} {i} {where} {what}', type(a), DeltaDistribution if content == 'mean' else MultivariateGaussian)
            ctx.close(key, f'mean of {name} {i} {where} {what}', a.get_mean(), b.get_mean(), rtol=0, atol=0)
            cov = b.get_covariance()
            cov = {'mean': np.zeros_like(cov), 'mean_var': np.diag(np.diag(cov))}.get(content, cov)
            ctx.close(key, f'covariance of {name} {i} {where} {what}', a.get_covariance(), cov, rtol=0, atol=0)
        if ctx.violations:
            return


def read(ctx, key, what, path, data, step, cycle):
    """Read everything, and compare"""
    for where, content in (('per_timestep', step), ('per_cycle', cycle)):
        it = read_state_estimates(path, per_timestep=where == 'per_timestep')
        if content == 'none':
            try:
                got = list(it)
            except ValueError:
                continue
            ctx.violation(key, f'{what}: {len(got)} rows are read {where}, although none were stored')
        else:
            compare(ctx, key, what, list(it), data, where, content)
            ctx.transition(len(data))


def metadata(ctx, key, what, group, kind):
    e = estimator(kind)
    a = group.attrs
    ctx.equal(key, f'names of states {what}', list(a['state_names']), list(e.state_names))
    ctx.equal(key, f'names of outputs {what}', list(a['output_names']), list(e.output_names))
    health, state = (toy.ToyHealth, toy.ToyState) if kind == 'toy' else (ECMASOH, ECMTransientVector)
    h, s = health.model_validate_json(a['initial_asoh']), state.model_validate_json(a['initial_transient_state'])
    if kind == 'toy':
        ctx.equal(key, f'initial health {what}', {n: v.tolist() for n, v in h.iter_parameters(updatable_only=False)},
                  {n: v.tolist() for n, v in toy.health(['w.k', 'a']).iter_parameters(updatable_only=False)})
        ctx.equal(key, f'initial state {what}', s.to_numpy().tolist(), [toy.START])
    else:
        name = 'rc' if kind == 'joint' else 'full'
        for n, v in est.ecm.build_asoh(est.member(name)).iter_parameters(updatable_only=False):
            ctx.equal(key, f'initial {n} {what}', h.get_parameters([n]).tolist() if h.mark_updatable(n) is None else None, v.reshape(1, -1).tolist())
        ctx.equal(key, f'initial state {what}', s.to_numpy().tolist(), [est.ecmref.vector(est.state(name))])
    json.loads(a['write_settings'])


def write(writer, kind, data, expect=(None, None)):
    e = estimator(kind)
    with writer:
        writer.prepare(e, **({} if expect == (None, None) else {'expected_steps': expect[0], 'expected_cycles': expect[1]}))
        for t, c, s, o in data:
            writer.append_step(t, c, s, o)


def run(case, ctx, tier):
    with tables.Scratch() as scratch:
        {'content': content, 'long': long, 'places': places, 'readers': readers, 'refuse': refuse}[case[0]](case, ctx, tier, scratch)
        ctx.equal(f'{case}', f'files which are still open for {case}', tables.open_files(scratch.path), [])


def content(case, ctx, tier, scratch):
    _, step, cycle, fixed = case
    alphabet = CYCLES if tier == 'quick' else CYCLES + [2]
    sequences = [c for n in range(0, 4 if tier == 'quick' else 6) for c in itertools.product(alphabet, repeat=n)]
    variants = list(itertools.product(COMPRESS, TARGET, ('exact', 'larger', 'unknown', 'steps'), ('joint', 'toy', 'dual')))
    if fixed:
        variants = [v for v in variants if v[2] in ('exact', 'larger')]
    for j, cycles in enumerate(sequences):
        n = len(cycles)
        # Every variant for some sequences, and every sequence for some variants
        chosen = variants if cycles == (0, 0, 1) and (step, cycle) in (('full', 'mean'), ('mean_var', 'full'), ('mean', 'mean_cov')) \
            else [variants[(7 * j + 11 * WHAT.index(step) + 5 * WHAT.index(cycle) + k * 13) % len(variants)] for k in range(2)]
        for compress, target, sizes, kind in chosen:
            exact = (n, max(cycles, default=-1) + 1)
            expect = {'exact': exact, 'larger': (exact[0] + 3, exact[1] + 2), 'unknown': (None, None), 'steps': (exact[0], None)}[sizes]
            if 0 in expect:  # Nothing can be stored in no space
                expect = tuple(e and max(e, 1) for e in expect) if 'unknown' == sizes else tuple(None if e is None else max(e, 1) for e in expect)
            data = steps(kind, cycles)
            key = f'{case} {cycles} {compress} {target} {sizes} {kind}'
            options = {'per_timestep': step, 'per_cycle': cycle, 'resizable': not fixed}
            if COMPRESS[compress] is not None:
                options['dataset_options'] = COMPRESS[compress]
            path = scratch.new()
            if target in ('path', 'text'):
                write(HDF5Writer(hdf5_output=Path(path) if target == 'path' else path, **options), kind, data, expect)
                read(ctx, key, f'for {key}', Path(path) if target == 'path' else path, data, step, cycle)
                with h5py.File(path, 'r') as file:
                    metadata(ctx, key, f'for {key}', file['state_estimates'], kind)
            else:
                name = 'state_estimates' if target == 'group' else 'some/where'
                with h5py.File(path, 'w') as file:
                    group = file.create_group('deep/down')
                    write(HDF5Writer(hdf5_output=group, **({} if target == 'group' else {'storage_key': name}), **options), kind, data, expect)
                    read(ctx, key, f'for {key} while open', group[name], data, step, cycle)
                with h5py.File(path, 'r') as file:
                    read(ctx, key, f'for {key}', file['deep/down/' + name], data, step, cycle)
                    metadata(ctx, key, f'for {key}', file['deep/down/' + name], kind)
            ctx.trace()
            ctx.state(case, cycles, compress, target, sizes, kind)
            ctx.outcome(step, cycle, cycles)
            if ctx.violations:
                return
    ctx.sample({'case': case, 'cycles': cycles, 'times': [d[0] for d in data]})


def long(case, ctx, tier, scratch):
    """Grow past one and several chunks"""
    _, step, cycle = case
    for n in (0, 1, 127, 128, 129, 400) + (() if tier == 'quick' else (255, 256, 257, 2000)):
        for cycles in ([0] * n, [i // 100 for i in range(n)], [127 + i // 50 for i in range(n)], [400 * (i > n // 2) for i in range(n)], list(range(n))):
            if tier == 'quick' and (n > 129 and cycles in ([0] * n, list(range(n))) or n in (127, 128) and len(set(cycles)) in (2, 3)):
                continue
            for compress in ('default', 'none') if n < 2 else ('default',):
                data = steps('joint', cycles)
                path = scratch.new()
                key = f'{case} {n} steps in cycles {sorted(set(cycles))[:5]} {compress}'
                write(HDF5Writer(hdf5_output=path, per_timestep=step, per_cycle=cycle, **({} if compress == 'default' else {'dataset_options': {}})), 'joint', data)
                read(ctx, key, f'for {key}', path, data, step, cycle)
                ctx.trace()
                ctx.state(key)
                if ctx.violations:
                    return
    if cycle == 'none':
        return
    for jump in range(100, 520) if (step, cycle) in (('none', 'mean'), ('none', 'full')) else (256, 384, 512):  # To every position within and at the ends of chunks
        data = steps('joint', [0, jump])
        path = scratch.new()
        key = f'{case} cycles 0 and {jump}'
        write(HDF5Writer(hdf5_output=path, per_timestep=step, per_cycle=cycle), 'joint', data)
        read(ctx, key, f'for {key}', path, data, step, cycle)
        ctx.trace()
        ctx.state(key)
        if ctx.violations:
            return


def places(case, ctx, tier, scratch):
    """Several runs to several places of one file. Only the first one in each takes effect"""
    _, step, cycle = case
    keys = ['state_estimates', 'other'] if tier == 'quick' else ['state_estimates', 'other', 'deep/third']
    contents = [(step, cycle), (cycle, step), ('mean_cov', 'none')]
    for seq in itertools.product(itertools.product(range(len(keys)), range(3)), repeat=3 if tier == 'quick' else 4):
        path = scratch.new()
        stored = {}
        same = HDF5Writer(hdf5_output=path, per_timestep=step, per_cycle=cycle)
        for d, (k, c) in enumerate(seq):
            what = contents[c]
            key = f'{case} {seq[:d + 1]}'
            data = steps(('joint', 'dual', 'toy')[d % 3], [0, 0, 2][:d + 1])
            data = [(t + 100 * d, *rest) for t, *rest in data]
            # The same writer may be used again
            writer = same if c == 0 and k == 0 else HDF5Writer(hdf5_output=path, storage_key=keys[k], per_timestep=what[0], per_cycle=what[1])
            # Nothing is stored for the content 'none', so that nothing would be overwritten
            refused = k in stored and stored[k][1] != ('none', 'none')
            try:
                write(writer, ('joint', 'dual', 'toy')[d % 3], data)
                if refused:
                    ctx.violation(key, f'writing to the same place was not refused in {key}')
            except ValueError:
                if not refused:
                    raise
            if not refused:
                stored[k] = (data, what, ('joint', 'dual', 'toy')[d % 3])
            ctx.equal(key, f'whether the writer is ready after {key}', writer.is_ready, False)
            for k2, (data2, what2, kind2) in stored.items():
                with h5py.File(path, 'r') as file:
                    read(ctx, key, f'{keys[k2]} after {key}', file[keys[k2]], data2, *what2)
                    metadata(ctx, key, f'of {keys[k2]} after {key}', file[keys[k2]], kind2)
            ctx.state(key)
            if ctx.violations:
                return
        ctx.trace()


def readers(case, ctx, tier, scratch):
    """Two readers of the same file which take turns"""
    _, step, cycle = case
    data = steps('joint', [0, 1, 1])
    path = scratch.new()
    write(HDF5Writer(hdf5_output=path, per_timestep=step, per_cycle=cycle), 'joint', data)
    tags = [(a, b) for a, b in itertools.product(('per_timestep', 'per_cycle'), repeat=2) if 'none' not in ((step if x == 'per_timestep' else cycle) for x in (a, b))]
    for a, b in tags:
        for order in itertools.product((0, 1), repeat=6):
            its = [read_state_estimates(path, per_timestep=x == 'per_timestep') for x in (a, b)]
            got = [[], []]
            for o in order:
                row = next(its[o], None)
                if row is not None:
                    got[o].append(row)
            for i, x in enumerate((a, b)):
                n = min(order.count(i), len(want(data, x)))
                done = want(data, x)[:n]
                compare(ctx, f'{case} {a} {b} {order}', f'by reader {i} of {a}, {b} in order {order} of {case}', got[i],
                        [(t, j, s, o) for j, (t, s, o) in enumerate(done)], x, step if x == 'per_timestep' else cycle)
                its[i].close()
            ctx.state(case, a, b, order)
            ctx.trace()
            if ctx.violations:
                return


def refuse(case, ctx, tier, scratch):
    """What cannot be done"""
    e = estimator('joint')
    s, o = dist(e.num_state_dimensions, 0), dist(e.num_output_dimensions, 0)

    def refused(what, f, kind=ValueError):
        ctx.transition()
        ctx.state(what)
        try:
            f()
        except kind:
            return
        ctx.violation(what, f'{what} was not refused')

    path = scratch.new()
    writer = HDF5Writer(hdf5_output=path)
    refused('writing before opening', lambda: writer.append_step(0., 0, s, o))
    refused('preparing before opening', lambda: writer.prepare(e))
    with writer:
        ctx.equal('ready', 'whether an open writer is ready', writer.is_ready, True)
    refused('writing after closing', lambda: writer.append_step(0., 0, s, o))
    for sizes in ({}, {'expected_steps': 3}, {'expected_cycles': 3}):
        def fixed():
            with HDF5Writer(hdf5_output=scratch.new(), resizable=False) as w:
                w.prepare(e, **sizes)
        refused(f'fixed sizes with {sizes}', fixed)
    for name in ('per_timestep', 'per_cycle'):
        refused(f'unknown content {name}', lambda: HDF5Writer(hdf5_output=path, **{name: 'unknown'}))
    for full, where in itertools.product(('full', 'mean', 'mean_cov'), (True, False)):
        path = scratch.new()
        write(HDF5Writer(hdf5_output=path, per_timestep=full, per_cycle=full), 'joint', steps('joint', [0, 1]))
        what = f'reading {full} {where} as another distribution'
        if full == 'full':
            refused(what, lambda: list(read_state_estimates(path, per_timestep=where, dist_type=DeltaDistribution)))
        else:
            ctx.equal(what, what, len(list(read_state_estimates(path, per_timestep=where, dist_type=DeltaDistribution))), 2)
    with h5py.File(scratch.new(), 'w') as file:
        file['data'] = np.zeros(3)
        empty = file.filename
    refused('reading a file without estimates', lambda: list(read_state_estimates(empty)), (KeyError, ValueError))
    refused('reading a file which does not exist', lambda: list(read_state_estimates(empty + 'x')), OSError)
