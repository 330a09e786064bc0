"""Estimates over datasets"""
import contextlib
import io
import itertools
import math
from pathlib import Path

import h5py
import numpy as np
import pandas as pd
from moirae.interface import row_to_inputs, run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates

from .. import est, tables

LEVEL = 'model_checking'
ESTIMATORS = {'joint rc': dict(kind='joint', name='rc', names=['ocv.ocv_ref.base_values', 'r0.base_values']), 'dual full': dict(kind='dual', name='full', names=['c0.base_values']),
              'joint normalized': dict(kind='joint', name='rc', names=['r0.base_values'], normalize=True),
              'dual reversed': dict(kind='dual', name='r0', names=['r0.base_values', 'q_t.base_values'], wrap=True),
              'joint degrading': dict(kind='joint', name='full', names=['r0.base_values', 'h0.base_values'], wrap=True, degrade=True),
              'dual linear': dict(kind='dual', name='rc', names=['rc_elements.0.c.base_values'], behavior='linear')}
TEMPS = ['given', 'absent', 'nan', 'inf', 'first', 'last']
CYCLES = {'none': None, 'zero': [0, 0, 1], 'later': [5, 5, 7]}
INDEX = ['default', 'reversed', 'same', 'dates', 'offset']
EXTRA = [None, 'number', 'text']
SOURCE = ['memory', 'path', 'text']
OUTPUT = [None, 'path', 'text', 'group', 'writer', 'fixed writer', 'nothing', 'all']
BOUND = {
    'quick': f'{len(ESTIMATORS)} estimators x all datasets of 1 to 3 rows from 3 options (5 for up to 2 rows and one estimator, with equal and decreasing times), in memory and streamed (of 2 rows also at times of 1.7e9 s); one estimator with {len(TEMPS)} kinds of temperature, {len(CYCLES)} of cycle '
             f'numbers, {len(INDEX)} of indices, {len(EXTRA)} of other columns, whole numbers or not and {len(SOURCE)} sources; {len(OUTPUT)} kinds of file output (which is read back) x first, later or no cycle numbers, progress bar and tables or none; all '
             'sequences of 2 datasets given to the same estimator',
    'thorough': 'as quick, 5 rows, and the configurations for every estimator',
}
ASSUMPTIONS = ['datasets have at least one row']


def cases(tier):
    out = [['row'], ['refusal']]
    for e in ESTIMATORS:
        out += [['rows', e, source] for source in ('memory', 'path')]
    for e in list(ESTIMATORS) if tier == 'thorough' else ['joint rc']:
        out += [['config', e, temps, cycles] for temps in TEMPS for cycles in CYCLES]
    out += [['output', e, source, kind] for e in ('joint rc', 'dual full') for source in SOURCE for kind in OUTPUT]
    out += [['twice', e, first, second] for e in ESTIMATORS for first, second in itertools.product(('memory', 'path'), repeat=2)]
    return out


def make(e):
    kw = dict(ESTIMATORS[e])
    if 'names' in kw and kw.get('wrap'):
        kw['names'] = kw['names'][::-1]
    return est.build(first=(1., -3., 60.), **kw)[0]


def labels(e):
    kw = ESTIMATORS[e]
    m = est.member(kw['name'])
    return est.trans_names(m) + est.labels(m, kw['names'][::-1] if kw.get('wrap') else kw['names'])


def by_hand(estimator, data, temps='given'):
    """Step through the rows"""
    out = []
    n = len(data)
    for i, r in enumerate(data):
        u = est.ecm.build_input((r[0], r[1], tables.temperature(r, i, n, temps)))
        if i == 0:
            estimator.set_previous_inputs(u)
        state, output = estimator.step(u, est.measured(r[3]))
        out.append(np.concatenate([state.get_mean(), np.sqrt(np.diag(state.get_covariance())), output.get_mean(), np.sqrt(np.diag(output.get_covariance()))]))
    return np.array(out)


def run(case, ctx, tier):
    if case[0] == 'row':
        return row(ctx)
    if case[0] == 'refusal':
        return refusal(ctx)
    with tables.Scratch() as scratch:
        {'rows': many, 'config': config, 'output': output, 'twice': twice}[case[0]](case, ctx, tier, scratch)


def row(ctx):
    """A single row"""
    for t, i, v, temp, default, as_type, cycle in itertools.product((0., 12.5, 7, 1.7e9 + .125), (0., -2., 3), (3.7, 4), ('absent', math.nan, math.inf, -math.inf, 0., 31.), (None, -5., 40.),
                                                                    (pd.Series, dict), (False, True)):
        data = {'test_time': t, 'current': i, 'voltage': v}
        if temp != 'absent':
            data['temperature'] = temp
        if cycle:
            data['cycle_number'] = 3
        inputs, outputs = row_to_inputs(as_type(data), **({} if default is None else {'default_temperature': default}))
        want = temp if temp != 'absent' and math.isfinite(temp) else 25. if default is None else default
        ctx.close(data, f'inputs of {data} with default {default}', inputs.to_numpy(), [[t, i, want]], rtol=0, atol=0)
        ctx.close(data, f'outputs of {data}', outputs.to_numpy(), [[v]], rtol=0, atol=0)
        ctx.transition()
        ctx.state(data, default, as_type.__name__)


def refusal(ctx):
    """What is not a dataset with a time series"""
    df = tables.frame(tables.rows((1, 0)), cycles=[0, 0])
    for e in ESTIMATORS:
        for what, dataset in {'a dataset without time series': tables.dataset(df), 'a table': df, 'nothing': None, 'rows': [r for _, r in df.iterrows()]}.items():
            if what == 'a dataset without time series':
                dataset.tables.pop('raw_data')
                dataset.tables['cycle_stats'] = df
            estimator = make(e)
            before = estimator.state.get_mean(), estimator.state.get_covariance()
            try:
                run_online_estimate(dataset, estimator)
            except ValueError:
                ctx.outcome('refused')
            except Exception as err:
                ctx.violation(f'refusal {what}', f'{err!r} given {what} instead of an explanation')
            else:
                ctx.violation(f'refusal {what}', f'{what} was accepted')
            ctx.close(f'refusal {what}', f'state after {what}', estimator.state.get_mean(), before[0], rtol=0, atol=0)
            ctx.close(f'refusal {what}', f'covariance after {what}', estimator.state.get_covariance(), before[1], rtol=0, atol=0)
            ctx.transition()
            ctx.state(e, what)


def source(df, kind, scratch):
    data = tables.dataset(df)
    if kind == 'memory':
        return data
    path = scratch.new()
    data.to_hdf(path)
    return Path(path) if kind == 'path' else path


def check(ctx, config, e, estimator, dataset, df, want, output_states=True, **kwargs):
    key = f'{config}'
    before = df.copy()
    content = Path(dataset).read_bytes() if isinstance(dataset, (str, Path)) else None
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        got, same = run_online_estimate(dataset, estimator, **({} if output_states is None else {'output_states': output_states}), **kwargs)
    ctx.transition(len(df))
    if same is not estimator:
        ctx.violation(key, f'another estimator is returned for {config}')
    if not df.equals(before) or list(df.columns) != list(before.columns) or not df.index.equals(before.index):
        ctx.violation(key, f'the dataset was changed for {config}')
    if content is not None and Path(dataset).read_bytes() != content:
        ctx.violation(key, f'the file of the dataset was changed for {config}')
    names = labels(e)
    if output_states is False:
        ctx.equal(key, f'table for {config}', got, None)
    else:
        columns = names + [f'{n}_std' for n in names] + ['terminal_voltage', 'terminal_voltage_std']
        ctx.equal(key, f'columns for {config}', list(got.columns), columns)
        ctx.equal(key, f'rows for {config}', list(got.index), list(range(len(df))))
        ctx.close(key, f'results for {config}', got.to_numpy(), want, rtol=1e-9, atol=1e-13)
        ctx.outcome(got.to_numpy())
    n = len(names)
    ctx.close(key, f'state of the estimator after {config}', estimator.state.get_mean(), want[-1, :n], rtol=1e-9, atol=1e-13)
    ctx.close(key, f'covariance of the estimator after {config}', np.sqrt(np.diag(estimator.state.get_covariance())), want[-1, n:2 * n], rtol=1e-9, atol=1e-13)
    ctx.trace()
    return got


def many(case, ctx, tier, scratch):
    _, e, src = case
    for n in range(1, 4 if tier == 'quick' else 6):
        for hist, start in itertools.product(itertools.product(range(5), repeat=n), (0., 1.7e9)):
            if start and n != 2 or n > 2 and max(hist) > 2 and len(set(hist)) < (n if e == 'joint rc' else 99):
                continue
            data = tables.rows(hist, start)
            df = tables.frame(data, cycles=[0] * n)
            want = by_hand(make(e), data)
            check(ctx, case + [hist, start], e, make(e), source(df, src, scratch), df, want)
            ctx.state(case, hist, start)
            if ctx.violations:
                return
    ctx.sample({'case': case, 'rows': data, 'results': want})


def config(case, ctx, tier, scratch):
    _, e, temps, cycles = case
    data = tables.rows((1, 0, 2))
    want = by_hand(make(e), data, temps)
    for index, extra, ints, src in itertools.product(INDEX, EXTRA, (False, True), SOURCE):
        if extra == 'text' and src != 'memory':  # Text is not supported by the files
            continue
        df = tables.frame(data, temps, CYCLES[cycles], index, extra, ints)
        check(ctx, case + [index, extra, ints, src], e, make(e), source(df, src, scratch), df, want)
        ctx.state(case, index, extra, ints, src)
        if ctx.violations:
            return


def output(case, ctx, tier, scratch):
    _, e, src, kind = case
    data = tables.rows((1, 0, 2))
    want = by_hand(make(e), data)
    # The table is returned unless it is not wanted
    for pbar, states, cycles in itertools.product((False, True), (False, True, None), ([0, 1, 1], [200, 200, 300], None)):
        if kind == 'fixed writer' and src != 'memory' or pbar and cycles != [0, 1, 1]:  # The number of cycles is not known
            continue
        df = tables.frame(data, cycles=cycles)
        path = scratch.new()
        with contextlib.ExitStack() as stack:
            target = {None: lambda: None, 'path': lambda: Path(path), 'text': lambda: path, 'group': lambda: stack.enter_context(h5py.File(path, 'w')).create_group('here'),
                      'writer': lambda: HDF5Writer(hdf5_output=path), 'fixed writer': lambda: HDF5Writer(hdf5_output=path, resizable=False),
                      'nothing': lambda: HDF5Writer(hdf5_output=path, per_timestep='none', per_cycle='none'),
                      'all': lambda: HDF5Writer(hdf5_output=path, per_timestep='full', per_cycle='mean_var', dataset_options={})}[kind]()
            check(ctx, case + [pbar, states, cycles], e, make(e), source(df, src, scratch), df, want, states, pbar=pbar, **({} if kind is None else {'hdf5_output': target}))
        if kind is not None:
            stored(ctx, case + [pbar, states, cycles], path, kind, data, cycles, want)
        ctx.equal(f'{case}', f'files which are still open for {case}', tables.open_files(scratch.path), [])
        ctx.state(case, pbar, states, cycles)


def stored(ctx, config, path, kind, data, cycles, want):
    """What is in the file: means per step and everything per cycle, unless a writer is set up otherwise"""
    first = [0] if cycles is None else [i for i in range(len(data)) if i == 0 or cycles[i] != cycles[i - 1]]
    with h5py.File(path, 'r') as file:
        group = file['here/state_estimates' if kind == 'group' else 'state_estimates']
        for per_step, chosen in (True, range(len(data))), (False, first):
            if kind == 'nothing':
                continue
            got = list(read_state_estimates(group, per_timestep=per_step))
            what = f'in the file, {"per step" if per_step else "per cycle"}, for {config}'
            if not ctx.equal(f'{config}', f'times {what}', [g[0] for g in got], [data[i][0] for i in chosen]):
                return
            for (_, state, out), i in zip(got, chosen):
                n, m = state.num_dimensions, out.num_dimensions
                ctx.close(f'{config}', f'row {i} {what}', np.concatenate([state.get_mean(), out.get_mean()]), np.concatenate([want[i, :n], want[i, 2 * n:2 * n + m]]), rtol=1e-9,
                          atol=1e-13)
                if not per_step or kind == 'all':
                    ctx.close(f'{config}', f'deviations of row {i} {what}', np.sqrt(np.concatenate([np.diag(state.get_covariance()), np.diag(out.get_covariance())])),
                              np.concatenate([want[i, n:2 * n], want[i, 2 * n + m:]]), rtol=1e-9, atol=1e-13)


def twice(case, ctx, tier, scratch):
    """The same estimator goes on to another dataset"""
    _, e, *sources = case
    for n1, n2 in itertools.product((1, 2), repeat=2):
        for h1, h2 in itertools.product(itertools.product(range(3), repeat=n1), itertools.product(range(3), repeat=n2)):
            if tier == 'quick' and (len(set(h1)) < n1 or len(set(h2)) < n2 or h1[-1] == h2[0]):
                continue
            estimator, hand = make(e), make(e)
            end = 0.
            for d, (hist, src) in enumerate(zip((h1, h2), sources)):
                data = tables.rows(hist, end + 50.)
                df = tables.frame(data, cycles=[d] * len(hist))
                check(ctx, case + [h1, h2, d], e, estimator, source(df, src, scratch), df, by_hand(hand, data))
                end = data[-1][0]
            ctx.state(case, h1, h2)
            if ctx.violations:
                return
