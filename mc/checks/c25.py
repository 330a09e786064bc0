"""Failures while estimates are written to or read from a file"""
import contextlib
import itertools
from pathlib import Path

import h5py
import numpy as np
from moirae.interface import run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates

from .. import tables
from .c23 import make

LEVEL = 'model_checking'
WRITERS = {'default': {}, 'full': dict(per_timestep='full', per_cycle='mean_var'), 'fixed': dict(resizable=False, per_timestep='mean_cov'), 'steps': dict(per_cycle='none'),
           'cycles': dict(per_timestep='none'), 'plain': dict(dataset_options={}, per_timestep='mean_var', per_cycle='mean')}
TARGETS = ['writer', 'path', 'group']
CYCLES = {'two': [0, 0, 1], 'far': [0, 1, 130]}
# Where storage may fail: all calls which change a file
POINTS = [(h5py.File, '__init__'), (h5py.Group, 'create_group'), (h5py.Group, 'create_dataset'), (h5py.AttributeManager, '__setitem__'), (h5py.Dataset, '__setitem__'),
          (h5py.Dataset, 'resize')]
READS = [(h5py.File, '__init__'), (h5py.Group, '__getitem__'), (h5py.AttributeManager, '__getitem__'), (h5py.Dataset, '__getitem__')]
BOUND = {
    'quick': f'{len(WRITERS)} settings of the writer x paths, groups and writers x in memory or streamed x cycles with and without growth, runs of 3 steps: one failure at each '
             'row of the data, each step of the estimator (errors of several kinds or an interruption), and right before and right after each call that changes the file; '
             'readers stopped after each row or failing at each call, and files with no, incomplete or other content',
    'thorough': 'as quick, 6 steps and 2 estimators',
}
ASSUMPTIONS = ['the process itself survives: what HDF5 leaves behind if it is killed is not considered']


def cases(tier):
    out = []
    for e in ['joint rc'] if tier == 'quick' else ['joint rc', 'dual full']:
        for w, target, source, cycles in itertools.product(WRITERS, TARGETS, ('memory', 'path'), CYCLES):
            if target != 'writer' and w != 'default' or w == 'fixed' and source == 'path':
                continue
            out += [['write', e, w, target, source, cycles, when] for when in ('before', 'after')] + [['step', e, w, target, source, cycles]]
    return out + [['read', w, target] for w in WRITERS for target in ('path', 'group')] + [['other']]


class Fault(Exception):
    """Put there on purpose"""


class Calls:
    """Counts calls, and lets one fail"""

    def __init__(self, points, fail=None, when='before', error=Fault):
        self.points, self.fail, self.when, self.error = points, fail, when, error
        self.n = 0

    def __enter__(self):
        self.original = [(cls, name, cls.__dict__[name]) for cls, name in self.points]
        for cls, name, f in self.original:
            setattr(cls, name, self.wrap(f))
        return self

    def __exit__(self, *args):
        for cls, name, f in self.original:
            setattr(cls, name, f)

    def wrap(self, f):
        def call(*args, **kwargs):
            self.n += 1
            mine = self.n == self.fail
            if mine and self.when == 'before':
                raise self.error('failure')
            out = f(*args, **kwargs)
            if mine:
                raise self.error('failure')
            return out
        return call


def run(case, ctx, tier):
    with tables.Scratch() as scratch:
        {'write': storage, 'step': stepping, 'read': reading, 'other': other}[case[0]](case, ctx, tier, scratch)


def setup(cycles, source, scratch, n):
    data = tables.rows([1, 0, 2, 2, 0, 1][:n])
    more = (CYCLES[cycles] + [CYCLES[cycles][-1]] * 2 + [131])[:n]
    df = tables.frame(data, cycles=more)
    dataset = tables.dataset(df)
    if source == 'path':
        path = scratch.new()
        dataset.to_hdf(path)
        dataset = Path(path)
    return data, more, dataset, df


def good(e, data):
    """Result of each step"""
    from .. import est
    estimator = make(e)
    out = []
    for i, r in enumerate(data):
        u = est.ecm.build_input(r[:3])
        if i == 0:
            estimator.set_previous_inputs(u)
        out.append(estimator.step(u, est.measured(r[3])))
    return out


def contents(ctx, key, where, data, cycles, results, settings, low, high):
    """Compare what is in a file with the steps which were finished

    Args:
        where: Path or group
        low, high: The least and most number of steps of which estimates may be there
    """
    for tag, default in (('per_timestep', 'mean'), ('per_cycle', 'full')):
        content = settings.get(tag, default)
        if content == 'none':
            continue
        got = list(read_state_estimates(where, per_timestep=tag == 'per_timestep'))
        allowed = []
        for n in range(low, high + 1):
            rows = list(range(n)) if tag == 'per_timestep' else [cycles[:n].index(c) for c in sorted(set(cycles[:n]))]
            allowed.append(rows)
        match = [rows for rows in allowed if len(rows) == len(got) and all(g[0] == data[r][0] for g, r in zip(got, rows))]
        if not match:
            ctx.violation(key, f'{tag} holds times {[g[0] for g in got]}, although {low} to {high} steps of {[d[0] for d in data]} in cycles {cycles} were finished: {key}')
            return
        for g, r in zip(got, match[0]):
            for name, a, b in (('state', g[1], results[r][0]), ('output', g[2], results[r][1])):
                ctx.close(key, f'mean of {name} at {g[0]} {tag}: {key}', a.get_mean(), b.get_mean(), rtol=1e-9, atol=1e-13)
                cov = {'mean': 0 * b.get_covariance(), 'mean_var': np.diag(np.diag(b.get_covariance()))}.get(content, b.get_covariance())
                ctx.close(key, f'covariance of {name} at {g[0]} {tag}: {key}', a.get_covariance(), cov, rtol=1e-9, atol=1e-13)


def attempt(ctx, key, e, w, target, scratch, dataset, data, cycles, results, context, finished, estimator=None):
    """One run with a failure, and what it leaves behind

    Args:
        context: Lets it fail while entered
        finished: Called after the run: the least and most number of steps of which there may be estimates. None if it failed before there could be any
    Returns:
        Whether it failed
    """
    path = scratch.new()
    settings = WRITERS[w]
    failed = False
    writer = None
    with contextlib.ExitStack() as stack:
        if target == 'group':
            where = stack.enter_context(h5py.File(path, 'w')).create_group('here')
        else:
            where = path
        if target == 'writer':
            where = writer = HDF5Writer(hdf5_output=path, **settings)
        try:
            with context:
                run_online_estimate(dataset, estimator or make(e), hdf5_output=where, output_states=False)
        except BaseException as error:
            if not isinstance(error, context.error):
                raise
            failed = True
            kept = error  # As an interpreter keeps it, along with all frames, for debugging
            if target != 'group' and not (isinstance(context, Calls) and context.fail == 1):  # Nobody could close it if it fails after being opened
                ctx.equal(key, f'whether the output is still open while the error is looked at: {key}', str(path) in tables.open_files(scratch.path), False)
            del kept
        if target == 'group':  # Still ours
            bounds = finished()
            if bounds is not None:
                contents(ctx, key + ' while open', where['state_estimates'], data, cycles, results, settings, *bounds)
    ctx.equal(key, f'files which are still open: {key}', tables.open_files(scratch.path), [])
    if writer is not None:
        ctx.equal(key, f'whether the writer is ready: {key}', writer.is_ready, False)
    bounds = finished()
    if bounds is not None:
        if target == 'group':
            with h5py.File(path, 'r') as file:
                contents(ctx, key, file['here/state_estimates'], data, cycles, results, settings, *bounds)
        else:
            contents(ctx, key, path, data, cycles, results, settings, *bounds)
    # Once more, to another file
    if writer is not None:
        path = scratch.new()
        writer.hdf5_output = path
        run_online_estimate(dataset, make(e), hdf5_output=writer, output_states=False)
        contents(ctx, key + ' repeated', path, data, cycles, results, settings, len(data), len(data))
        ctx.equal(key, f'files which are still open after a repeated run: {key}', tables.open_files(scratch.path), [])
    ctx.trace()
    ctx.state(key)
    return failed


class Watched:
    """An estimator of which the steps are counted, and one of which may fail"""

    def __init__(self, e, fail=None, error=Fault):
        self.estimator, self.n, self.fail, self.error = make(e), 0, fail, error
        step = self.estimator.step

        def watched(*args, **kwargs):
            self.n += 1
            if self.n == self.fail:
                raise self.error('failure')
            return step(*args, **kwargs)
        self.estimator.step = watched

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def storage(case, ctx, tier, scratch):
    _, e, w, target, source, cycles, when = case
    data, more, dataset, _ = setup(cycles, source, scratch, 3 if tier == 'quick' else 6)
    results = good(e, data)
    for fail in itertools.count(1):
        watched = Watched(e)
        calls = Calls(POINTS, fail, when)

        def finished():
            # Storage fails while the last step is stored, or before there are any
            if watched.n == 0:
                return None
            return watched.n - 1 if calls.n >= fail else watched.n, watched.n
        failed = attempt(ctx, f'{case} call {fail}', e, w, target, scratch, dataset, data, more, results, calls, finished, watched.estimator)
        ctx.transition()
        ctx.outcome(case[2:], watched.n, failed)
        if ctx.violations:
            return
        if not failed:
            break
    if calls.n >= fail:
        ctx.violation(f'{case} call {fail}', f'the failure did not reach the caller: {case} call {fail}')
    ctx.count('calls', calls.n)
    ctx.sample({'case': case, 'calls': calls.n})


def stepping(case, ctx, tier, scratch):
    """The estimator or the data fail"""
    _, e, w, target, source, cycles = case
    n = 3 if tier == 'quick' else 6
    data, more, dataset, df = setup(cycles, source, scratch, n)
    results = good(e, data)
    for fail, error in itertools.product(range(1, n + 2), (Fault, KeyboardInterrupt, np.linalg.LinAlgError, ValueError, KeyError, StopIteration, OSError, SystemExit)):
        if error not in (Fault, KeyboardInterrupt) and (cycles != 'two' or source != 'memory'):
            continue
        watched = Watched(e, fail, error)
        failed = attempt(ctx, f'{case} step {fail} {error.__name__}', e, w, target, scratch, dataset, data, more, results, watched, lambda: (min(fail - 1, n),) * 2, watched.estimator)
        ctx.equal(f'{case} {fail}', f'whether the failure of step {fail} reaches the caller for {case}', failed, fail <= n)
        ctx.transition()
        if ctx.violations:
            return
    if source != 'memory':
        return
    for column, row in itertools.product(('voltage', 'current', 'test_time'), range(n)):
        bad = df.copy()
        bad[column] = bad[column].astype(object)
        bad.loc[row, column] = 'broken'
        path = scratch.new()
        key = f'{case} {column} of row {row}'
        with contextlib.ExitStack() as stack:
            where = {'path': path, 'writer': HDF5Writer(hdf5_output=path, **WRITERS[w]),
                     'group': stack.enter_context(h5py.File(path, 'w')).create_group('here') if target == 'group' else None}[target]
            failed = False
            try:
                run_online_estimate(tables.dataset(bad), make(e), hdf5_output=where)
            except (ValueError, TypeError):
                failed = True
            ctx.equal(key, f'whether the failure reaches the caller for {key}', failed, True)
        ctx.equal(key, f'files which are still open: {key}', tables.open_files(scratch.path), [])
        if row > 0:  # If the first row is broken, there is nothing to start from
            if target == 'group':
                with h5py.File(path, 'r') as file:
                    contents(ctx, key, file['here/state_estimates'], data, more, results, WRITERS[w], row, row)
            else:
                contents(ctx, key, path, data, more, results, WRITERS[w], row, row)
        ctx.state(key)
        if ctx.violations:
            return


def reading(case, ctx, tier, scratch):
    """Readers which are stopped early, or fail"""
    _, w, target = case
    data, more, dataset, _ = setup('two', 'memory', scratch, 3)
    path = scratch.new()
    settings = WRITERS[w]
    run_online_estimate(dataset, make('joint rc'), hdf5_output=HDF5Writer(hdf5_output=path, **settings))
    results = good('joint rc', data)
    for tag, default in (('per_timestep', 'mean'), ('per_cycle', 'full')):
        if settings.get(tag, default) == 'none':
            continue
        n = 3 if tag == 'per_timestep' else 2
        key = f'{case} {tag}'
        for stop, how in itertools.product(range(n + 2), ('close', 'delete', 'throw', 'interrupt')):
            with contextlib.ExitStack() as stack:
                where = stack.enter_context(h5py.File(path, 'r'))['state_estimates'] if target == 'group' else path
                it = read_state_estimates(where, per_timestep=tag == 'per_timestep')
                for _ in range(stop):
                    next(it, None)
                if how == 'close':
                    it.close()
                elif how != 'delete':
                    error = Fault('stop') if how == 'throw' else KeyboardInterrupt('stop')
                    try:
                        it.throw(error)
                    except type(error):
                        pass
                    # The error, and so all frames it passed, is kept until after files were looked at
                del it
                if target == 'group':
                    ctx.equal(key, f'whether the file of the caller is still open after {stop} rows: {key}', bool(where), True)
                else:
                    ctx.equal(key, f'files which are still open after {stop} rows and {how}: {key}', tables.open_files(scratch.path), [])
            error = None
            ctx.state(key, stop, how)
            ctx.transition()
        for fail in itertools.count(1):
            failed = False
            calls = Calls(READS, fail)
            got = []
            with contextlib.ExitStack() as stack:
                where = stack.enter_context(h5py.File(path, 'r'))['state_estimates'] if target == 'group' else path
                try:
                    with calls:
                        for row in read_state_estimates(where, per_timestep=tag == 'per_timestep'):
                            got.append(row[0])
                except Fault:
                    failed = True
                if target == 'path':
                    ctx.equal(key, f'files which are still open after a failure of call {fail}: {key}', tables.open_files(scratch.path), [])
            times = [data[i][0] for i in ((0, 1, 2) if n == 3 else (0, 2))]
            ctx.equal(key, f'times read before call {fail} failed: {key}', got, times[:len(got)])
            ctx.state(key, 'call', fail)
            ctx.transition()
            if not failed:
                if calls.n >= fail:
                    ctx.violation(key, f'the failure of call {fail} did not reach the caller: {key}')
                ctx.equal(key, f'times read: {key}', got, times)
                break
        # It can still be read
        contents(ctx, key, path, data, more, results, settings, 3, 3)
        ctx.trace()
    ctx.equal(f'{case}', f'files which are still open: {case}', tables.open_files(scratch.path), [])


def other(case, ctx, tier, scratch):
    """Files which are not as expected"""
    data, more, dataset, _ = setup('two', 'memory', scratch, 3)

    def file(fill):
        path = scratch.new()
        with h5py.File(path, 'w') as f:
            fill(f)
        return path

    def nothing(f):
        pass

    def empty_group(f):
        f.create_group('state_estimates')

    def data_instead(f):
        f['state_estimates'] = np.zeros(3)

    def settings_only(f):
        f.create_group('state_estimates').attrs['write_settings'] = '{"per_timestep": "mean", "per_cycle": "full"}'

    def bad_settings(f):
        f.create_group('state_estimates').attrs['write_settings'] = 'not json'

    def unknown(f):
        f.create_group('state_estimates').attrs['write_settings'] = '{"per_timestep": "later", "per_cycle": "later"}'

    for fill, tag in itertools.product((nothing, empty_group, data_instead, settings_only, bad_settings, unknown), (True, False)):
        path = file(fill)
        key = f'{fill.__name__} {tag}'
        failed = False
        try:
            list(read_state_estimates(path, per_timestep=tag))
        except Exception:
            failed = True
        ctx.equal(key, f'whether reading a file with {key} fails', failed, True)
        ctx.equal(key, f'files which are still open after reading one with {key}', tables.open_files(scratch.path), [])
        ctx.state(key)
        ctx.transition()
    # Places which cannot be written to
    for key_, fill in (('state_estimates', data_instead), ('state_estimates/below', data_instead)):
        path = file(fill)
        failed = False
        writer = HDF5Writer(hdf5_output=path, storage_key=key_)
        try:
            run_online_estimate(dataset, make('joint rc'), hdf5_output=writer)
        except Exception:
            failed = True
        ctx.equal(key_, f'whether writing to {key_} in a file which has data there fails', failed, True)
        ctx.equal(key_, f'files which are still open after writing to {key_} in a file which has data there', tables.open_files(scratch.path), [])
        ctx.equal(key_, f'whether the writer is ready after writing to {key_} failed', writer.is_ready, False)
        with h5py.File(path, 'r') as f:
            ctx.equal(key_, 'what was there before', f['state_estimates'][:].tolist(), [0.] * 3)
        ctx.state('write', key_)
