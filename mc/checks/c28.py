"""Extractors"""
import itertools
import math
import warnings

import numpy as np
import pandas as pd
from battdat.data import CellDataset
from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity

from .. import ecmref

LEVEL = 'model_checking'
CAPS = [1.25, .5, 3., math.nan]
GRIDS = {'2': 2, '4': 4, '5': 5, '11': 11, 'uneven': [0., .15, .5, .62, 1.], 'inside': [.1, .3, .5, .9], 'three': [0., .4, 1.]}
BOUND = {
    'quick': f'capacity: every table of 1-4 cycles over {CAPS}, tabulated in 4 ways; every time series of 3-5 rows over currents (1, -2, 0) split '
             f'into 1-2 cycles anywhere; refusal: every such table of 1-2 cycles against 3 requirements and 4 capacities; open circuit voltage: 27 '
             f'cubics, {len(GRIDS)} grids, 3 capacities, 4 current profiles, every rotation of the rows by 0-5 and their reverse, full or partial '
             'coverage, SOC computed before or not; curves which are not cubics against a least squares fit of our own',
    'thorough': 'as quick, time series of up to 7 rows, all 64 cubics over a larger alphabet, rotations by 0-11',
}
ASSUMPTIONS = ['capacities of a cycle follow the definition in the documentation of battdat', 'cycles start discharged, as documented']


def cases(tier):
    yield dict(what='tabulated')
    for n in range(3, 6 if tier == 'quick' else 8):
        for first in (1., -2., 0.):
            yield dict(what='series', n=n, first=first)
    yield dict(what='refusal')
    a = [0., .4, -.7] if tier == 'quick' else [0., .4, -.7, 1.3]
    for g in GRIDS:
        for c1 in a:
            yield dict(what='cubic', grid=g, c1=c1, other=a)
        for p in PROFILES:
            yield dict(what='weights', grid=g, profile=p)
        yield dict(what='raw', grid=g)


def unchanged(ctx, key, frame, copy):
    if not frame.equals(copy) or list(frame.columns) != list(copy.columns) or not frame.index.equals(copy.index):
        ctx.violation(key, 'the table was modified')


def extract_capacity(ctx, key, data, want):
    frames = {k: (v, v.copy(deep=True)) for k, v in data.tables.items() if v is not None}
    out = MaxCapacityExtractor().extract(data)
    ctx.transition()
    ctx.close(key, 'capacity', out.base_values, [[want]])
    for k, (f, c) in frames.items():
        if k == 'raw_data' or 'capacity_charge' in c:
            unchanged(ctx, f'{key} {k}', data.tables[k], c)
    ctx.outcome(want)
    ctx.trace()


def tabulated(ctx, case, tier):
    for n in range(1, 5):
        for caps in itertools.product(CAPS, repeat=n):
            if all(math.isnan(c) for c in caps):
                continue
            want = max(c for c in caps if not math.isnan(c))
            ctx.state(caps)
            base = {'cycle_number': list(range(n)), 'capacity_charge': caps, 'capacity_discharge': [9.] * n, 'energy_charge': [11.] * n}
            for way in range(4):
                df = pd.DataFrame(base)
                if way == 1:
                    df = df.set_index(pd.Index(range(n)[::-1]))
                elif way == 2:
                    df = df[['cycle_number', 'capacity_charge']]
                tables = {'cycle_stats': df}
                if way == 3:  # The table takes precedence
                    tables['raw_data'] = series([0., 1., 2.], [0, 0, 0], [40000.] * 3)
                extract_capacity(ctx, f'{caps} {way}', CellDataset(**tables), want)
    ctx.sample({'tabulated': caps})


def series(times, cycles, current):
    return pd.DataFrame({'test_time': times, 'cycle_number': cycles, 'current': current, 'voltage': [3.5] * len(times)})


def capacity_of(times, cycles, current):
    """Charge capacity of each cycle, in A-hr, by the trapezoid rule. A cycle ends with the first row of the next"""
    out = []
    for c in sorted(set(cycles)):
        i0 = cycles.index(c)
        i1 = i0 + cycles.count(c) + 1
        t, i = times[i0:i1], current[i0:i1]
        if len(t) < 3:
            continue
        q, total = [], 0.
        for k in range(1, len(t)):
            total += (i[k] + i[k - 1]) / 2 * (t[k] - t[k - 1]) / 3600
            q.append(total)
        if -min(q) > max(q):
            out.append(q[-1] - min(q))
        else:
            out.append(max(q))
    return out


def time_series(ctx, case, tier):
    n = case['n']
    steps = [600., 3000., 60., 1800., 900., 300., 2400.]
    times = [100. + sum(steps[:k]) for k in range(n)]
    for rest in itertools.product((1., -2., 0.), repeat=n - 1):
        current = [case['first'], *rest]
        for split in range(1, n + 1):
            cycles = [3] * split + [4] * (n - split)
            caps = capacity_of(times, cycles, current)
            if not caps:
                continue
            key = f'{current} {split}'
            ctx.state(n, current, split)
            for stats in (False, True):
                data = CellDataset(raw_data=series(times, cycles, current))
                if stats:
                    data.tables['cycle_stats'] = pd.DataFrame({'cycle_number': sorted(set(cycles)), 'note': 1.})
                extract_capacity(ctx, f'{key} {stats}', data, max(caps))
    ctx.sample({'currents': current, 'capacities': caps})


def refusal(ctx, case, tier):
    raw = series([0., 3600., 7200.], [0, 0, 0], [2.] * 3)
    for requirement in (None, .5, 1.):
        for capacity in (.5, 1., 2., 4.):
            for obj in (False, True):
                cap = MaxTheoreticalCapacity(base_values=capacity) if obj else capacity
                ext = OCVExtractor(cap, **({} if requirement is None else {'soc_requirement': requirement}))
                need = .95 if requirement is None else requirement
                todo = [((1.25,), None), ((.475,), None), ((4.,), CellDataset(raw_data=raw.copy()))]
                todo += [(c, None) for k in (1, 2) for c in itertools.product([.25, .5, .94, .96, 1., 2., 3.99, 4.], repeat=k)]
                for caps, data in todo:
                    key = f'{requirement} {capacity} {obj} {caps} {data is None}'
                    if data is None:
                        data = CellDataset(raw_data=raw.copy(), cycle_stats=pd.DataFrame({'cycle_number': range(len(caps)), 'capacity_charge': caps}))
                    kept = data.tables['raw_data'].copy(deep=True)
                    try:
                        ext.check_data(data)
                        got = True
                    except ValueError:
                        got = False
                    ctx.transition()
                    ctx.trace()
                    ctx.state(key)
                    ctx.outcome(got)
                    ctx.equal(key, 'accepted', got, max(caps) / capacity >= need)
                    unchanged(ctx, key, data.tables['raw_data'], kept)
                data = CellDataset(cycle_stats=pd.DataFrame({'cycle_number': [0], 'capacity_charge': [9.]}))
                try:
                    ext.check_data(data)
                    ctx.violation('no series', 'accepted data without a time series')
                except ValueError:
                    pass


PROFILES = {'constant': lambda k: .5, 'rests': lambda k: [.5, 0., -1.][k % 3], 'ramp': lambda k: .05 * (k + 1), 'mixed': lambda k: [1e-7, -.2, 3., 1e-6, -1e-8][k % 5]}


def cycle(cover, n, capacity, profile, curve, branches=False):
    """A cycle which charges in n uneven steps, and discharges if there are two branches"""
    soc = [cover * (k / (n - 1)) ** 1.2 for k in range(n)]
    cur = [PROFILES[profile](k) for k in range(n)]
    if branches:
        soc = soc + soc[::-1]
        cur = [abs(i) for i in cur] + [-abs(i) * 1.7 for i in cur]
    volts = [curve(s, i, k) for k, (s, i) in enumerate(zip(soc, cur))]
    return pd.DataFrame({'test_time': [10. * k for k in range(len(soc))], 'cycle_number': 0, 'current': cur, 'voltage': volts,
                         'cycle_capacity': [s * capacity for s in soc]})


def orders(df, tier):
    yield 'as is', df
    yield 'reverse', df.iloc[::-1]
    yield 'strided', pd.concat([df.iloc[k::3] for k in range(3)])
    for k in range(1, 6 if tier == 'quick' else 12):
        yield f'rotated {k}', pd.concat([df.iloc[3 * k:], df.iloc[:3 * k]])
    yield 'same labels', df.set_index(pd.Index([5] * len(df)))


def make(grid, capacity, obj=False, **kwargs):
    return OCVExtractor(MaxTheoreticalCapacity(base_values=capacity) if obj else capacity, soc_points=grid, **kwargs)


def points(grid):
    return [k / (grid - 1) for k in range(grid)] if isinstance(grid, int) else list(grid)


def compare(ctx, key, ext, df, pts, want, rtol, style):
    data = CellDataset(raw_data=df)
    kept = df.copy(deep=True)
    for again in range(2):
        out = ext.extract(data)
        ctx.transition()
        ctx.close(key, 'OCV at the points', out.ocv_ref.base_values, [want], rtol=rtol)
        ctx.close(key, 'points', out.ocv_ref.soc_pinpoints, pts)
        ctx.equal(key, 'style', out.ocv_ref.interpolation_style, style)
        xs = np.array([pts[0], .37, .55, pts[-1]])
        if style == 'linear':
            ctx.close(key, 'OCV in between', np.ravel(out(xs)), [ecmref.interp(list(want), list(pts), style, x) for x in xs], rtol=rtol)
        unchanged(ctx, key, data.tables['raw_data'], kept)
        out.ocv_ref.base_values += 1.  # The result is the user's
        out.ocv_ref.soc_pinpoints += 1.
    ctx.trace()
    ctx.outcome(want)


def cubic(ctx, case, tier):
    grid = GRIDS[case['grid']]
    pts = points(grid)
    style = 'cubic' if len(pts) > 3 else 'linear'
    for c2, c3 in itertools.product(case['other'], repeat=2):
        def curve(s, i=0., k=0):
            return 3.2 + case['c1'] * s + c2 * s ** 2 + c3 * s ** 3
        for capacity, obj, profile, cover in [(1., False, 'constant', 1.), (2.5, True, 'rests', 1.), (.3, False, 'ramp', .97), (2.5, False, 'mixed', .97)]:
            df = cycle(cover, 45, capacity, profile, curve, branches=obj)
            for name, rows in orders(df, tier):
                key = f'{case["grid"]} {case["c1"]} {c2} {c3} {capacity} {profile} {name}'
                ctx.state(key)
                for form in ('as is', 'array'):
                    if form == 'array' and (isinstance(grid, int) or name != 'as is'):
                        continue
                    g = np.array(grid) if form == 'array' else grid
                    ext = make(g, capacity, obj) if style == 'cubic' else make(g, capacity, obj, interpolation_style=style)
                    compare(ctx, key, ext, rows, pts, [curve(s) for s in pts], 1e-6, style)
                    if form == 'array':
                        ctx.equal(key, 'grid of the user', g.tolist(), grid)
                    if style == 'cubic' and name == 'as is':
                        out = ext.extract(CellDataset(raw_data=rows))
                        xs = np.array([pts[0], .37, .55, pts[-1]])
                        ctx.close(key, 'OCV in between', np.ravel(out(xs)), [curve(x) for x in xs], rtol=1e-6)
                if ctx.violations:
                    return
    ctx.sample({'case': case, 'points': pts, 'voltages': [curve(s) for s in pts]})


def raw(ctx, case, tier):
    """Time series for which SOC was not computed"""
    grid = GRIDS[case['grid']]
    pts = points(grid)
    for profile, n_cycles, checked, capacity in itertools.product(('constant', 'rests', 'ramp'), (1, 2), (False, True), (1., 2.5)):
        one = [PROFILES[profile](k) for k in range(60)]
        q = [0.]
        for a, b in zip(one, one[1:]):
            q.append(q[-1] + (a + b) / 2)
        if max(q) - min(q) != max(q):  # Not with a profile that discharges below the start
            one = [abs(i) for i in one]
            q = [0.]
            for a, b in zip(one, one[1:]):
                q.append(q[-1] + (a + b) / 2)
        hours = capacity / max(q)  # Such that the charge is complete
        soc = [x / max(q) for x in q]

        def curve(s):
            return 3.2 + .7 * s - .4 * s ** 2 + .2 * s ** 3
        df = pd.DataFrame({'test_time': [3600 * hours * k for k in range(60 * n_cycles)], 'cycle_number': [k // 60 for k in range(60 * n_cycles)],
                           'current': one * n_cycles, 'voltage': [curve(s) for s in soc] * n_cycles})
        style = 'cubic' if len(pts) > 3 else 'linear'
        ext = make(grid, capacity, interpolation_style=style)
        data = CellDataset(raw_data=df)
        kept = df.copy(deep=True)
        key = f'{case} {profile} {n_cycles} {checked} {capacity}'
        ctx.state(key)
        if checked:
            ext.check_data(data)
        for again in range(2):
            out = ext.extract(data)
            ctx.transition()
            ctx.close(key, 'OCV at the points', out.ocv_ref.base_values, [[curve(s) for s in pts]], rtol=1e-6)
            unchanged(ctx, key, data.tables['raw_data'], kept)
        ctx.outcome(profile, capacity, out.ocv_ref.base_values)
        ctx.trace()


def fit(x, y, w, knots, at):
    """Least squares in the truncated power basis"""
    def basis(z):
        z = np.asarray(z, dtype=float)[:, None] - .5
        return np.concatenate([z ** k for k in range(4)] + [np.clip(z + .5 - t, 0, None) ** 3 for t in knots], axis=1)
    w = np.asarray(w)[:, None]
    coef = np.linalg.lstsq(basis(x) * w, np.asarray(y)[:, None] * w, rcond=1e-15)[0]
    return (basis(at) @ coef)[:, 0]


def weights(ctx, case, tier):
    grid = GRIDS[case['grid']]
    pts = points(grid)
    for name, curve in {'step': lambda s, i, k: 3.3 + math.tanh(6 * (s - .4)) * .3 + .05 * i, 'wave': lambda s, i, k: 3.6 + .2 * math.sin(9 * s) - .02 * i,
                        'noise': lambda s, i, k: 3.5 + .1 * s + .07 * ((k * 7) % 5 - 2)}.items():
        for branches in (False, True):
            for capacity in (1., 2.5):
                df = cycle(1., 45, capacity, case['profile'], curve, branches)
                w = 1 / np.maximum(np.abs(df['current'].values), 1e-6)
                want = fit(df['cycle_capacity'].values / capacity, df['voltage'].values, w / w.max(), pts[1:-1], pts)
                for order, rows in orders(df, tier):
                    key = f'{case} {name} {branches} {capacity} {order}'
                    ctx.state(key)
                    compare(ctx, key, make(grid, capacity, interpolation_style='linear'), rows, pts, want, 2e-4, 'linear')
                    if ctx.violations:
                        return
    ctx.sample({'case': case, 'voltages': want})


def run(case, ctx, tier):
    warnings.simplefilter('ignore')
    {'tabulated': tabulated, 'series': time_series, 'refusal': refusal, 'cubic': cubic, 'raw': raw, 'weights': weights}[case['what']](ctx, case, tier)
