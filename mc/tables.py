"""Battery datasets, and what their rows mean"""
import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from battdat.data import CellDataset

ROWS = [(10., 1., 25., 3.7), (30., -2., 31., 3.3), (5., 0., 40., 3.9), (0., -1., 130., 3.6), (-7., 2., -20., 3.8)]  # Duration, current, temperature, voltage


class Scratch:
    """A folder of our own, removed at the end"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='moirae-check-')
        self.n = 0
        return self

    def new(self, suffix='.h5'):
        self.n += 1
        return os.path.join(self.path, f'{self.n}{suffix}')

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def rows(hist, start=0.):
    """Time, current, temperature and voltage of each row"""
    out, t = [], start
    for k in hist:
        dt, i, temp, v = ROWS[k]
        t += dt
        out.append((t, i, temp, v))
    return out


def frame(data, temps='given', cycles=None, index='default', extra=None, ints=False, order=None):
    """Table with these rows

    Args:
        temps: How the temperature is recorded: given, absent, or which of the rows have none ('nan', 'inf', 'first', 'last')
        cycles: Cycle numbers, or None if there are not any
        index: Labels of the rows
        extra: Other columns
        ints: Whether time and current are integers
    """
    n = len(data)
    df = pd.DataFrame({'test_time': [r[0] for r in data], 'current': [r[1] for r in data], 'voltage': [r[3] for r in data]})
    if ints:
        df['test_time'], df['current'] = df['test_time'].astype(int), df['current'].astype(int)
    if temps != 'absent':
        df['temperature'] = [temperature(r, i, n, temps, None) for i, r in enumerate(data)]
    if cycles is not None:
        df['cycle_number'] = list(cycles)
    if extra == 'number':
        df['step_index'] = np.arange(n)
    elif extra == 'text':
        df['note'] = ['abc'[i % 3] for i in range(n)]
    if index == 'reversed':
        df.index = range(n)[::-1]
    elif index == 'same':
        df.index = [7] * n
    elif index == 'dates':
        df.index = pd.date_range('2020-01-01', periods=n)
    elif index == 'offset':
        df.index = range(100, 100 + n)
    return df


def temperature(row, i, n, temps, default=25.):
    """Temperature in the table. Also: the one to be used if there is a default"""
    missing = {'given': False, 'absent': True, 'nan': True, 'inf': True, 'first': i == 0, 'last': i == n - 1}[temps]
    if not missing:
        return row[2]
    return default if default is not None else {'inf': math.inf}.get(temps, math.nan)


def dataset(df):
    return CellDataset(raw_data=df)


def open_files(folder):
    """Files below a folder which this process has open"""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            continue
        if target.startswith(folder + '/'):
            out.append(target)
    return out
