"""Distributions"""
import itertools

import numpy as np

from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator, IdentityConversionOperator, LinearConversionOperator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian

from ..core import bfs, inner

LEVEL = 'model_checking'
BOUND = {
    'quick': 'every tuple of up to 4 point or Gaussian distributions of 1 to 3 dimensions, combined in every order and grouping; every history of 3 operations from '
             'combine, convert (5 operators, both directions), assign, and write to an array that was handed out, on a pool of distributions, which may start from zero mean and covariance; '
             'all shapes of mean and covariance up to 3 dimensions of size 0 to 3, on creation and assignment',
    'thorough': 'as quick, histories of 4 operations',
}
ASSUMPTIONS = ['distributions which are combined are of the same type']


def gauss(n, k):
    if k == 9:
        return np.zeros(n), np.zeros((n, n))  # Known to be zero
    mean = np.linspace(-1. - k, 2. + k, n) + .137
    cov = np.diag(np.arange(1., n + 1)) + .3 * (k + 1)
    return mean, cov


def make(kind, mean, cov):
    return DeltaDistribution(mean=mean.copy()) if kind == 'delta' else MultivariateGaussian(mean=mean.copy(), covariance=cov.copy())


def cases(tier):
    out = [['shapes', kind, k] for kind in ('delta', 'gauss') for k in ('create', 'assign')]
    out += [['combine', kind, n] for kind in ('delta', 'gauss') for n in (1, 2, 3)]
    out += [['history', kind, n, k] for kind in ('delta', 'gauss') for n in (1, 2, 3) for k in (0, 1, 2)]
    return out


def run(case, ctx, tier):
    globals()[case[0]](case, ctx, tier)


def check(ctx, key, what, d, kind, mean, cov):
    ok = ctx.equal(key, f'type of {what}', type(d).__name__, 'DeltaDistribution' if kind == 'delta' else 'MultivariateGaussian')
    ok &= ctx.equal(key, f'dimensions of {what}', d.num_dimensions, len(mean))
    ok &= ctx.close(key, f'mean of {what}', d.get_mean(), mean, rtol=1e-9, atol=1e-12)
    ok &= ctx.close(key, f'covariance of {what}', d.get_covariance(), np.zeros((len(mean),) * 2) if kind == 'delta' else cov, rtol=1e-9, atol=1e-12)
    return ok


def blocks(parts):
    mean = np.concatenate([m for m, _ in parts])
    cov = np.zeros((len(mean),) * 2)
    i = 0
    for m, c in parts:
        cov[i:i + len(m), i:i + len(m)] = c
        i += len(m)
    return mean, cov


def combine(case, ctx, tier):
    """All tuples, with each way of grouping them"""
    _, kind, first = case
    for size in (0, 1, 2, 3):
        for dims in itertools.product((1, 2, 3), repeat=size):
            dims = (first,) + dims
            parts = [gauss(n, i) for i, n in enumerate(dims)]
            ds = [make(kind, *p) for p in parts]
            want = blocks(parts)
            key = f'{case} {dims}'
            ctx.state(kind, dims)
            for form in (list, tuple, iter, lambda x: (y for y in x)):
                got = ds[0].combine_with(form(ds[1:]))
                check(ctx, key, f'combination of dimensions {dims}', got, kind, *want)
                ctx.transition()
            got = ds[0]
            for d in ds[1:]:  # From the left
                got = got.combine_with((d,))
            check(ctx, key, f'combination of dimensions {dims} one by one', got, kind, *want)
            for cut in range(1, len(ds)):  # In two groups
                left, right = ds[0].combine_with(ds[1:cut]), ds[cut].combine_with(ds[cut + 1:])
                check(ctx, key, f'combination of dimensions {dims} cut at {cut}', left.combine_with([right]), kind, *want)
                ctx.transition()
            for i, (d, p) in enumerate(zip(ds, parts)):
                check(ctx, key, f'part {i} of the combination of dimensions {dims}', d, kind, *p)
            # Changing the combination does not alter its parts
            got = ds[0].combine_with(ds[1:])
            got.mean[...] = 99.
            if kind == 'gauss':
                got.covariance[...] = 99.
            for i, (d, p) in enumerate(zip(ds, parts)):
                check(ctx, key, f'part {i} of the changed combination of dimensions {dims}', d, kind, *p)
            # The same part twice
            got = ds[0].combine_with([ds[0], ds[-1]])
            check(ctx, key, f'combination of the same part of dimensions {dims}', got, kind, *blocks([parts[0], parts[0], parts[-1]]))
            ctx.outcome(kind, dims, want[0])
            ctx.trace()
            if ctx.violations:
                return


OPS = ['identity', 'scalar', 'vector', 'matrix', 'absolute']


def operator(name, n):
    """Operator, with its function and Jacobian in both directions"""
    if name == 'identity':
        return IdentityConversionOperator(), lambda x: x, lambda x: np.eye(n), lambda x: x, lambda x: np.eye(n)
    if name == 'absolute':
        return AbsoluteValueConversionOperator(), np.abs, lambda x: np.diag(np.where(x >= 0, 1., -1.)), lambda x: x, lambda x: np.eye(n)
    multi = {'scalar': np.array(-2.), 'vector': np.linspace(.5, 3., n), 'matrix': np.triu(np.ones((n, n))) + np.eye(n)}[name]
    off = np.linspace(1.053, -.91, n)
    m = multi * np.eye(n) if multi.ndim == 0 else np.diag(multi) if multi.ndim == 1 else multi
    inv = np.linalg.inv(m)
    return (LinearConversionOperator(multiplicative_array=multi, additive_array=off), lambda x: x @ m + off, lambda x: m, lambda x: (x - off) @ inv,
            lambda x: inv)


def history(case, ctx, tier):
    _, kind, n, which = case

    def build(hist):
        ref = [gauss(n, 9 if which == 2 else 0), gauss(3 - n if n < 3 else 1, 1)]
        pool = [make(kind, *r) for r in ref]
        for op in hist:
            if op[0] == 'combine':
                _, i, j = op
                pool.append(pool[i].combine_with([pool[j]]))
                ref.append(blocks([ref[i], ref[j]]))
            elif op[0] == 'convert':
                _, i, name, inverse = op
                x, c = ref[i]
                o, f, jac, g, back = operator(name, len(x))
                pool.append(pool[i].convert(o, inverse=True) if inverse else pool[i].convert(conversion_operator=o))
                j = (back if inverse else jac)(x)
                ref.append(((g if inverse else f)(x), j.T @ c @ j))
            elif op[0] == 'write':  # To what was handed out
                _, i = op
                for a in (pool[i].get_mean(), pool[i].get_covariance()):
                    a[...] = -77.
            elif op[0] == 'assign':
                _, i = op
                x, c = ref[i]
                new, cov = x + 1, 2 * c + np.eye(len(x))
                pool[i].mean = new
                if kind == 'gauss':
                    pool[i].covariance = cov
                ref[i] = (x + 1, 2 * c + np.eye(len(x)))
            elif op[0] == 'refused':
                _, i = op
                for field, v in (('mean', np.zeros(len(ref[i][0]) + 1)), ('covariance', np.zeros((len(ref[i][0]) + 1,) * 2)),
                                 ('mean', np.zeros((2, 2))), ('covariance', np.zeros(len(ref[i][0])))):
                    if kind == 'delta' and (field == 'covariance' or v.ndim == 1):
                        continue
                    try:
                        setattr(pool[i], field, v)
                    except ValueError:
                        continue
                    ctx.violation(f'{case} {hist}', f'{field} of shape {v.shape} was accepted for {len(ref[i][0])} dimensions')
            elif op[0] == 'change':  # Whatever was made from it, or it was made from, is not affected
                _, i = op
                x, c = ref[i]
                pool[i].mean[0] += 5.
                x = x.copy()
                x[0] += 5.
                if kind == 'gauss':
                    pool[i].covariance[0, 0] += 2.
                    c = c.copy()
                    c[0, 0] += 2.
                ref[i] = (x, c)
        return pool, ref

    def ops(pair):
        pool, ref = pair
        out = []
        last = len(pool) - 1
        for i in sorted({0, last}):
            for j in sorted({0, 1, last}):
                if len(ref[i][0]) + len(ref[j][0]) <= 6:
                    out.append(['combine', i, j])
            out += [['convert', i, name, inverse] for name in (OPS if which else OPS[::2]) for inverse in (False, True)]
            out += [['write', i], ['assign', i], ['refused', i], ['change', i]]
        return out

    def invariant(hist, pair):
        for i, (d, (x, c)) in enumerate(zip(*pair)):
            check(ctx, f'{case} {hist}', f'distribution {i} after {hist}', d, kind, x, c)
        ctx.outcome(pair[1][-1])

    def canon(pair):
        return [(x.tolist(), c.tolist()) for x, c in pair[1]], inner(*pair[0])

    bfs(ctx, [case], ops, build, invariant, canon, 3 if tier == 'quick' else 4)


def shapes(case, ctx, tier):
    """Only a vector of means is accepted, with a square matrix for its covariance"""
    _, kind, how = case
    every = [s for k in (0, 1, 2, 3) for s in itertools.product((0, 1, 2, 3), repeat=k)]
    for mean in every:
        valid = len(mean) == 1 and mean[0] > 0
        if len(mean) == 1 and mean[0] == 0 and kind == 'delta':
            continue  # No dimensions at all
        for cov in ([None] if kind == 'delta' else every):
            good = valid and (cov is None or cov == (mean[0], mean[0]))
            for old in ([None] if how == 'create' else [1, 2, 3]):
                key = f'{case} {mean} {cov} {old}'
                ctx.transition()
                if ctx.state(kind, how, mean, cov, old):
                    ctx.trace()
                if old is None:
                    try:
                        kw = {'mean': np.ones(mean)} if cov is None else {'mean': np.ones(mean), 'covariance': np.ones(cov)}
                        d = (DeltaDistribution if kind == 'delta' else MultivariateGaussian)(**kw)
                    except (ValueError, TypeError):
                        ctx.outcome('refused', kind, mean, cov)
                        if good:
                            ctx.violation(key, f'mean of shape {mean} and covariance of shape {cov} were refused')
                        continue
                    if not good:
                        ctx.violation(key, f'mean of shape {mean} and covariance of shape {cov} were accepted: {d!r}')
                        continue
                    check(ctx, key, f'mean {mean}', d, kind, np.ones(mean), None if cov is None else np.ones(cov))
                    ctx.outcome('accepted', kind, mean, cov)
                    continue
                # Each alone
                first = gauss(old, 0)
                for field, shape in (('mean', mean),) + ((('covariance', cov),) if cov is not None else ()):
                    d = make(kind, *first)
                    fits = (valid and (kind == 'delta' or mean[0] == old)) if field == 'mean' else cov == (old, old)
                    try:
                        setattr(d, field, np.ones(shape))
                    except (ValueError, TypeError):
                        if fits:
                            ctx.violation(key, f'{field} of shape {shape} was refused for {old} dimensions')
                        check(ctx, key, f'distribution which refused a {field} of shape {shape}', d, kind, *first)
                        ctx.outcome('refused', field, shape)
                        continue
                    if not fits:
                        ctx.violation(key, f'{field} of shape {shape} was accepted for {old} dimensions')
                        continue
                    ctx.outcome('accepted', field, shape, old)
                    now = [np.ones(mean) if field == 'mean' else first[0], np.ones(cov) if field == 'covariance' else first[1]]
                    check(ctx, key, f'distribution assigned a {field} of shape {shape}', d, kind, *now)
        if len(ctx.violations) > 15:
            return
