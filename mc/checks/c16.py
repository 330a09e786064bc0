"""Coordinate conversions"""
import itertools

import numpy as np

from moirae.estimators.online.filters.conversions import (AbsoluteValueConversionOperator, FirstOrderTaylorConversionOperator,
                                                          IdentityConversionOperator, LinearConversionOperator)

LEVEL = 'model_checking'
BOUND = {
    'quick': 'identity; linear with every scalar and vector (1 to 3 entries) over {-2, -1, 0.5, 3}, every integer matrix of shape 1x2, 2x1, 1x3, 3x1, 2x2 in [-1, 2], '
             '2x3, 3x2 in [0, 2], 3x3 in [0, 1] and with each row negated, without and with scalar or vector offsets; absolute value with every '
             'subset of 1 to 4 indices; vectors of 2 or 3 factors between 1e-8 and 1e5; 3 user-defined first-order ones; all points over {-2, -1, 0, 0.5, 3} (up to 125), single and stacked; 6 covariances',
    'thorough': 'as quick, 2x2 in [-2, 3], 3x3, 2x3 and 3x2 in [-1, 1]',
}
ASSUMPTIONS = ['user-defined Jacobians are symmetric, so that either convention of their indices may be used']
VALS = [-2., -1., .5, 3.]
POINTS = [-2., -1., 0., .5, 3.]


def cases(tier):
    out = [['identity', n] for n in (1, 2, 3)] + [['scalar', v] for v in VALS] + [['vector', n] for n in (1, 2, 3)]
    for shape in ((1, 2), (2, 1), (1, 3), (3, 1)):
        out.append(['matrix', *shape, None, [-1, 0, 1, 2]])
    for first in ([-1, 0, 1, 2] if tier == 'quick' else range(-2, 4)):
        out.append(['matrix', 2, 2, first, [-1, 0, 1, 2] if tier == 'quick' else list(range(-2, 4))])
    for shape in ((2, 3), (3, 2), (3, 3)):
        vals = [-1, 0, 1] if tier != 'quick' else ([0, 1] if shape == (3, 3) else [0, 1, 2])
        out += [['matrix', *shape, first, vals] for first in vals]
    out += [['absolute', n] for n in (1, 2, 3, 4)] + [['taylor', k] for k in range(3)] + [['refuse'], ['scales']]
    return out


def points(n):
    return np.array(list(itertools.product(POINTS, repeat=n))) if n <= 3 else np.array(list(itertools.product([-2., 0., .5], repeat=n)))


def covs(n):
    eye, ones = np.eye(n), np.ones((n, n))
    tri = np.tril(ones) * np.arange(1., n + 1)
    return [eye, np.zeros((n, n)), ones, tri @ tri.T, np.diag(np.arange(1., n + 1)), 2 * eye - .5 * (ones - eye)]


def run(case, ctx, tier):
    kind = case[0]
    if kind == 'identity':
        n = case[1]
        laws(ctx, case, IdentityConversionOperator(), points(n), lambda x: x, n, np.eye(n), 'both')
    elif kind == 'scalar':
        v = case[1]
        for n in (1, 2, 3):
            linear(ctx, case + [n], np.array(v), n, v * np.eye(n))
            if v == -2.:
                linear(ctx, case + [n, 'default'], None, n, np.eye(n))
    elif kind == 'vector':
        n = case[1]
        for vec in itertools.product(VALS, repeat=n):
            linear(ctx, case + [list(vec)], np.array(vec), n, np.diag(vec))
    elif kind == 'matrix':
        _, a, b, first, vals = case
        for entries in itertools.product(vals, repeat=a * b - (first is not None)):
            m = np.array(([] if first is None else [first]) + list(entries), dtype=float).reshape(a, b)
            linear(ctx, ['matrix', m.tolist()], m, a, m)
            if (a, b) == (3, 3) and -1 not in vals:
                for row in range(3):
                    neg = m.copy()
                    neg[row] *= -1
                    linear(ctx, ['matrix', neg.tolist()], neg, a, neg, few=True)
    elif kind == 'absolute':
        absolute(ctx, case)
    elif kind == 'taylor':
        taylor(ctx, case)
    elif kind == 'scales':
        scales(ctx)
    else:
        refuse(ctx)


def linear(ctx, what, multi, n, matrix, few=False):
    b = matrix.shape[1]
    rank = np.linalg.matrix_rank(matrix)
    inv = 'both' if rank == n == b else 'forward' if rank == n else 'backward' if rank == b else 'neither'
    offsets = [None, np.array(1.5), np.array([-2.]), np.linspace(-1., 3., b)]
    for off in offsets[3:] if few else offsets:
        kw = {} if off is None else {'additive_array': off.copy()}
        if multi is not None:
            kw['multiplicative_array'] = multi.copy()
        op = LinearConversionOperator(**kw)
        shift = np.zeros(b) if off is None else np.broadcast_to(off, (b,))
        for use in (op, op.model_copy(deep=True)) if off is None else (op,):
            laws(ctx, what + [None if off is None else off.tolist()], use, points(n), lambda x: x @ matrix + shift, n, matrix, inv,
                 lambda y: (y - shift) @ np.linalg.pinv(matrix))


def laws(ctx, what, op, pts, want, n, jac, inv, back=None):
    """Check an operator with a constant Jacobian

    Args:
        want: The function
        jac: How a row vector is multiplied
        inv: Whether the inverse is exact for all original points, all transformed points or both
    """
    key = str(what)
    ctx.state(what)
    given = pts.copy()
    got = op.transform_samples(pts)
    good = want(given)
    if not close(ctx, key, f'points converted by {what}', got, good):
        return
    for p, w in list(zip(given, good))[::max(1, len(given) // 8)]:
        q = p.copy()
        if not close(ctx, key, f'{p.tolist()} converted by {what}', op.transform_samples(q), w):
            return
        if not np.array_equal(q, p):
            ctx.violation(key, f'{what} changed the point it was given')
        y = np.array(w)
        r = op.inverse_transform_samples(y)
        if inv in ('both', 'forward') and not close(ctx, key, f'{p.tolist()} converted by {what} and back', r, p):
            return
        if not close(ctx, key, f'{w.tolist()} converted by {what} back and forth', op.transform_samples(r), w):
            return
        if not np.array_equal(y, w):
            ctx.violation(key, f'{what} changed the point it was given to convert back')
        ctx.transition(2)
    stack = np.array(good)
    res = op.inverse_transform_samples(stack)
    if inv in ('both', 'forward') and not close(ctx, key, f'points converted by {what} and back', res, given):
        return
    if back is not None and inv == 'both' and not close(ctx, key, f'points converted back by {what}', res, back(good)):
        return
    if inv in ('both', 'backward'):
        others = points(good.shape[1])
        if not close(ctx, key, f'points converted back by {what} and forth', op.transform_samples(op.inverse_transform_samples(others.copy())), others):
            return
    if not (np.array_equal(stack, good) and np.array_equal(pts, given)):
        ctx.violation(key, f'{what} changed the stack it was given')
    for c in covs(n):
        d, p = c.copy(), given[-1].copy()
        out = op.transform_covariance(d, p)
        if not close(ctx, key, f'covariance {c.tolist()} converted by {what}', out, jac.T @ c @ jac):
            return
        e = np.array(out)
        again = op.inverse_transform_covariance(e, np.array(good[-1]))
        if inv in ('both', 'forward') and not close(ctx, key, f'covariance {c.tolist()} converted by {what} and back', again, c):
            return
        if not (np.array_equal(c, d) and np.array_equal(e, out) and np.array_equal(p, given[-1])):
            ctx.violation(key, f'{what} changed the covariance or pivot it was given')
        ctx.transition(2)
    if inv in ('both', 'backward') and back is not None:
        b = good.shape[1]
        pinv = np.array([op.inverse_transform_samples(row) - op.inverse_transform_samples(np.zeros(b)) for row in np.eye(b)])
        for c in covs(good.shape[1]):
            if not close(ctx, key, f'covariance {c.tolist()} converted back by {what}', op.inverse_transform_covariance(c.copy(), np.array(good[0])),
                         pinv.T @ c @ pinv):
                return
    ctx.outcome(got, jac)
    ctx.trace()


def close(ctx, key, what, got, want):
    return ctx.close(key, what, got, want, rtol=1e-9, atol=1e-9)


def absolute(ctx, case):
    n = case[1]
    subsets = [None] + [list(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    subsets += [[-1]] + ([[n - 1, 0]] if n > 1 else [])
    for idx in subsets:
        for explicit in (True, False):
            if idx is None:
                op = AbsoluteValueConversionOperator() if explicit else AbsoluteValueConversionOperator(indices=None)
                where = list(range(n))
            else:
                op = AbsoluteValueConversionOperator(indices=list(idx))
                where = [i % n for i in idx]
                if not explicit:
                    op = op.model_copy(deep=True)
            pts = points(n)
            ctx.state(case, idx, explicit)
            given = pts.copy()
            want = given.copy()
            want[:, where] = np.abs(want[:, where])
            key = f'{case} {idx}'
            if not close(ctx, key, f'points converted by absolute value of {idx}', op.transform_samples(pts), want):
                return
            back = op.inverse_transform_samples(want.copy())
            if not close(ctx, key, f'points converted by absolute value of {idx} and back', back, want):
                return
            if not np.array_equal(pts, given):
                ctx.violation(key, 'stack was changed')
            for p, w in zip(given, want):
                q = p.copy()
                ok = close(ctx, key, f'{p.tolist()} converted by absolute value of {idx}', op.transform_samples(q), w)
                ok = ok and close(ctx, key, f'{w.tolist()} converted back by absolute value of {idx}', op.inverse_transform_samples(w.copy()), w)
                sign = np.ones(n)
                sign[where] = np.where(p[where] >= 0, 1., -1.)
                for c in covs(n):
                    d = c.copy()
                    got = op.transform_covariance(d, q)
                    if not (p[where] == 0).any():
                        ok = ok and close(ctx, key, f'covariance {c.tolist()} at {p.tolist()} converted by absolute value of {idx}', got,
                                          c * np.outer(sign, sign))
                    else:  # There is no derivative, but the uncertainty is not lost
                        ok = ok and close(ctx, key, f'covariance {c.tolist()} at {p.tolist()} converted by absolute value of {idx} up to sign',
                                          np.abs(got), np.abs(c))
                    v = w.copy()
                    ok = ok and close(ctx, key, f'covariance {c.tolist()} at {w.tolist()} converted back by absolute value of {idx}',
                                      op.inverse_transform_covariance(d, v), c)
                    if not (np.array_equal(d, c) and np.array_equal(q, p) and np.array_equal(v, w)):
                        ctx.violation(key, f'arguments were changed by absolute value of {idx} at {p.tolist()}')
                        return
                    ctx.transition()
                if not ok:
                    return
                ctx.outcome(idx, w, sign)
            ctx.trace()
    ctx.sample({'case': case, 'subsets': subsets})


class Cube(FirstOrderTaylorConversionOperator):
    """y = x + x^3 / 3 for each coordinate"""

    def get_jacobian(self, pivot):
        return np.diag(1 + pivot ** 2)

    def get_inverse_jacobian(self, transformed_pivot):
        return np.diag(1 / (1 + self.inverse_transform_samples(transformed_pivot) ** 2))

    def transform_samples(self, samples):
        return samples + samples ** 3 / 3

    def inverse_transform_samples(self, transformed_samples):
        x = np.array(transformed_samples, dtype=float) * 0
        for _ in range(200):
            x = x - (x + x ** 3 / 3 - transformed_samples) / (1 + x ** 2)
        return x


class Exp(FirstOrderTaylorConversionOperator):
    def get_jacobian(self, pivot):
        return np.diag(np.exp(pivot))

    def get_inverse_jacobian(self, transformed_pivot):
        return np.diag(1 / transformed_pivot)

    def transform_samples(self, samples):
        return np.exp(samples)

    def inverse_transform_samples(self, transformed_samples):
        return np.log(transformed_samples)


class Radial(FirstOrderTaylorConversionOperator):
    """y = x (1 + |x|^2), of which the Jacobian is symmetric but not diagonal"""

    def get_jacobian(self, pivot):
        return (1 + pivot @ pivot) * np.eye(len(pivot)) + 2 * np.outer(pivot, pivot)

    def get_inverse_jacobian(self, transformed_pivot):
        return np.linalg.inv(self.get_jacobian(self.inverse_transform_samples(transformed_pivot)))

    def transform_samples(self, samples):
        return samples * (1 + (samples ** 2).sum(axis=-1, keepdims=True))

    def inverse_transform_samples(self, transformed_samples):
        r = np.sqrt((transformed_samples ** 2).sum(axis=-1, keepdims=True))
        x = r * 0
        for _ in range(200):
            x = x - (x + x ** 3 - r) / (1 + 3 * x ** 2)
        return transformed_samples * np.where(r == 0, 1., x / np.where(r == 0, 1., r))


def taylor(ctx, case):
    op = [Cube, Exp, Radial][case[1]]()
    for n in (1, 2, 3):
        pts = points(n)
        for p in pts:
            key = f'{case} {p.tolist()}'
            y = op.transform_samples(p)
            ok = close(ctx, key, 'point there and back', op.inverse_transform_samples(y), p)
            # Jacobian from differences
            jac = np.zeros((n, n))
            for i in range(n):
                d = np.zeros(n)
                d[i] = 1e-5
                jac[:, i] = (op.transform_samples(p + d) - op.transform_samples(p - d)) / 2e-5
            inverse = np.linalg.inv(jac)
            for c in covs(n):
                q, z, d = p.copy(), y.copy(), c.copy()
                got = op.transform_covariance(d, q)
                ok = ok and ctx.close(key, f'covariance {c.tolist()} at {p.tolist()}', got, jac @ c @ jac.T, rtol=1e-5, atol=1e-6)
                back = op.inverse_transform_covariance(d, z)
                ok = ok and ctx.close(key, f'covariance {c.tolist()} at {p.tolist()} converted back', back, inverse @ c @ inverse.T, rtol=1e-5, atol=1e-6)
                if not (np.array_equal(q, p) and np.array_equal(z, y) and np.array_equal(d, c)):
                    ctx.violation(key, 'arguments were changed')
                    return
                ctx.transition(2)
            ctx.state(case, p)
            ctx.outcome(y, jac)
            if not ok:
                return
        ctx.trace()


def scales(ctx):
    """Factors of very different magnitude. Each coordinate is converted on its own, so none may lose digits because of another"""
    for n in (2, 3):
        for vec in itertools.product([1e-8, -1e-4, 1., 1e5], repeat=n):
            multi = np.array(vec)
            for form, shift in itertools.product(('vector', 'matrix'), (0., 2.)):
                op = LinearConversionOperator(multiplicative_array=multi.copy() if form == 'vector' else np.diag(multi), additive_array=shift * multi)
                key = f'scales {vec} {form} {shift}'
                ctx.state(key)
                for p in points(n):
                    want = multi * (p + shift)
                    got = op.transform_samples(p.copy())
                    ok = ctx.close(key, f'{p.tolist()} converted by factors {vec}, relative to them', got / multi, p + shift, rtol=1e-9, atol=1e-9)
                    ok = ok and ctx.close(key, f'{p.tolist()} converted by factors {vec} and back', op.inverse_transform_samples(want), p, rtol=1e-9, atol=1e-9)
                    ctx.transition(2)
                    if not ok:
                        return
                for c in covs(n):
                    want = c * np.outer(multi, multi)
                    got = op.transform_covariance(c.copy(), np.zeros(n))
                    ok = ctx.close(key, f'covariance {c.tolist()} converted by factors {vec}, relative to them', got / np.outer(multi, multi), c, rtol=1e-9, atol=1e-9)
                    ok = ok and ctx.close(key, f'covariance {c.tolist()} converted by factors {vec} and back', op.inverse_transform_covariance(want, np.zeros(n)), c,
                                          rtol=1e-9, atol=1e-9)
                    ctx.transition(2)
                    if not ok:
                        return
                ctx.outcome(vec, form)
            ctx.trace()


def refuse(ctx):
    for kw in [{'multiplicative_array': np.ones((1, 1, 1))}, {'multiplicative_array': np.ones((2, 2, 2))}, {'additive_array': np.ones((1, 1))},
               {'additive_array': np.ones((2, 3))}]:
        ctx.transition()
        ctx.state('refuse', str(kw))
        try:
            LinearConversionOperator(**kw)
        except ValueError:
            ctx.outcome('refused', str(kw))
            continue
        ctx.violation(str(kw), f'accepted {kw}')
    ctx.trace()
