"""Textbook Kalman filters, one sigma point at a time"""
import math

import numpy as np


def root(cov):
    """A matrix whose product with its transpose is the covariance. Column order follows a Cholesky factorization"""
    cov = (np.asarray(cov, dtype=float) + np.asarray(cov, dtype=float).T) / 2
    n = len(cov)
    out = np.zeros((n, n))
    scale = max(1e-300, float(np.max(np.abs(cov), initial=0.)))
    for j in range(n):
        d = cov[j, j] - out[j, :j] @ out[j, :j]
        if d <= 1e-15 * scale:  # Singular: the column is zero
            continue
        out[j, j] = math.sqrt(d)
        for i in range(j + 1, n):
            out[i, j] = (cov[i, j] - out[i, :j] @ out[j, :j]) / out[j, j]
    return out


class UKF:
    """Unscented filter with additive noise, of which the noises are part of the state when picking points

    Args:
        f: Function of one state, the previous and the new controls
        h: Function of one state and the new controls
    """

    def __init__(self, f, h, mean, cov, q, r, controls, alpha=1., beta=2., kappa=0.):
        self.f, self.h = f, h
        self.mean, self.cov = np.array(mean, dtype=float), np.array(cov, dtype=float)
        self.q, self.r = np.array(q, dtype=float), np.array(r, dtype=float)
        self.u = list(controls)
        n, m = len(self.mean), len(self.r)
        self.n, self.m, self.size = n, m, 2 * n + m
        self.alpha, self.beta = alpha, beta
        self.kappa = 3 - self.size if kappa == 'automatic' else kappa
        self.predicted = None

    def points(self):
        """Sigma points of the state and noises, with the two weights of each"""
        n, m, size = self.n, self.m, self.size
        c = self.alpha ** 2 * (size + self.kappa)
        big = np.zeros((size, size))
        big[:n, :n], big[n:2 * n, n:2 * n], big[2 * n:, 2 * n:] = self.cov, self.q, self.r
        blocks = np.zeros((size, size))
        for a, b, cov in ((0, n, self.cov), (n, 2 * n, self.q), (2 * n, size, self.r)):
            blocks[a:b, a:b] = root(cov)
        center = np.concatenate([self.mean, np.zeros(n + m)])
        out = [(center, 1 - size / c, 1 - size / c + 1 - self.alpha ** 2 + self.beta)]
        for k in range(size):
            for sign in (1, -1):
                out.append((center + sign * math.sqrt(c) * blocks[:, k], 1 / (2 * c), 1 / (2 * c)))
        return out

    def step(self, controls, measured):
        """Returns: mean and covariance of the predicted output"""
        n = self.n
        pts = self.points()
        xs, ys = [], []
        for p, _, _ in pts:
            x = np.asarray(self.f(p[:n].copy(), self.u, controls), dtype=float) + p[n:2 * n]
            xs.append(x)
            ys.append(np.asarray(self.h(x.copy(), controls), dtype=float) + p[2 * n:])
        xm = sum(w * x for (_, w, _), x in zip(pts, xs))
        ym = sum(w * y for (_, w, _), y in zip(pts, ys))
        px = sum(c * np.outer(x - xm, x - xm) for (_, _, c), x in zip(pts, xs))
        py = sum(c * np.outer(y - ym, y - ym) for (_, _, c), y in zip(pts, ys))
        pxy = sum(c * np.outer(x - xm, y - ym) for (_, _, c), x, y in zip(pts, xs, ys))
        gain = pxy @ np.linalg.inv(py)
        self.mean = xm + gain @ (np.asarray(measured, dtype=float) - ym)
        self.cov = px - gain @ py @ gain.T
        self.u = list(controls)
        self.predicted = (ym, py)
        return ym, py


class Kalman:
    """x' = A x + B0 u + B1 u' + c + noise, y = C x' + D u' + d + noise"""

    def __init__(self, system, mean, cov, q, r, controls):
        self.s = system
        self.mean, self.cov = np.array(mean, dtype=float), np.array(cov, dtype=float)
        self.q, self.r, self.u = np.array(q, dtype=float), np.array(r, dtype=float), np.array(controls, dtype=float)

    def copy(self):
        return Kalman(self.s, self.mean, self.cov, self.q, self.r, self.u)

    def step(self, controls, measured):
        s, u = self.s, np.array(controls, dtype=float)
        x = s['A'] @ self.mean + s['B0'] @ self.u + s['B1'] @ u + s['c']
        p = s['A'] @ self.cov @ s['A'].T + self.q
        y = s['C'] @ x + s['D'] @ u + s['d']
        py = s['C'] @ p @ s['C'].T + self.r
        gain = p @ s['C'].T @ np.linalg.inv(py)
        self.mean = x + gain @ (np.array(measured, dtype=float) - y)
        self.cov = p - gain @ py @ gain.T
        self.u = u
        return y, py
