"""Offline estimation"""
import itertools

import numpy as np
from moirae.estimators.offline.loss import BaseLoss, MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
from moirae.models.base import GeneralContainer, ListParameter, ScalarParameter
from pydantic import create_model
from scipy.optimize import OptimizeResult

from .. import ecm, shapes, tables
from . import c26

LEVEL = 'model_checking'
BOUND = {
    'quick': 'a scripted optimizer which asks for every sequence of up to 2 points (1 for circuits) out of 5 and returns every one of them, whether it asked '
             'for it or not, and converged or not, for a made-up loss (positive, negative or zero at the guess) over 4 shapes of health description, each with every '
             'subset of updatable parameters and 1-2 states, and for the voltage loss of circuits with every subset of 6 kinds of parameters; '
             'estimating 3 times',
    'thorough': 'as quick, sequences of up to 3 (2) points',
}
ASSUMPTIONS = ['the optimizer is driven through the interface of scipy for custom methods']
SHAPES = {
    'scalars': [('b', 'S', 1), ('a', 'S', 1)],
    'lists': [('b', 'L', (1, 2)), ('a', 'S', 1)],
    'nested': [('b', 'S', 1), ('m', 'M', [('l', 'L', (1, 2)), ('x', 'S', 1)])],
    'groups': [('t', 'T', [[('x', 'S', 1)], [('l', 'L', (1, 2))]]), ('d', 'D', {'q': [('x', 'S', 1)]}), ('a', 'S', 1)],
}


def cases(tier):
    for name, shape in SHAPES.items():
        lvs = [n for n, _ in shapes.leaves(shape)]
        for k in range(len(lvs) + 1):
            for sub in itertools.combinations(lvs, k):
                for states in (2, 1):
                    for sign in ('positive', 'negative', 'zero'):
                        yield dict(shape=name, names=list(sub), states=states, sign=sign)
    yield from c26.cases(tier)


class MadeUp(BaseLoss):
    """A loss which is different for every point, and which records where it was evaluated"""

    def __init__(self, sign, asoh, state):
        super().__init__(None, asoh, state, None)
        self.sign = sign
        self.x0 = self.get_x0()
        self.asked = []

    def __call__(self, x):
        self.asked.append(np.array(x).tolist())
        return self.value(x)

    def value(self, x):
        w = 1 + np.arange(x.shape[1])
        out = ((x - self.x0) * w).sum(axis=1) + ((x - self.x0) ** 2 * w[::-1]).sum(axis=1)
        return {'positive': 5. + out, 'negative': -3. + out, 'zero': out}[self.sign]


_states = {}


def states(n):
    """A container with some numbers"""
    if n not in _states:
        fields = {1: {'s': (ScalarParameter, ...)}, 2: {'v': (ListParameter, ...)}}[n]
        _states[n] = create_model(f'States{n}', __base__=GeneralContainer, **fields)
    return _states[n](**{1: {'s': np.array([[.5]])}, 2: {'v': np.array([[.5, -2.]])}}[n])


class Script:
    """An optimizer which asks for given points then returns one"""

    def __init__(self, ask, answer, success, value):
        self.ask, self.answer, self.success, self.value = ask, answer, success, value

    def __call__(self, fun, x0, args=(), **options):
        self.x0 = np.array(x0)
        self.options = options
        self.seen = [fun(np.array(x)) for x in self.ask]
        self.result = OptimizeResult(x=np.array(self.answer), fun=self.value, success=self.success, nit=7, message='scripted')
        return self.result


def explore(case, ctx, tier, loss, value, guess, n_states, names, health, state):
    """Every script, for one loss

    Args:
        value: Function which returns the right loss of a point, or None to not ask for points
        health: Makes the vector of all parameters from an ASOH
    """
    n = len(guess)
    points = [guess, guess + .01 * (1 + np.arange(n)), guess * 1.05 + .001, guess * .9 + .0005, guess * .97 - .0003 * np.arange(n)[::-1]]
    before = ecm.snapshot(loss.state, loss.asoh)
    full = health(loss.asoh)
    deep = value['deep'] + (tier != 'quick')
    scripts = [(ask, a) for k in range(deep + 1) for ask in itertools.product(range(5), repeat=k) for a in range(5)]
    bounds = [(-9., 9.)] * n
    factor = None

    def callback(xk):
        return None
    for ask, a in scripts:
        key = f'{case} {ask} {a}'
        # Whether it claims to have converged, and whether it claims that this is any better
        success, claim = (sum(ask) + a) % 2 == 0, [-1., 3.][(len(ask) + a // 2) % 2]
        probe = Script([points[i] for i in ask], points[a], success, claim)
        tol = [None, 0., 1e-5][(2 * len(ask) + a) % 3]
        est = ScipyMinimizer(loss, method=probe, bounds=bounds, callback=callback, tol=tol, options={'maxiter': 3, 'special': 'yes', 'none': 0})
        for again in range(3 if not ask else 1):
            state_out, asoh_out, diag = est.estimate()
            ctx.transition(1 + len(ask))
            ctx.close(key, 'first point', probe.x0, guess, rtol=1e-12)
            ctx.close(key, 'reported states', state_out.to_numpy(), points[a][None, :n_states], rtol=1e-12)
            want = {nm: v for nm, v in zip(names, points[a][n_states:])}
            if want:
                ctx.close(key, 'reported parameters', asoh_out.get_parameters(), [points[a][n_states:]], rtol=1e-12)
            got = health(asoh_out)
            expect = [(nm, want.get(nm, v)) for nm, v in full]
            ctx.equal(key, 'names of parameters', [g[0] for g in got], [e[0] for e in expect])
            ctx.close(key, 'reported health', [g[1] for g in got], [e[1] for e in expect], rtol=1e-12)
            ctx.equal(key, 'type of results', (type(state_out), type(asoh_out)), (type(loss.state), type(loss.asoh)))
            ctx.close(key, 'point in the diagnostics', diag.x, points[a], rtol=1e-12)
            ctx.equal(key, 'diagnostics', (diag.nit, diag.message, diag.success, diag.fun), (7, 'scripted', success, claim))
            opts = probe.options
            if not (opts.get('maxiter') == 3 and opts.get('special') == 'yes' and opts.get('none', 1) == 0 and opts.get('callback') is not None and opts.get('tol') == tol):
                ctx.violation(key, f'options which reached the optimizer: {sorted(opts)}')
            b = opts.get('bounds')
            b = list(zip(b.lb.tolist(), b.ub.tolist())) if hasattr(b, 'lb') else b  # Depends on the version of scipy
            ctx.equal(key, 'bounds which reached the optimizer', b, bounds)
            for i, f in zip(ask, probe.seen):
                v = float(value['f'](points[i]))
                f = np.asarray(f)
                if f.size != 1:
                    ctx.violation(key, f'objective returned an array of shape {f.shape}')
                    return
                f = f.item()
                if abs(v) < 1e-12:
                    if abs(f) > value['noise'] * max(1, factor or 1):
                        ctx.violation(key, f'objective is {f} where the loss is 0')
                    continue
                if factor is None:
                    factor = f / v
                    if not factor > 0:
                        ctx.violation(key, f'objective {f} is not a positive multiple of the loss {v}')
                ctx.close(key, f'objective of point {i} relative to the loss', f / v, factor, rtol=1e-7)
            ctx.equal(key, 'guesses afterwards', ecm.snapshot(loss.state, loss.asoh), before)
            ctx.state(case, ask, a, again)
            ctx.outcome(points[a])
            # The results are the user's, who may change them
            asoh_out.updatable.clear()
            for _, arr in _arrays(state_out):
                arr += 1.
            for _, arr in _arrays(asoh_out):
                arr += 1.
            ctx.equal(key, 'guesses after changing the results', ecm.snapshot(loss.state, loss.asoh), before)
            if ctx.violations:
                return
        ctx.trace()
    ctx.sample({'case': case, 'points': [list(p) for p in points], 'factor': factor, 'scripts': len(scripts)})


def _arrays(obj):
    for n in type(obj).model_fields:
        v = getattr(obj, n)
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == 'f':
            yield n, v


def run(case, ctx, tier):
    if 'shape' in case:
        shape = SHAPES[case['shape']]
        asoh = shapes.build(shape)
        for n in case['names']:
            asoh.mark_updatable(n)
        state = states(case['states'])
        loss = MadeUp(case['sign'], asoh, state)
        lvs = shapes.leaves(shape)
        guess = state.to_numpy()[0].tolist() + [v for n, rows in lvs if n in case['names'] for v in rows[0]]
        names = [e for n, rows in lvs if n in case['names'] for e in shapes.expand(n, rows)]

        def health(a):
            out = []
            for n, rows in lvs:
                v = a.get_parameters([n])[0]
                out += list(zip(shapes.expand(n, rows), v.tolist()))
            return out
        explore(case, ctx, tier, loss, {'f': lambda x: loss.value(x[None, :])[0], 'deep': 2, 'noise': 1e-9},
                np.array(guess), case['states'], names, health, state)
        return

    m = c26.circuit(case['kind'], case['c0'])
    s = c26.candidates(m, case['names'])[0][1]
    asoh = ecm.build_asoh(m)
    for n in case['names']:
        asoh.mark_updatable(n)
    data = tables.rows((0, 2, 1))
    dataset = tables.dataset(tables.frame(data))
    frame = dataset.raw_data.copy(deep=True)
    loss = MeanSquaredLoss(ecm.EquivalentCircuitModel(case['behavior']), asoh, ecm.build_state(s), dataset)
    guess = np.array(c26.vec(m, s, case['names']))
    n_states = len(c26.ecmref.vector(s))
    every = [n for n in c26.NAMES if case['kind'] != 'plain' or not n.startswith('rc')]

    def label(n):
        k = len(c26.get(m, n))
        return [n] if k == 1 else [f'{n}[{i}]' for i in range(k)]

    def health(a):
        return [(e, v) for n in every for e, v in zip(label(n), a.get_parameters([n])[0].tolist())]

    def value(x):
        it = iter(x.tolist())
        st = {k: next(it) if k == 'soc' else v for k, v in s.items()}
        if s['q0'] is not None:
            st['q0'] = next(it)
        st['irc'] = [next(it) for _ in s['irc']]
        st['hyst'] = next(it)
        mm = c26.ecmref.member(**m)
        for n in case['names']:
            c26.put(mm, n, [next(it) for _ in c26.get(m, n)])
        return c26.mean_loss(mm, st, data, 'given', case['behavior'])[0]
    explore(case, ctx, tier, loss, {'f': value, 'deep': 1, 'noise': 1e-9}, guess, n_states, [e for n in case['names'] for e in label(n)], health, None)
    if not frame.equals(dataset.raw_data):
        ctx.violation(str(case), 'observations changed')
