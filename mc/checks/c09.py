"""Hysteresis"""
import math

from .. import ecm, ecmref
from ..profiles import midpoint, runge_kutta, tree

LEVEL = 'model_checking'
CUR = [0., 1., -1., 0.4, -3.]
DUR = [0., 60., 3600.]
BOUND = {
    'quick': f'all step sequences of length 3 over currents {CUR} A (all sign patterns of start and end) and durations {DUR} s (0.01 instead of 60 for rates of 20), '
             'for both current behaviours, efficiency {1, 0.9}, constant or SOC-dependent limits, rates {0, 1e-5, 0.9, 20, 1e6}, '
             'starting hysteresis inside, outside and of either sign; steps split at 1/4 and 2/3; closed form compared with '
             'numerical integration for every single step',
    'thorough': 'as quick, length 4',
}
ASSUMPTIONS = ['a step has the coulombic efficiency of its start direction']


def cases(tier):
    return [dict(behavior=b, ce=ce, h0=h0, gamma=g, hyst=h, first=i0)
            for b in ('constant', 'linear') for ce in (1., .9) for h0 in ([.05], [.02, .06]) for g in (.9, 20., 0., 1e-5, 1e6)
            for h, i0 in ((0., 0.), (.03, 2.), (-.08, -1.))
            if ce == 1. or g == .9]


def run(case, ctx, tier):
    m = ecmref.member(qt=2., ce=case['ce'], ocv=[3., 4.], h0=case['h0'], gamma=case['gamma'], rc=[dict()])
    beh = case['behavior']
    start = ecmref.initial(m, soc=.45, hyst=case['hyst'])

    def visit(h, model, asoh, old, prev, new, out, ref, want):
        key = f'{case} {h}'
        got = out.hyst
        ctx.close(key, f'hysteresis after {h}', got, [[want['hyst']]])
        ctx.outcome(want['hyst'])
        dt = new[0] - prev[0]
        limit = ecmref.value(m, 'h0', ref['soc'])
        before = ref['hyst']
        x = float(got[0, 0])
        if abs(x) > max(abs(before), abs(limit)) + 1e-12:
            ctx.violation(key, f'hysteresis {x} overshoots the limit {limit} from {before} in {h}')
        if dt == 0 or (prev[1] == 0 and (beh == 'constant' or new[1] == 0)):
            ctx.close(key, f'hysteresis without charge in {h}', got, old.hyst, rtol=0, atol=1e-15)
        elif len(h) < 3 and len(case['h0']) == 1 and not (prev[1] * new[1] < 0 and case['ce'] != 1.):
            for f in (.25, 2 / 3):
                mid = ecm.build_input(midpoint(prev, new, f, beh, prev[1]))
                one = model.update_transient_state(ecm.build_input(prev), mid, old, asoh)
                two = model.update_transient_state(mid, ecm.build_input(new), one, asoh)
                ctx.transition(2)
                ctx.close(key, f'hysteresis after splitting the last of {h} at {f}', two.hyst, got)
        if len(h) == 1 and dt > 0 and case['gamma'] < 1e3:  # Too stiff to be integrated like this otherwise
            direction = ecmref.sign(prev[1])
            if beh == 'linear' and direction == 0:
                direction = ecmref.sign(new[1])
            eff = 1. if direction < 0 else case['ce']
            k = eff * case['gamma'] / (3600 * m['qt'])

            def rate(t, y):
                i = prev[1] + (new[1] - prev[1]) * t / dt if beh == 'linear' else prev[1]
                return k * abs(i) * (limit * ecmref.sign(i) - y)
            num = runge_kutta(rate, before, dt, n=1200)
            ctx.close(key, f'hysteresis by integration after {h}', got[0, 0], num, rtol=2e-3, atol=1e-5)
            assert math.isfinite(num)
        if not ctx.samples and len(h) == 2:
            ctx.sample({'case': case, 'steps': h, 'hysteresis': got})

    tree(ctx, case, m, start, beh, (0., case['first'], 25.), CUR, DUR if case['gamma'] != 20. else [0., .01, 3600.], [25.], 3 if tier == 'quick' else 4, visit)
