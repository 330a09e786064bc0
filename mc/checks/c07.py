"""Charge conservation"""
from .. import ecm, ecmref
from ..profiles import midpoint, tree

LEVEL = 'model_checking'
CUR = [0., 1., -1., 2.5, -3.]
DUR = [0., 1., 900.]
BOUND = {
    'quick': f'all step sequences of length 3 over currents {CUR} A and durations {DUR} s (0, 1/64 s and 2 h for the larger capacity), for every combination of current '
             'behaviour, coulombic efficiency {1, 0.9}, series capacitor, unrelated elements, capacity {1, 2.5} Ah; every '
             'step also split at 1/4 and 2/3 of its duration',
    'thorough': f'as quick, length 4, with durations {DUR + [0.125, 60.]}',
}
ASSUMPTIONS = ['a step charges or discharges as a whole, by the sign of its start current (or of its end current if it '
               'starts from rest and current is linear)']


def cases(tier):
    return [dict(behavior=b, ce=ce, c0=c0, decoy=d, qt=qt, first=i0)
            for d in (0, 1) for c0 in (False, True) for b in ('constant', 'linear') for ce in (1., 0.9)
            for qt in (1., 2.5) for i0 in (0., 1., -2.)
            if d or qt == 1. or i0 == 1.]


def circuit(case):
    kw = dict(qt=case['qt'], ce=case['ce'], c0=[1e4] if case['c0'] else None)
    if case['decoy']:
        kw.update(ocv=[3., 3.6, 4.], ent=[0.01, 0.02], r0=[.1, .2], r0_g=.01, h0=[.02, .05], gamma=3.,
                  rc=[dict(r=[.03, .04], g=.02), dict(c=[700., 800.])])
        if case['c0']:
            kw['c0'] = [5e3, 2e4]
    return ecmref.member(**kw)


def run(case, ctx, tier):
    m = circuit(case)
    beh = case['behavior']
    start = ecmref.initial(m, soc=0.3, q0=-7., hyst=0.01 if case['decoy'] else 0., irc=[0.4, -0.2][:len(m['rc'])])
    durations = (DUR if case['qt'] == 1. else [0., .015625, 900. if case['decoy'] else 7200.]) if tier == 'quick' else DUR + [0.125, 60.]

    def visit(h, model, asoh, old, prev, new, out, ref, want):
        key = f'{case} {h}'
        ctx.close(key, f'SOC after {h}', out.soc, [[want['soc']]])
        if case['c0']:
            ctx.close(key, f'stored charge after {h}', out.q0, [[want['q0']]])
        elif out.q0 is not None:
            ctx.violation(key, 'stored charge appeared without a series capacitor')
        ctx.outcome(round(want['soc'], 9), want['q0'])
        if new[0] == prev[0]:
            ctx.close(key, f'SOC after no time in {h}', out.soc, old.soc, rtol=0, atol=1e-15)
        if len(h) < 3 and new[0] > prev[0]:
            if beh == 'linear' and prev[1] * new[1] < 0 and case['ce'] != 1:
                return  # The whole step has the direction of its start
            for f in (0.25, 2 / 3):
                mid = ecm.build_input(midpoint(prev, new, f, beh, prev[1]))
                one = model.update_transient_state(ecm.build_input(prev), mid, old, asoh)
                two = model.update_transient_state(mid, ecm.build_input(new), one, asoh)
                ctx.transition(2)
                ctx.close(key, f'SOC after splitting the last of {h} at {f}', two.soc, out.soc, rtol=1e-9)
                if case['c0']:
                    ctx.close(key, f'stored charge after splitting {h} at {f}', two.q0, out.q0, rtol=1e-9, atol=1e-9)
        if not ctx.samples and len(h) == 2:
            ctx.sample({'case': case, 'steps': h, 'state': out.to_numpy()})

    tree(ctx, case, m, start, beh, (5., case['first'], 30.), CUR, durations, [30.], 3 if tier == 'quick' else 4, visit)
