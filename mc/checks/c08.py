"""RC relaxation"""
from .. import ecm, ecmref
from ..profiles import midpoint, runge_kutta, tree

LEVEL = 'model_checking'
CUR = [0., 1., -2.]
DUR = [0., 7., 600.]
TEMPS = [25., 45.]
BOUND = {
    'quick': f'all step sequences of length 3 over currents {CUR} A, durations {DUR} s (0.5 instead of 7 for extreme elements), temperatures {TEMPS}, for both current '
             'behaviours, 1-3 RC elements with constant or SOC- and temperature-dependent values, or extreme time constants from 1e-3 to 2e6 s; steps split at 1/4 and 2/3; '
             'each element also alone; closed form compared with numerical integration for every single step',
    'thorough': 'as quick, length 4',
}
ASSUMPTIONS = ['with constant current, branches relax towards the new current, as the existing tests require']
ELEMENTS = {
    'constant': [dict(r=[.01], c=[1000.]), dict(r=[.05], c=[3000.]), dict(r=[.002], c=[400.])],
    'dependent': [dict(r=[.01, .04], g=.02, c=[1000.]), dict(r=[.05], g=-.01, tref=40., c=[3000., 500., 2500.]),
                  dict(r=[.002, .003], r_pin=[.2, .6], c=[400., 900.])],
    'extreme': [dict(r=[.1], c=[1e6]), dict(r=[.001], c=[1.]), dict(r=[.2], c=[1e7])],  # Time constants far from the durations of steps
}


def cases(tier):
    return [dict(behavior=b, kind=k, n=n, first=i0) for n in (1, 2, 3) for k in ELEMENTS for b in ('constant', 'linear')
            for i0 in (0., 1.5, -1.) if n == 2 or i0 == 1.5]


def run(case, ctx, tier):
    elements = ELEMENTS[case['kind']][:case['n']]
    m = ecmref.member(qt=1.5, ce=.95, ocv=[3., 4.], rc=elements, h0=[.05], gamma=1., c0=[1e4])
    beh = case['behavior']
    start = ecmref.initial(m, soc=0.4, irc=[0.5, -0.25, 0.][:case['n']])
    alone = []
    for e in elements:
        mi = ecmref.member(qt=1.5, ce=.95, rc=[e])
        alone.append((mi, ecm.build_asoh(mi)))

    tol = dict(rtol=1e-8, atol=1e-8) if case['kind'] == 'extreme' else {}  # The closed form has round-off for long time constants

    def visit(h, model, asoh, old, prev, new, out, ref, want):
        key = f'{case} {h}'
        ctx.close(key, f'RC currents after {h}', out.i_rc, [want['irc']], **tol)
        ctx.outcome(want['irc'])
        dt = new[0] - prev[0]
        if dt == 0:
            ctx.close(key, f'RC currents after no time in {h}', out.i_rc, old.i_rc, rtol=0, atol=1e-15)
        elif len(h) < 3 and case['kind'] != 'dependent':
            for f in (.25, 2 / 3):
                mid = ecm.build_input(midpoint(prev, new, f, beh, new[1]))
                one = model.update_transient_state(ecm.build_input(prev), mid, old, asoh)
                two = model.update_transient_state(mid, ecm.build_input(new), one, asoh)
                ctx.transition(2)
                ctx.close(key, f'RC currents after splitting the last of {h} at {f}', two.i_rc, out.i_rc, **tol)
        if len(h) == 1:
            for i, (mi, ai) in enumerate(alone):  # Each element as if it were the only one
                s = ecm.build_state(ecmref.initial(mi, soc=ref['soc'], irc=[ref['irc'][i]]))
                x = model.update_transient_state(ecm.build_input(prev), ecm.build_input(new), s, ai)
                ctx.transition()
                ctx.close(key, f'RC current of element {i} alone after {h}', x.i_rc, out.i_rc[:, i:i + 1], **tol)
                rc = m['rc'][i]
                tau = ecmref.rc_r(rc, ref['soc'], prev[2]) * ecmref.rc_c(rc, ref['soc'])
                if 0 < dt < 1000 * tau:
                    shape = (lambda t: prev[1] + (new[1] - prev[1]) * t / dt) if beh == 'linear' else (lambda t: new[1])
                    num = runge_kutta(lambda t, y: (shape(t) - y) / tau, ref['irc'][i], dt, n=2000)
                    ctx.close(key, f'RC current of element {i} by integration after {h}', out.i_rc[0, i], num, rtol=1e-5,
                              atol=1e-6)
        if not ctx.samples and len(h) == 2:
            ctx.sample({'case': case, 'steps': h, 'rc_currents': out.i_rc})

    for t0 in TEMPS:
        tree(ctx, (case, t0), m, start, beh, (0., case['first'], t0), CUR, DUR if case['kind'] != 'extreme' else [0., .5, 600.], TEMPS, 3 if tier == 'quick' else 4, visit)
