"""Terminal voltage"""
import itertools

from .. import ecm, ecmref

LEVEL = 'model_checking'
SOCS = [0.5, 0., 0.2, 1., -0.1, 1.15]
CURS = [0., 1., -2.]
TEMPS = [None, 25., 40., -5., 0.]
HYST = [0., 0.03, -0.02]
BOUND = {
    'quick': f'every circuit shape (series capacitor, 0-3 or 11 RC elements, dependence of each element on SOC and temperature, '
             f'interpolation style) with every combination of SOC {SOCS}, current {CURS}, temperature {TEMPS}, hysteresis '
             f'{HYST} and two patterns of stored charge and branch currents; two members which differ in every set of {{health, state, input}}',
    'thorough': 'as quick with more values',
}
ASSUMPTIONS = []
PARTS = {
    'ocv': [dict(ocv=[3.5]), dict(ocv=[3., 3.4, 4.]), dict(ocv=[3., 3.4, 4.], ocv_pin=[.1, .3, .8]),
            dict(ocv=[3., 3.4, 4.], ocv_style='previous', ocv_pin=[-.5, .3, .8]),
            dict(ocv=[3., 3.2, 3.7, 4.], ocv_style='cubic')],
    'ent': [dict(), dict(ent=[.01], ocv_tref=20.), dict(ent=[.01, -.03])],
    'r0': [dict(), dict(r0=[.1, .02]), dict(r0=[.1], r0_g=.02), dict(r0=[.1, .3, .02], r0_g=-.01, r0_tref=30.)],
    'c0': [dict(), dict(c0=[1e3]), dict(c0=[1e3, 5e3])],
    'rc': [[], [dict(r=[.02])], [dict(r=[.01, .04], g=.03, tref=10.), dict(r=[.2])],
           [dict(r=[.2]), dict(r=[.01, .04]), dict(r=[.3], g=-.02)],
           [dict(r=[.01 * (k + 1)]) for k in range(11)]],
}
CURRENTS = [1.5, -.5, .25, 2., -.75, .125, 1., -2., .375, 3., -1.25]
OTHERS = [-.5, .125, 2., 1., .75, -3., .25, .5, -1., 1.5, .625]


def cases(tier):
    out = []
    for ocv, ent, r0, c0 in itertools.product(*(range(len(PARTS[k])) for k in ('ocv', 'ent', 'r0', 'c0'))):
        for rc in range(len(PARTS['rc'])):
            if rc < 4 or ocv < 2 and not ent and r0 < 2:
                out.append([ocv, ent, r0, c0, rc])
    out.sort(key=sum)
    return out


def run(case, ctx, tier):
    kw = {}
    for k, i in zip(('ocv', 'ent', 'r0', 'c0'), case[:4]):
        kw.update(PARTS[k][i])
    m = ecmref.member(rc=PARTS['rc'][case[4]], h0=[.02, .07], gamma=1., **kw)
    asoh = ecm.build_asoh(m)
    before_asoh = ecm.snapshot(asoh)
    n = len(m['rc'])
    socs = SOCS if tier == 'quick' else SOCS + [.05, .35, .65, .95]
    curs = CURS if tier == 'quick' else CURS + [.1, 50.]
    for style in ('constant', 'linear'):
        model = ecm.EquivalentCircuitModel(style)
        for soc, cur, temp, hyst, pat in itertools.product(socs, curs, TEMPS, HYST, (0, 1)):
            if style == 'linear' and (pat == 0 or hyst != 0):
                continue
            if tier == 'quick' and hyst and temp not in (None, 40.):
                continue
            irc = [0.] * n if pat == 0 else CURRENTS[:n]
            ref = ecmref.initial(m, soc=soc, q0=[0., 40.][pat], irc=irc, hyst=hyst)
            state, inp = ecm.build_state(ref), ecm.build_input((3., cur, temp))
            out = model.calculate_terminal_voltage(new_inputs=inp, transient_state=state, asoh=asoh)
            ctx.transition()
            key = f'{case} {soc} {cur} {temp} {hyst} {pat}'
            want = ecmref.voltage(m, ref, (3., cur, temp))
            ctx.close(key, f'voltage of {kw}, rc={m["rc"]} at {ref}, current {cur}, temperature {temp}', out.terminal_voltage,
                      [[want]])
            ctx.state(case, ref, cur, temp)
            ctx.outcome(want)
            # Arguments are untouched (apart from SOC pinpoints, which are filled in on first use)
            if pat and cur < 0:
                ctx.equal(key, 'health after evaluation', ecm.snapshot(asoh), before_asoh)
            ctx.close(key, 'state after evaluation', state.to_numpy(), [ecmref.vector(ref)], rtol=0, atol=0)
            ctx.close(key, 'input after evaluation', inp.to_numpy(), [[3., cur] + ([] if temp is None else [temp])], rtol=0,
                      atol=0)
            if pat and cur and hyst == HYST[1]:
                new = ecm.build_input((9., 1., temp))
                args = (inp, new, state, asoh)
                before = ecm.snapshot(*args)
                model.update_transient_state(*args)
                ctx.transition()
                ctx.equal(key, 'arguments after advancing the state', ecm.snapshot(*args), before)
            if ctx.violations:
                return
    batches(case, ctx, m)
    ctx.trace()
    ctx.sample({'circuit': kw, 'rc': m['rc'], 'points': 'all of the alphabet'})


def batches(case, ctx, m):
    """Two members which differ in every set of {health, state, input}: voltages are those of the members, arguments remain untouched"""
    n = len(m['rc'])
    worn = dict(m, r0=[1.5 * r for r in m['r0']], qt=.8 * m['qt'], rc=[dict(rc, r=[1.25 * r for r in rc['r']]) for rc in m['rc']])
    a = ecmref.initial(m, soc=.3, q0=40., irc=CURRENTS[:n], hyst=.03)
    b = ecmref.initial(m, soc=.7, q0=-20., irc=OTHERS[:n], hyst=-.02)
    for style, health, state, inputs in itertools.product(('constant', 'linear'), (0, 1), (0, 1), (0, 1)):
        if not health + state + inputs:
            continue
        model = ecm.EquivalentCircuitModel(style)
        ms, refs = ([m, worn] if health else [m, m]), ([a, b] if state else [a, a])
        ins = [(3., 1., 40.), (4., -2., 10.) if inputs else (3., 1., 40.)]
        later = [(33., 1.5, 30.), (64., -1., 20.) if inputs else (33., 1.5, 30.)]

        def vector(x):
            return ecm.build_input(tuple(list(v) for v in zip(*x)) if inputs else x[0])

        args = (vector(ins), vector(later), ecm.build_state(refs if state else a), ecm.build_asoh(ms if health else m))
        before = ecm.snapshot(*args)
        key = f'{case} {style} {health} {state} {inputs}'
        what = f'two members (health {health}, state {state}, inputs {inputs}) of {m}'
        out = model.calculate_terminal_voltage(new_inputs=args[0], transient_state=args[2], asoh=args[3])
        ctx.transition()
        want = [[ecmref.voltage(x, s, i)] for x, s, i in zip(ms, refs, ins)]
        ctx.close(key, f'voltage of {what}', out.terminal_voltage, want)
        ctx.equal(key, f'arguments of the voltage of {what}', ecm.snapshot(*args), before)
        model.update_transient_state(*args)
        ctx.transition()
        ctx.equal(key, f'arguments of the update of {what}', ecm.snapshot(*args), before)
        ctx.state(case, style, health, state, inputs)
        ctx.outcome(want)
