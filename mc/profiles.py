"""Explores every sequence of steps of the circuit model over alphabets of currents, durations and temperatures"""
from . import ecm, ecmref


def tree(ctx, case, m, start, behavior, first, currents, durations, temps, depth, visit, chain=True):
    """Visit every sequence of steps, depth first

    Args:
        m: Circuit (reference form)
        start: Reference state at the beginning
        first: (time, current, temperature) at the beginning
        visit: Called with (history, model, health, previous state, previous input, new input, new state,
            reference states before and after) after each step
        chain: Whether the reference continues from its own states, and not from the ones of the implementation
    """
    model = ecm.EquivalentCircuitModel(behavior)
    asoh = ecm.build_asoh(m)

    def recurse(hist, state, ref, prev):
        prev_in = ecm.build_input(prev)
        for cur in currents:
            for dt in durations:
                for temp in temps:
                    new = (prev[0] + dt, cur, temp)
                    new_in = ecm.build_input(new)
                    out = model.update_transient_state(prev_in, new_in, state, asoh)
                    want = ecmref.step(m, ref, prev, new, behavior)
                    h = hist + [(cur, dt, temp)]
                    ctx.transition()
                    ctx.state(case, ecm.read_state(out), new[1:])
                    visit(h, model, asoh, state, prev, new, out, ref, want)
                    if ctx.violations:
                        return
                    if len(h) < depth:
                        recurse(h, out, want, new)
                        if ctx.violations:
                            return
                    else:
                        ctx.trace()

    recurse([], ecm.build_state(start), start, first)


def midpoint(prev, new, fraction, behavior, constant_current):
    """Input at a fraction of a step, along its current profile"""
    t = prev[0] + fraction * (new[0] - prev[0])
    if behavior == 'linear':
        i = prev[1] + fraction * (new[1] - prev[1])
    else:
        i = constant_current
    return t, i, prev[2]


def runge_kutta(f, y, t1, n=400):
    """Integrate dy/dt = f(t, y) from 0 to t1"""
    h = t1 / n
    t = 0.
    for _ in range(n):
        k1 = f(t, y)
        k2 = f(t + h / 2, y + h / 2 * k1)
        k3 = f(t + h / 2, y + h / 2 * k2)
        k4 = f(t + h, y + h * k3)
        y += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        t += h
    return y
