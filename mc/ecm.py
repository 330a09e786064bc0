"""Builds objects of the code under test from the dictionaries of the reference model"""
import json

import numpy as np

from moirae.models.ecm import ECMASOH, ECMInput, ECMMeasurement, ECMTransientVector, EquivalentCircuitModel  # noqa: F401
from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity,
                                          OpenCircuitVoltage, RCComponent, ReferenceOCV, Resistance)
from . import ecmref

LEAVES = ('qt', 'ce', 'ocv', 'ocv_tref', 'ent', 'r0', 'r0_g', 'c0', 'h0', 'gamma')


def _leaf(members, get, batched):
    """Value of a leaf, with one row per member if it is batched"""
    vals = [get(m) for m in members]
    if batched:
        return np.array([v if isinstance(v, (list, tuple)) else [v] for v in vals], dtype=float)
    assert all(v == vals[0] for v in vals), 'unbatched leaves must agree'
    v = vals[0]
    return np.array([v], dtype=float) if isinstance(v, (list, tuple)) else v


def _pin(p):
    return None if p is None else np.array(p, dtype=float)


def differing(members):
    """Names of the leaves which differ between members"""
    out = [k for k in LEAVES if any(m[k] != members[0][k] for m in members)]
    for i in range(len(members[0]['rc'])):
        for k in ('r', 'g', 'c'):
            if any(m['rc'][i][k] != members[0]['rc'][i][k] for m in members):
                out.append(f'rc{i}.{k}')
    return out


def build_asoh(members, batched=None):
    """Health description for one member or a list of them

    Args:
        members: Member or list of them
        batched: Names of leaves to be batched. Default is those which differ
    """
    if isinstance(members, dict):
        members = [members]
    b = set(differing(members)) if batched is None else set(batched)
    m0 = members[0]

    def leaf(name):
        return _leaf(members, lambda m: m[name], name in b)

    rcs = []
    for i, rc in enumerate(m0['rc']):
        def rleaf(name):
            return _leaf(members, lambda m: m['rc'][i][name], f'rc{i}.{name}' in b)
        rcs.append(RCComponent(
            r=Resistance(base_values=rleaf('r'), soc_pinpoints=_pin(rc['r_pin']), interpolation_style=rc['r_style'],
                         temperature_dependence_factor=rleaf('g'), reference_temperature=rc['tref']),
            c=Capacitance(base_values=rleaf('c'), soc_pinpoints=_pin(rc['c_pin']), interpolation_style=rc['c_style'])))
    return ECMASOH(
        q_t=MaxTheoreticalCapacity(base_values=leaf('qt')), ce=leaf('ce'),
        ocv=OpenCircuitVoltage(
            ocv_ref=ReferenceOCV(base_values=leaf('ocv'), soc_pinpoints=_pin(m0['ocv_pin']),
                                 interpolation_style=m0['ocv_style'], reference_temperature=leaf('ocv_tref')),
            ocv_ent=EntropicOCV(base_values=leaf('ent'), soc_pinpoints=_pin(m0['ent_pin']),
                                interpolation_style=m0['ent_style'])),
        r0=Resistance(base_values=leaf('r0'), soc_pinpoints=_pin(m0['r0_pin']), interpolation_style=m0['r0_style'],
                      temperature_dependence_factor=leaf('r0_g'), reference_temperature=m0['r0_tref']),
        c0=None if m0['c0'] is None else Capacitance(base_values=leaf('c0'), soc_pinpoints=_pin(m0['c0_pin']),
                                                     interpolation_style=m0['c0_style']),
        rc_elements=tuple(rcs),
        h0=HysteresisParameters(base_values=leaf('h0'), soc_pinpoints=_pin(m0['h0_pin']),
                                interpolation_style=m0['h0_style'], gamma=leaf('gamma')))


def build_state(states, batched=None):
    """Transient state for one member or a list of them

    Args:
        states: Reference state or list of them
        batched: Names of the fields (soc, q0, irc, hyst) to be batched. Default is all if there are many
    """
    if isinstance(states, dict):
        states = [states]
    if batched is None:
        batched = ('soc', 'q0', 'irc', 'hyst') if len(states) > 1 else ()

    def field(name):
        vals = [s[name] for s in states]
        if name not in batched:
            assert all(v == vals[0] for v in vals)
            vals = vals[:1]
        return np.array([v if isinstance(v, list) else [v] for v in vals], dtype=float)

    return ECMTransientVector(soc=field('soc'), q0=None if states[0]['q0'] is None else field('q0'),
                              i_rc=field('irc'), hyst=field('hyst'))


def build_input(inp):
    """Input for a (time, current, temperature), any of which can be a list with one value per member"""
    t, i, temp = inp
    conv = (lambda x: np.array(x, dtype=float)[:, None] if isinstance(x, (list, tuple)) else x)
    return ECMInput(time=conv(t), current=conv(i), temperature=None if temp is None else conv(temp))


def read_state(x: ECMTransientVector):
    """Rows of a transient state, one per member, as plain lists"""
    return x.to_numpy().tolist()


def _strip(x):
    """Remove the SOC pinpoints, which are filled in on first use"""
    if isinstance(x, dict):
        return {k: sorted(v) if k == 'updatable' else _strip(v) for k, v in x.items() if k != 'soc_pinpoints'}
    return [_strip(v) for v in x] if isinstance(x, list) else x


def snapshot(*objs):
    """JSON form of objects, used to detect changes"""
    return [_strip(json.loads(o.model_dump_json())) for o in objs]


ref = ecmref
