"""Reload adopts the new configuration without disturbing runs in progress."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'reloads': 150, 'broken-reloads': 15}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"hups": 1, "max_hups": 8, "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
    {"hups": 1, "max_hups": 8, "p_limit": 0.8, "durs": [(1, 20.0), (2, 90.0), (2, 300.0)]},
    {"hups": 1, "max_hups": 8, "ntrig": [(1, 12)]},
    {"hups": 1, "max_hups": 8, "p_anygroups": 1, "p_groups": 0.8, "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('S07', prof, quick=208, thorough=4500))
