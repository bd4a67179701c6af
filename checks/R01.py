"""Run history is complete and exact."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'records': 1000, 'records-signalled': 60, 'records-core': 20, 'db-states': 2000}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"hups": 0.2},
    {"hups": 0.3, "p_limit": 0.6, "p_concurrent": 0.5},
    {"ntrig": [(1, 15)], "p_concurrent": 0.5},
    {"hups": 0.8, "durs": [(3, 0.02), (2, 1.0), (1, 40.0), (1, 130.0)], "spans": [(1, 600.0)], "p_kill": 0.8},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('R01', prof, quick=240, thorough=4500))
