"""A trigger replaces the pending run, or adds one for concurrent_runs jobs."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'replacements': 200, 'starts-file': 200}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"ntrig": [(1, 12)], "hups": 0, "p_trigger_time": 0.5, "p_concurrent": 0.1, "p_anygroups": 0},
    {"ntrig": [(1, 15)], "hups": 0, "p_trigger_time": 0.7, "p_concurrent": 0.8},
    {"ntrig": [(1, 12)], "hups": 0.3, "p_slow": 0.4, "p_concurrent": 0.3},
    {"ntrig": [(1, 12)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "p_usr1": 0.8, "njobs": [(1, 2)]},
    {"ntrig": [(1, 15)], "hups": 0, "p_trigger_time": 0.8, "p_concurrent": 0.8, "p_bare": 0.6, "p_twin": 0.7},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('T02', prof, quick=208, thorough=4500))
