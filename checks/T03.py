"""Triggered runs start at the requested time, in the requested timezone."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'starts-file': 300}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"ntrig": [(1, 10)], "hups": 0, "p_trigger_time": 0.95, "p_concurrent": 0.7, "p_sched": 0.3, "p_anygroups": 0, "p_limit": 0, "durs": [(1, 0.5), (1, 3.0)]},
    {"ntrig": [(1, 10)], "hups": 0.1, "p_trigger_time": 0.95, "p_concurrent": 0.2, "p_anygroups": 0},
    {"ntrig": [(1, 15)], "hups": 0.1, "p_trigger_time": 0.8, "p_usr1": 0.9},
    {"ntrig": [(1, 15)], "hups": 0, "p_trigger_time": 0.3, "p_concurrent": 1.0, "p_sched": 0},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('T03', prof, quick=240, thorough=4500))
