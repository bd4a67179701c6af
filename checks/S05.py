"""Execution limits: SIGTERM at max_execution, SIGKILL after the grace."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'kills-15': 150, 'kills-9': 40, 'due-signals-15': 100}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"p_limit": 0.95, "hups": 0, "ntrig": [(1, 2)], "durs": [(1, 5.0), (2, 80.0), (2, 200.0), (2, 600.0)]},
    {"p_limit": 0.8, "hups": 0.8, "durs": [(1, 5.0), (2, 80.0), (2, 200.0), (2, 600.0)]},
    {"p_limit": 0.9, "hups": 0, "ntrig": [(1, 2)], "p_concurrent": 0.6, "durs": [(1, 30.0), (2, 60.0), (2, 100.0)]},
    {"p_limit": 0.9, "p_daylong": 6, "hups": 0.2, "njobs": [(1, 2)], "spans": [(1, 4500.0)], "p_slow": 0.7, "durs": [(1, 1500.0), (2, 3500.0)]},
    {"p_limit": 0.7, "p_kill": 0.8, "p_kill_grace": 0.8, "spans": [(1, 300.0), (1, 700.0)], "njobs": [(1, 4)], "durs": [(1, 5.0), (2, 80.0), (2, 200.0)]},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('S05', prof, quick=208, thorough=4500))
