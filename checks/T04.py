"""Triggers are noticed within 60 seconds, and at once on SIGUSR1."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'triggers-consumed': 400, 'usr1': 100}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"ntrig": [(1, 12)], "hups": 0.1, "p_usr1": 0.4, "p_slow": 0.8, "njobs": [(1, 1), (1, 2)]},
    {"ntrig": [(1, 12)], "hups": 0, "p_usr1": 0.1, "p_sched": 0, "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
    {"ntrig": [(1, 12)], "hups": 0, "p_usr1": 0.4, "p_sched": 0.5, "p_slow": 0.9, "p_limit": 0.5, "durs": [(1, 300.0), (1, 900.0)]},
    {"ntrig": [(1, 12)], "hups": 0.3, "p_usr1": 0.5},
    {"ntrig": [(1, 6)], "hups": 0, "p_usr1": 0.2, "p_slow": 1.0, "spans": [(1, 9000.0)], "njobs": [(1, 2)]},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('T04', prof, quick=240, thorough=4500))
