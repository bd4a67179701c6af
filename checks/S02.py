"""Concurrency group limits are never exceeded and hold back nothing else."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'group-starts': 500, 'group-filled': 50}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"p_anygroups": 1, "p_groups": 0.9, "njobs": [(1, 3), (2, 5), (1, 7)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "p_concurrent": 0.2},
    {"p_anygroups": 1, "p_groups": 0.6, "njobs": [(1, 4), (2, 6)], "hups": 0},
    {"p_anygroups": 1, "p_groups": 0.8, "njobs": [(1, 3), (2, 5)], "hups": 1, "max_hups": 7, "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
    {"p_anygroups": 1, "p_groups": 0.8, "p_concurrent": 0.6, "njobs": [(1, 3), (2, 4)], "ntrig": [(1, 15)]},
    {"p_anygroups": 1, "p_groups": 0.95, "ngroups": (4, 5, 6), "max_groups": 6, "max_max": 1, "p_concurrent": 0.5, "njobs": [(1, 6), (1, 8)],
     "durs": [(2, 75.5), (3, 130.0), (2, 400.0)], "p_limit": 0.05, "hups": 0.1},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('S02', prof, quick=200, thorough=4500))
