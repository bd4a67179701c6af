"""A job without concurrent_runs never overlaps itself."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'starts': 500, 'delayed-starts': 50, 'concurrent-overlaps': 20}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"p_concurrent": 0.3, "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "p_limit": 0.1},
    {"p_concurrent": 0.15, "hups": 0.9, "max_hups": 6, "ntrig": [(1, 12)]},
    {"p_concurrent": 0.5, "p_anygroups": 0, "ntrig": [(1, 8)], "p_trigger_time": 0.7},
    {"p_concurrent": 0.1, "p_limit": 0.9, "njobs": [(1, 2), (1, 4)], "ntrig": [(1, 8)], "p_trigger_time": 0.3, "durs": [(2, 100.0), (1, 300.0)]},
    {"p_concurrent": 0.2, "p_sched": 0.4, "ntrig": [(1, 20)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('S01', prof, quick=208, thorough=4500))
