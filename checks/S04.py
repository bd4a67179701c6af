"""Blocked runs stay pending and start once the obstacle is gone."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'delayed-starts': 300}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"p_anygroups": 1, "p_groups": 0.9, "njobs": [(1, 3), (2, 5)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "p_concurrent": 0.15, "hups": 0},
    {"p_anygroups": 1, "p_groups": 0.9, "njobs": [(1, 2), (2, 3)], "durs": [(1, 700.0), (1, 1500.0), (1, 35.0)], "p_concurrent": 0.1, "hups": 0.1, "p_limit": 0.05, "spans": [(1, 4000.0), (1, 6000.0)], "ntrig": [(1, 4)]},
    {"p_anygroups": 0, "njobs": [(1, 2)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "p_concurrent": 0, "ntrig": [(1, 6)], "p_trigger_time": 0.8},
    {"p_anygroups": 1, "p_groups": 0.8, "njobs": [(1, 6)], "p_sched": 0.5, "ntrig": [(1, 18)], "p_trigger_time": 0.8},
]
# blocked for hours, with little else going on
LONG = {"p_anygroups": 1, "p_groups": 0.5, "ngroups": (1,), "max_max": 1, "njobs": [(1, 3), (1, 4)], "durs": [(1, 5000.0), (1, 7500.0)], "p_concurrent": 0, "hups": 0,
        "p_limit": 0, "spans": [(1, 15000.0)], "ntrig": [(1, 1)], "p_slow": 0.2, "slack": 20000}


def prof(i, rng, ctx):
    return LONG if i % 9 == 8 else PROF[i % len(PROF)]


globals().update(simcheck.std('S04', prof, quick=180, thorough=4500))
