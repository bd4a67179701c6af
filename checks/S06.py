"""Shutdown starts nothing new and drains every running run."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'shutdown-with-some-running': 80}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"p_kill": 0.8, "p_kill_grace": 0.7, "spans": [(1, 65.0), (2, 200.0), (1, 400.0)], "njobs": [(1, 3), (1, 5)], "durs": [(1, 30.0), (2, 100.0), (2, 300.0)], "hups": 0.1},
    {"p_kill": 0.2, "spans": [(1, 65.0), (2, 200.0)], "njobs": [(1, 3), (1, 5)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "hups": 0.2},
    {"p_kill": 0.9, "p_kill_grace": 0.9, "p_limit": 0.7, "spans": [(1, 90.0), (2, 200.0)], "njobs": [(1, 3), (1, 5)], "durs": [(1, 80.0), (2, 300.0)], "hups": 0},
    {"p_kill": 0.9, "p_kill_grace": 0.8, "hups": 1, "max_hups": 3, "p_limit": 0.3, "spans": [(1, 120.0), (1, 300.0)], "njobs": [(1, 3), (1, 5)], "durs": [(1, 80.0), (2, 300.0)], "p_hup_down": 0.6},
    {"p_anygroups": 1, "p_groups": 0.9, "spans": [(1, 150.0)], "njobs": [(1, 6)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "ntrig": [(1, 10)]},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('S06', prof, quick=400, thorough=12000))
