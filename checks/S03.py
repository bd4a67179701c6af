"""Every schedule occurrence leads to exactly one run, on time."""
import simcheck

RULE = 'one evaluation = one recorded history of the real daemon (minutes to days of virtual time); distinct = different sequence of process, signal, trigger and configuration events; histories without any start are not counted'
NEED = {'starts-schedule': 1000}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system"]
PROF = [
    {"hups": 0, "ntrig": [(1, 0)], "p_limit": 0, "p_anygroups": 0, "durs": [(3, 0.05), (2, 2.0), (1, 9.0)]},
    {"hups": 0.2, "ntrig": [(1, 0), (1, 2)], "p_tz": 0.8, "p_slow": 0.3},
    {"hups": 0, "ntrig": [(1, 0)], "p_tz": 0.8, "p_slow": 1.0, "p_rrule": 0, "p_limit": 0, "p_anygroups": 0, "spans": [(1, 100000.0), (1, 200000.0)], "njobs": [(1, 4), (1, 6)], "durs": [(3, 0.05), (2, 2.0), (1, 20.0)]},
    {"hups": 0.3, "p_rrule": 0.8, "p_tz": 0.6, "p_concurrent": 0.5},
    {"hups": 0, "p_concurrent": 0.3, "njobs": [(1, 1), (1, 2)], "p_anygroups": 0, "ntrig": [(1, 0)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
    # clocks change while the daemon runs
    {"dst": True, "hups": 0.1, "ntrig": [(1, 0)], "p_tz": 0.3, "p_rrule": 0, "p_limit": 0, "p_anygroups": 0, "spans": [(1, 180000.0), (1, 300000.0)], "njobs": [(1, 2), (1, 4)], "durs": [(3, 0.05), (2, 2.0), (1, 20.0)]},
]


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('S03', prof, quick=160, thorough=4500))
