"""Each well-formed trigger file is consumed once and yields one run."""
import gen
import simcheck

RULE = ('one evaluation = one recorded history of the real daemon (minutes to days of virtual time), or one in which a trigger file is '
        'replaced by another one at a chosen point around the moment the daemon takes it; distinct = different sequence of process, '
        'signal, trigger and configuration events; histories without any start are not counted')
NEED = {'triggers-consumed': 400, 'starts-file': 250, "replaced-files": 15, "put-in-between": 40}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do", "the timezone database of the system",
               "trigger files are put in place by renaming, as a whole"]
PROF = [
    {"ntrig": [(1, 15)], "hups": 0, "p_trigger_time": 0.2},
    {"ntrig": [(1, 20)], "p_sched": 0.3, "p_concurrent": 0.6, "p_trigger_time": 0.5},
    {"ntrig": [(1, 12)], "hups": 0.7},
    {"ntrig": [(1, 25)], "njobs": [(1, 2)], "durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)], "p_usr1": 0.8},
]
RACE = {"ntrig": [(1, 8)], "hups": 0.1, "p_trigger_time": 0.2, "spans": [(1, 400.0)], "njobs": [(1, 2), (1, 3)], "p_bare": 0,
        "durs": [(2, 0.5), (2, 5.0), (1, 40.0)]}


def prof(i, rng, ctx):
    return PROF[i % len(PROF)]


globals().update(simcheck.std('T01', prof, quick=240, thorough=6000))
plain_case, plain_run = case, run  # noqa: F821


def case(i, rng, ctx):
    if i % 3 != 2:
        return plain_case(i, rng, ctx)
    scn = gen.scenario(rng, RACE, "T01")
    scn["race"] = rng.randrange(1 << 30)
    return scn


def run(scn, i, ctx):
    if "race" not in scn:
        return plain_run(scn, i, ctx)
    rng = ctx.rng("race", scn["race"])
    first = simcheck.run_scn(ctx, dict(scn, inject={"repo": ctx.repo}), "%s-rec" % i)
    marks = first.get("exit", {}).get("sites", {}).get("marks") if isinstance(first.get("exit"), dict) else None
    if first.get("harness_error") or marks is None:
        return {"violations": [], "error": first.get("harness_error") or "no record of the points: %r" % first.get("exit")}
    marks = [m for m in marks if m[0] > 0]
    if not marks:
        return {"violations": [], "nontrivial": False}
    n, job, ext, ns = rng.choice(marks)
    back = rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, -1, -2, -5])
    tr, rec = gen.trigger(rng, ns / 1e9, "new", job, RACE, scn["tz"])
    while tr["ext"] != ext:
        tr, rec = gen.trigger(rng, ns / 1e9, "new", job, RACE, scn["tz"])
    tr["wait"] = False
    tr["by"] = "race"
    scn = dict(scn, inject={"repo": ctx.repo, "at": max(1, n - back), "trigger": tr},
               trigger_data=dict(scn["trigger_data"], new=rec))
    res = simcheck.run_scn(ctx, scn, i)
    out = simcheck.judge("T01", scn, res)
    if out.get("error"):
        return out
    for x in out["violations"]:
        where = [e["where"] for e in res["hist"] if e["e"] == "injected"]
        x["what"] = "another trigger for %r put in place at %s: %s" % (job, ", ".join(where), x["what"])
    out["counts"]["replaced-files"] = sum(e["e"] == "overwritten" and e["job"] == job for e in res["hist"])
    out["counts"]["put-in-between"] = sum(e["e"] == "injected" for e in res["hist"])
    out["fp"] += "/%s" % back
    out.pop("other", None)
    return out
