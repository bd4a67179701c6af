"""A signal at any instant neither breaks the daemon nor corrupts its runs."""
import signal

import gen
import model
import simcheck
import simcore

RULE = ("one evaluation = one history of the real daemon with signals delivered at one chosen point of its execution; "
        "distinct = (code point, signals); code points are function entries, returns from calls and rounds of loops in dsari code")
LEVEL = "fault_enumeration"
NEED = {"hits": 150}
ASSUMPTIONS = ["CPython runs signal handlers at function entries, after calls return and between rounds of a loop",
               "simulated processes, clock and signals behave as the kernel's do"]
BASES = 10
SIGS = [[signal.SIGHUP], [signal.SIGTERM], [signal.SIGINT], [signal.SIGUSR1], [signal.SIGQUIT],
        [signal.SIGHUP], [signal.SIGTERM], [signal.SIGHUP, signal.SIGTERM], [signal.SIGUSR1, signal.SIGHUP],
        [signal.SIGTERM, signal.SIGTERM], [signal.SIGINT, signal.SIGHUP]]
targets = []
bases = []


def base(rng, b):
    """A short, busy history: runs, contention, triggers, limits; a changed configuration lies ready."""
    prof = {"spans": [(1, 150.0)], "njobs": [(1, 2 + b % 3)], "hups": 0, "ntrig": [(1, 5)], "p_usr1": 0.2,
            "p_trigger_time": 0.3, "p_concurrent": 0.3, "p_limit": 0.5, "p_kill": 0.6, "p_kill_grace": 0.7,
            "p_slow": 0.0, "durs": [(1, 1.0), (2, 14.0), (2, 40.0), (1, 90.0)], "p_anygroups": 0.8}
    scn = gen.scenario(rng, prof)
    new = gen.mutate(rng, prof, scn["model"]["c0"], sorted(scn["behaviour"]), set(
        n for n, j in scn["model"]["c0"]["jobs"].items() if j.get("cron") and len(j["cron"].split(" ")) == 5),
        ["UTC"], sorted(scn["model"]["c0"]["groups"]))
    if b % 5 == 4:
        scn["model"]["c1"] = {"broken": True}
        files = {"dsari.json": "{", "dsari.yaml": None}
    else:
        scn["model"]["c1"] = new
        files = gen.files(new)
    scn["events"].insert(0, {"t": 0.5, "op": "config", "cid": "c1", "files": files})
    scn["slack"] = 1500
    return scn


def setup(ctx):
    """Record the points each base history passes through."""
    simcheck.prepare(ctx)
    n = BASES if ctx.quick else BASES * 6
    seen = {}
    for b in range(n):
        scn = base(ctx.rng("base", b), b)
        bases.append(scn)
    recs = simcheck.pmap(ctx, n, lambda b: record(ctx, b))
    for b, res in enumerate(recs):
        if not res or "sites" not in res.get("exit", {}):
            continue
        for k, first, other, cnt in res["exit"]["sites"]["sites"]:
            for at in {first, other}:
                targets.append((b, at, k, seen.get(k, 0)))
            seen[k] = seen.get(k, 0) + 1
    rng = ctx.rng("order")
    rng.shuffle(targets)
    # first every distinct point once, then points again in other histories
    targets.sort(key=lambda x: x[3])


def record(ctx, b):
    scn = dict(bases[b], inject={"repo": ctx.repo})
    res = simcheck.run_scn(ctx, scn, "rec%d" % b)
    res.pop("hist", None)
    return res


def QUICK(ctx):
    return min(len(targets), 420)


def THOROUGH(ctx):
    return len(targets) * 2


def case(i, rng, ctx):
    t = targets[i % len(targets)]
    sigs = SIGS[rng.randrange(len(SIGS))]
    return t[0], t[1], [int(s) for s in sigs], t[2]


def run(item, i, ctx):
    b, at, sigs, site = item
    scn = dict(bases[b], inject={"repo": ctx.repo, "at": at, "sigs": sigs})
    res = simcheck.run_scn(ctx, scn, i)
    out = simcheck.judge("S08", scn, res)
    if out.get("error"):
        return out
    # whatever goes wrong in such a history, having gone right in the one without the signal
    c = model.Checker(scn, res)
    if not any(e["e"] == "injected" for e in res["hist"]):
        out["counts"]["missed"] = 1
        out["nontrivial"] = False
    else:
        out["counts"]["hits"] = 1
        out["fp"] = "%s/%s" % (site, sigs)
        where = [e["where"] for e in res["hist"] if e["e"] == "injected"][0]
        out["violations"] = [
            dict(x, what="signals %s at %s: %s" % (sigs, where, x["what"]))
            for x in out["violations"] + out.pop("other")]
    out.pop("other", None)
    if i < 3:
        out["sample"] = {"site": str(site), "signals": sigs, "history": simcheck.sample(scn, res)["events"]}
    return out
