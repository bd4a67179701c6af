"""A run's return data is recorded with the run."""
import json

import yaml

import gen
import model
import simcheck

RULE = ("one evaluation = one history of the real daemon whose runs leave return data of all shapes (or none) in their run directories; "
        "distinct = different event sequence")
NEED = {"with-json": 700, "with-yaml": 500, "with-both": 150, "without": 400, "falsy": 150}
ASSUMPTIONS = ["return data files are complete when the run ends", "documents that JSON can represent, with string keys"]
QUICK = 240
THOROUGH = 4500
setup = simcheck.prepare

ODD = [None, False, True, 0, 1, "", [], {}, 0.0, -1, 10 ** 25, 1e300, 1.5e-9, "null", "1", [None], {"": ""}, [[[]]], {"return_data": 1},
       {"environment": {"A": "b"}}, "\u2603", "\U0001f389 \ud7ff", "a\nb\n", {"a": {"b": {"c": [1, {"d": None}]}}}, "x" * 5000,
       list(range(300)), {"k%d" % i: i for i in range(200)}, "<script>", "\u0000", "\x1b[1m", {"exit_code": 0, "run_id": "x"}]
YTXT = ["a: 1\nb: [x, y]\n", "- 1\n- two\n- ~\n", "yes\n", "plain text\n", "# only a comment\n", "---\nx: 'q'\n...\n", "a: &x {k: 1}\nb: *x\n",
        "|\n  block\n  text\n", "x: >\n  folded\n  text\n", "{a: 1.5, b: 0x10, c: 0o7}\n", "'quoted'\n", "a: {<<: {b: 1}, c: 2}\n", "\ufeffa: 1\n",
        "%YAML 1.1\n---\na: on\n", "a: \"\\u263a\"\n", "k: 1_000\n", "? a\n: b\n"]


def value(rng):
    return rng.choice(ODD) if rng.random() < 0.5 else gen.data_value(rng)


def j_doc(rng):
    v = value(rng)
    k = rng.randrange(4)
    t = json.dumps(v, ensure_ascii=k < 2, indent=rng.choice([None, None, 2]))
    if k == 3:
        t = rng.choice([" ", "\n\n", "\t"]) + t + rng.choice(["\n", "  ", "\r\n"])
    return t, v


def y_doc(rng):
    if rng.random() < 0.3:
        t = rng.choice(YTXT)
        return t, yaml.safe_load(t)
    while True:
        v = value(rng)
        if isinstance(v, str) and ("\x00" in v or "\x1b" in v):
            continue
        t = yaml.safe_dump(v, allow_unicode=rng.random() < 0.5, default_flow_style=rng.choice([None, True, False]))
        if model.same(yaml.safe_load(t), v):
            return t, v


def case(i, rng, ctx):
    prof = {"spans": [(1, 400.0), (1, 900.0)], "njobs": [(1, 2), (1, 4)], "hups": 0.25, "ntrig": [(1, 3), (1, 10)], "p_slow": 0.0,
            "p_anygroups": 0.2, "durs": [(3, 0.4), (2, 8.0), (1, 70.0)], "p_limit": 0.15, "p_sched": 1.0, "p_concurrent": 0.5}
    scn = gen.scenario(rng, prof)
    for name in scn["behaviour"]:
        out = []
        for b in scn["behaviour"][name] * 4:
            y = dict(b)
            y["status"] = gen.status(rng)
            k = rng.random()
            if k < 0.3:
                t, v = j_doc(rng)
                y["return_data"], y["rd"] = {"return_data.json": t}, (v,)
            elif k < 0.5:
                t, v = y_doc(rng)
                y["return_data"], y["rd"] = {"return_data.yaml": t}, (v,)
            elif k < 0.65:
                t, v = j_doc(rng)
                y["return_data"], y["rd"] = {"return_data.json": t, "return_data.yaml": rng.choice([y_doc(rng)[0], "[", ""])}, (v,)
            elif k < 0.7:
                # an unusable JSON file is not made up for by a YAML one
                y["return_data"], y["rd"] = {"return_data.json": rng.choice(["", "{", " ", "nope", b"\xff"]), "return_data.yaml": y_doc(rng)[0]}, ()
            elif k < 0.74:
                fn, (t, v) = rng.choice([("return_data.json", j_doc(rng)), ("return_data.yaml", y_doc(rng))])
                y["return_data"], y["rd"] = {fn: [t]}, (v,)
            elif k < 0.77:
                # a link to nothing is no return data
                f, rd = {rng.choice(["return_data.json", "return_data.yaml"]): [None]}, ()
                if rng.random() < 0.7:
                    fn, (t, v) = ("return_data.yaml", y_doc(rng)) if "return_data.json" in f else ("return_data.json", j_doc(rng))
                    f[fn], rd = rng.choice([t, [t]]), (v,)
                y["return_data"], y["rd"] = f, rd
            elif k < 0.82:
                y["return_data"], y["rd"] = {rng.choice(["return_data.txt", "return_data", "return_data.yml", "return_data.json.tmp", "return_data.json~", "xreturn_data.json",
                                                         "Return_data.json"]): '{"x": 1}'}, ()
            else:
                y["rd"] = ()
            out.append(y)
        rng.shuffle(out)
        scn["behaviour"][name] = out
    return scn


def run(scn, i, ctx):
    res = simcheck.run_scn(ctx, scn, i)

    def extra(c, scn, res):
        db = {}
        for x in (res.get("db") or {}).get("runs") or ():
            db.setdefault(x["run_id"], []).append(x)
        for r in c.runs:
            if r.failed or r.exit is None or len(db.get(r.id, ())) != 1:
                continue
            y = scn["behaviour"][r.job][r.payload["bi"]]
            x = db[r.id][0]["run_data"]
            try:
                rd = json.loads(x)
                assert isinstance(rd, dict)
            except Exception:
                c.issue("R03", "run-data", "recorded run data is not a JSON object: %r" % x)
                continue
            f = y.get("return_data") or {}
            n = [a for a in f if a in ("return_data.json", "return_data.yaml")]
            c.count("with-both" if len(n) == 2 else "with-json" if n == ["return_data.json"] else "with-yaml" if n else "without")
            if y["rd"]:
                if not y["rd"][0]:
                    c.count("falsy")
                if "return_data" not in rd:
                    c.issue("R03", "missing", "run of %r left %r, nothing was recorded" % (r.job, f))
                elif not model.same(rd["return_data"], y["rd"][0]):
                    c.issue("R03", "differs", "run of %r left %r, recorded %r" % (r.job, f, rd))
            elif "return_data" in rd:
                c.issue("R03", "unexpected", "run of %r left %r, recorded %r" % (r.job, f, rd))

    out = simcheck.judge("R03", scn, res, extra)
    out.pop("other", None)
    if i < 3 and "hist" in res:
        out["sample"] = simcheck.sample(scn, res)
    return out
