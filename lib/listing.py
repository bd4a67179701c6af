"""Reads the listings of dsari-info back."""
import datetime
import re


def us(text):
    d = datetime.datetime.fromisoformat(text)
    if d.tzinfo is None:
        raise ValueError("time without UTC offset: %r" % text)
    return (d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)


def us_f(x):
    return round(x * 1000000)


def delta(text):
    """Microseconds of a duration as Python prints it."""
    m = re.match(r"^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{6}))?$", text)
    if not m:
        raise ValueError("not a duration: %r" % text)
    return (((int(m.group(1) or 0) * 24 + int(m.group(2))) * 60 + int(m.group(3))) * 60 + int(m.group(4))) * 1000000 + int(m.group(5) or 0)


def near(a, b):
    return abs(a - b) <= 2


def columns(text):
    """Rows of a table as lists of cells."""
    ls = text.split("\n")
    if len(ls) < 3 or ls[-1] != "":
        raise ValueError("not a table: %r" % text[:300])
    widths = [len(x) for x in ls[1].split(" ") if x]
    out = []
    for l in ls[2:-1]:
        cells, p = [], 0
        for k, w in enumerate(widths):
            cells.append(l[p:] if k == 6 else l[p:p + w])
            if k < len(widths) - 1 and l[p + w:p + w + 3].strip():
                raise ValueError("columns do not fit: %r" % l)
            p += w + 3
        out.append(cells)
    heads, p = [], 0
    for w in widths:
        heads.append(ls[0][p:p + w].strip())
        p += w + 3
    return heads, out


def structured(d):
    out = []
    for rid, x in d.items():
        g = {"run_id": rid}
        for f in ("job_name", "exit_code", "trigger_type", "trigger_data", "run_data"):
            g[f] = x[f]
        for f in ("schedule_time", "start_time", "stop_time"):
            g[f] = None if x[f] is None else us(x[f])
        out.append(g)
    return out


def tabular(r):
    out = []
    t = r.text
    if t and not t.endswith("\n"):
        raise ValueError("unfinished line")
    for l in t.split("\n")[:-1]:
        x = l.split("\t")
        if len(x) != 7:
            raise ValueError("fields: %r" % l)
        out.append({"run_id": x[0], "job_name": x[1], "exit_code": int(x[2]) if x[2] else None, "trigger_type": x[3], "schedule_time": us(x[4]),
                    "start_time": us(x[5]), "stop_time": us(x[6]) if x[6] else None})
    return out


def pretty(r):
    h, t = columns(r.text)
    out = []
    for x in t:
        g = {}
        for name, cell in zip(h, x):
            c = cell.rstrip()
            if name == "Run ID":
                g["run_id"] = c
            elif name == "Exit":
                g["exit_code"] = None if not c.isdigit() else int(c)
            elif name == "Job":
                g["job"] = c
            elif name == "Duration":
                g["duration"] = delta(c)
            elif name == "Start Time":
                g["start_time"] = us(c)
            elif name == "Type":
                g["trigger_type"] = c
            elif name == "Schedule Delay":
                g["delay"] = delta(c)
        out.append(g)
    return out


PARSE = {"json": lambda r: structured(r.json()), "yaml": lambda r: structured(r.yaml()), "tabular": tabular, "pretty": pretty}
