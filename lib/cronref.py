"""An independent evaluator of cron schedules with a seconds field (brute force over local time).

Only plain fields: *, a, a-b, */n, a-b/n, a/n is not used, lists of these.  Day rule as in cron: if
both day-of-month and day-of-week are restricted, either may match.
"""
import calendar
import datetime
import zoneinfo

RANGES = ((0, 59), (0, 23), (1, 31), (1, 12), (0, 7), (0, 59))


def parse_field(f, lo, hi):
    out = set()
    for part in f.split(","):
        step = 1
        if "/" in part:
            part, s = part.split("/")
            step = int(s)
        if part == "*":
            a, b = lo, hi
        elif "-" in part:
            a, b = (int(x) for x in part.split("-"))
        else:
            a = b = int(part)
        out.update(range(a, b + 1, step))
    return out


class Cron:
    def __init__(self, expr, tz):
        f = expr.split(" ")
        assert len(f) == 6, expr
        self.expr = expr
        self.tz = zoneinfo.ZoneInfo(tz) if isinstance(tz, str) else tz
        self.m, self.h, self.dom, self.mon, dow, self.s = (
            parse_field(x, *RANGES[i]) for i, x in enumerate(f))
        self.dow = {d % 7 for d in dow}
        self.dom_star = f[2].startswith("*")
        self.dow_star = f[4].startswith("*")
        self.sm, self.sh, self.ss = sorted(self.m), sorted(self.h), sorted(self.s)

    def day_ok(self, d):
        if d.month not in self.mon:
            return False
        a = d.day in self.dom
        b = (d.isoweekday() % 7) in self.dow
        if self.dom_star or self.dow_star:
            return a and b
        return a or b

    def matches(self, epoch):
        """Does the whole second match?"""
        d = datetime.datetime.fromtimestamp(epoch, self.tz)
        return (d.second in self.s and d.minute in self.m and d.hour in self.h
                and self.day_ok(d.date()))

    def next(self, t, inclusive=False, limit_days=366 * 9):
        """Epoch of the first match strictly after t (a float), or None."""
        d0 = datetime.datetime.fromtimestamp(t, self.tz)
        day = d0.date()
        for n in range(limit_days):
            if self.day_ok(day):
                first = n == 0
                for h in self.sh:
                    if first and h < d0.hour:
                        continue
                    for m in self.sm:
                        if first and (h, m) < (d0.hour, d0.minute):
                            continue
                        for s in self.ss:
                            e = datetime.datetime(day.year, day.month, day.day, h, m, s,
                                                  tzinfo=self.tz).timestamp()
                            if e > t or (inclusive and e == t):
                                return int(e)
            day += datetime.timedelta(days=1)
        return None


def utcoffset(tz, t):
    return datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(tz)).utcoffset().total_seconds()


def dst_free(tz, t, before=3 * 86400, after=40 * 86400, step=6 * 3600):
    """No change of the UTC offset in the window around t."""
    z = zoneinfo.ZoneInfo(tz)
    o = None
    x = t - before
    while x <= t + after:
        v = datetime.datetime.fromtimestamp(x, z).utcoffset()
        if o is None:
            o = v
        elif v != o:
            return False
        x += step
    return True
