"""Reading report pages back: HTML parser, tables, links, times."""
import datetime
import gzip
import html.parser
import os
import re
import urllib.parse
import zoneinfo

VOID = {"meta", "link", "br", "hr", "img", "input"}


class Page(html.parser.HTMLParser):
    """tags: skeleton; tables: [(heading, [(cells, hrefs)])]; pre: texts; title, links."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tags, self.tables, self.pre, self.links, self.text = [], [], [], [], []
        self.title = ""
        self.stack = []
        self.heading = ""
        self.comments = []
        self.feed(text)
        self.close()
        if self.stack:
            raise ValueError("unclosed %r" % self.stack)

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, tuple(a for a, _ in attrs)))
        if tag not in VOID:
            self.stack.append(tag)
        d = dict(attrs)
        if tag in ("h1", "h2", "h3"):
            self.heading = ""
        if tag == "table":
            self.tables.append((self.heading.strip(), []))
        if tag == "tr":
            self.tables[-1][1].append(([], []))
        if tag in ("td", "th"):
            self.tables[-1][1][-1][0].append("")
        if tag == "pre":
            self.pre.append("")
        for a in ("href", "src"):
            if a in d:
                self.links.append((tag, d[a]))
                if tag == "a" and "tr" in self.stack:
                    self.tables[-1][1][-1][1].append(d[a])

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        self.tags.append("/" + tag)
        if not self.stack or self.stack[-1] != tag:
            raise ValueError("unexpected </%s> in %r" % (tag, self.stack))
        self.stack.pop()

    def handle_data(self, data):
        s = self.stack
        if "pre" in s:
            self.pre[-1] += data
        elif "td" in s or "th" in s:
            self.tables[-1][1][-1][0][-1] += data
        elif s and s[-1] in ("h1", "h2", "h3") or len(s) > 1 and s[-2] in ("h1", "h2", "h3"):
            self.heading += data
        elif "title" in s:
            self.title += data
        if data.strip() and "pre" not in s:
            self.text.append(data)

    def handle_comment(self, data):
        self.comments.append(data)

    def handle_decl(self, decl):
        if decl.lower() != "doctype html":
            raise ValueError("declaration %r" % decl)

    def handle_pi(self, data):
        raise ValueError("processing instruction %r" % data)

    def unknown_decl(self, data):
        raise ValueError("declaration %r" % data)

    def table(self, heading):
        for h, rows in self.tables:
            if h.lower() == heading.lower():
                return rows
        raise ValueError("no table under a heading %r (%r)" % (heading, [h for h, _ in self.tables]))

    def fields(self):
        """first cell -> second cell, of the first table"""
        return {c[0]: c[1] for c, _ in self.tables[0][1] if len(c) == 2}


def read(path):
    """Bytes of a page stored plain or gzipped under path; None if there is none."""
    for p, f in ((path, open), (path + ".gz", gzip.open)):
        if os.path.isfile(p):
            with f(p, "rb") as h:
                return h.read()
    return None


def target(base, page, href):
    """The path below base that a browser showing page (path below base) goes to, or None if elsewhere."""
    root = "http://h.example/"
    here = root + urllib.parse.quote(page)
    u = urllib.parse.urlsplit(urllib.parse.urljoin(here, href.strip(" \t\n\r\f")))
    if (u.scheme, u.netloc) != ("http", "h.example") or u.query or u.fragment:
        return None
    return urllib.parse.unquote(u.path)[1:].rstrip("/")


def us(x):
    return round(x * 1000000)


def time_ok(text, t, tz):
    """Whether text shows the time t (epoch), in full or cut to the second, with offset or in local time."""
    text = text.strip()
    try:
        d = datetime.datetime.fromisoformat(text)
    except ValueError:
        return False
    if d.tzinfo is None:
        z = zoneinfo.ZoneInfo(tz)
        for fold in (0, 1):
            if same(d.replace(tzinfo=z, fold=fold), t, "." in text):
                return True
        return False
    return same(d, t, "." in text)


def same(d, t, full):
    got = (d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)
    if full:
        return abs(got - us(t)) <= 2
    return any((us(t) + e) // 1000000 * 1000000 == got for e in (-2, 0, 2))


def duration_ok(text, a, b):
    m = re.match(r"^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{1,6}))?$", text.strip())
    if not m:
        return False
    s = ((int(m.group(1) or 0) * 24 + int(m.group(2))) * 60 + int(m.group(3))) * 60 + int(m.group(4))
    want = us(b) - us(a)
    if m.group(5):
        return abs(s * 1000000 + int(m.group(5).ljust(6, "0")) - want) <= 2
    return any((want + e) // 1000000 == s for e in (-2, 0, 2))
