"""Emulated database drivers: psycopg2, MySQLdb and pymongo, each on an SQLite file standing in for the server.

Only what the real drivers and servers do is offered, the way they do it (types, time zones, transactions,
row order); anything else raises Unsupported, which a check has to report as "no answer".

The configured connection settings name the file: PostgreSQL "host=<dir>", MySQL unix_socket=<dir>/...,
MongoDB "...?appname=<dir>".
"""
import contextlib
import datetime
import json
import os
import pickle
import re
import sqlite3
import sys
import types
import uuid
import zoneinfo

import simcore

FILE = "dsari.sqlite3"
TZ = "UTC"  # TimeZone setting of the PostgreSQL server
UTC = datetime.timezone.utc


class Unsupported(Exception):
    """The emulation cannot say what would happen."""


def unsupported(d, what):
    with contextlib.suppress(OSError):
        fd = os.open(os.path.join(d, "emu-unsupported"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.write(fd, (what + "\n").encode("utf-8", "replace"))
        os.close(fd)
    raise Unsupported(what)


class Error(Exception):
    pass


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class DataError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class InternalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class NotSupportedError(DatabaseError):
    pass


ERRORS = {c.__name__: c for c in (Error, InterfaceError, DatabaseError, DataError, OperationalError, IntegrityError, InternalError,
                                  ProgrammingError, NotSupportedError)}


def server_file(d):
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, FILE)


# ---------------------------------------------------------------------------------------------
# SQL
class Json:
    def __init__(self, adapted, dumps=None):
        self.adapted, self.dumps = adapted, dumps or json.dumps


class DictRow(list):
    """psycopg2.extras.DictRow"""

    def __init__(self, names, vals):
        super().__init__(vals)
        self._index = {n: i for i, n in enumerate(names)}

    def __getitem__(self, x):
        if not isinstance(x, (int, slice)):
            x = self._index[x]
        return super().__getitem__(x)

    def get(self, x, default=None):
        try:
            return self[x]
        except Exception:
            return default

    def keys(self):
        return iter(self._index)

    def values(self):
        return iter(list(self))

    def items(self):
        return ((n, self[i]) for n, i in self._index.items())

    def copy(self):
        return dict(self.items())

    def __contains__(self, x):
        return x in self._index


class Conn:
    """A connection and its session."""

    kind = None
    Error, InterfaceError, DataError, OperationalError = Error, InterfaceError, DataError, OperationalError
    IntegrityError, ProgrammingError, DatabaseError = IntegrityError, ProgrammingError, DatabaseError
    serial = 0

    def __init__(self, d, factory):
        Conn.serial += 1
        self.d = d
        self.cursor_factory = factory
        self._c = sqlite3.connect(server_file(d), timeout=10, isolation_level=None, check_same_thread=False)
        self._c.execute("PRAGMA journal_mode=WAL").fetchall()
        self._c.execute("PRAGMA synchronous=OFF")
        self._c.execute("CREATE TABLE IF NOT EXISTS emu_meta (tbl, col, type, nn)")
        for n in ("current_database", "database", "current_catalog"):
            self._c.create_function(n, 0, lambda: "dsari")
        for n in ("current_schema", "schema"):
            self._c.create_function(n, 0, lambda: "public" if self.kind == "pg" else "dsari")
        self._tx = False
        self._wrote = self._wrote_now = False
        self._auto = False
        self._failed = False
        self._closed = False
        self._pid = os.getpid()
        self._id = "%d-%d" % (self._pid, Conn.serial)
        self.tz = zoneinfo.ZoneInfo(TZ)
        self.encoding = "UTF8"

    # -- session
    def _alive(self):
        if os.getpid() != self._pid:
            # another process talks on the session's socket
            with open(os.path.join(self.d, "session-" + self._id), "w"):
                pass
            raise OperationalError("SSL error or protocol violation: connection used in a child process")
        if self._closed:
            raise InterfaceError("connection already closed")
        if os.path.exists(os.path.join(self.d, "session-" + self._id)):
            raise OperationalError("server closed the connection unexpectedly" if self.kind == "pg" else
                                   "(2006, 'MySQL server has gone away')")

    def cursor(self, *a, **k):
        self._alive()
        f = k.pop("cursor_factory", None) or k.pop("cursorclass", None) or (a[0] if a and isinstance(a[0], type) else None) or self.cursor_factory
        if k or a and not isinstance(a[0], type):
            unsupported(self.d, "cursor(%r, %r)" % (a, k))
        return f(self)

    def _end(self, how):
        if self._tx:
            if how == "COMMIT":
                self._c.execute("COMMIT")
            else:
                self._c.execute("ROLLBACK")
        self._tx = self._wrote = self._failed = False

    def commit(self):
        self._alive()
        self._end("ROLLBACK" if self._failed else "COMMIT")

    def rollback(self):
        self._alive()
        self._end("ROLLBACK")

    def close(self):
        if os.getpid() != self._pid:
            # says goodbye to the server on the socket shared with the parent
            with open(os.path.join(self.d, "session-" + self._id), "w"):
                pass
            return
        if self._closed:
            if self.kind == "my":
                raise ProgrammingError("closing a closed connection")
            return
        self._closed = True
        if self._tx:
            self._c.execute("ROLLBACK")
        self._c.close()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        unsupported(self.d, "connection attribute %s" % n)

    # -- statements
    def _run(self, sql, params):
        self._alive()
        if self._failed:
            raise InternalError("current transaction is aborted, commands ignored until end of transaction block")
        try:
            r = self._run2(sql, params)
        except Unsupported:
            raise
        except Error:
            if self.kind == "pg" and not self._auto:
                self._failed = True
            raise
        if self._auto and self._tx:
            self._end("COMMIT")
        return r

    def _tables(self):
        return {(t, c): (ty, nn) for t, c, ty, nn in self._c.execute("SELECT tbl, col, type, nn FROM emu_meta").fetchall()}

    def _run2(self, sql, params):
        sql, vals = self._interpolate(sql, params)
        s = re.sub(r"\s+", " ", re.sub(r"--[^\n]*|/\*.*?\*/", " ", sql, flags=re.S)).strip().rstrip(";").strip()
        if re.search(r"\bin ?\( ?\)", s, re.I):
            raise ProgrammingError('syntax error at or near ")"')
        if re.search(r"\bin ?\? ", s + " ", re.I):
            raise ProgrammingError("syntax error")
        s = s.replace("`", '"') if self.kind == "my" else s
        verb = s.split(" ")[0].upper()
        if verb == "SET" or verb == "SHOW":
            return self._set(s, vals)
        if verb in ("BEGIN", "START"):
            return [], []
        if verb in ("COMMIT", "ROLLBACK"):
            self._end(verb)
            return [], []
        if verb == "CREATE":
            return self._create(s)
        if verb in ("INSERT", "REPLACE"):
            return self._insert(s, vals)
        if verb in ("DELETE", "TRUNCATE"):
            if verb == "TRUNCATE":
                s = re.sub(r"(?i)^truncate (table )?", "DELETE FROM ", s)
            return self._write(s, [self._literal(v) for v in vals])
        if verb == "SELECT":
            return self._select(s, [self._literal(v) for v in vals])
        unsupported(self.d, "statement %r" % s)

    def _interpolate(self, sql, params):
        if params is None:
            return sql, []
        if not isinstance(params, (list, tuple, dict)):
            if self.kind == "my" and isinstance(params, (str, int, float)):
                params = (params,)
            elif hasattr(params, "__getitem__") and hasattr(params, "__len__") and not isinstance(params, (str, bytes)):
                params = list(params)
            else:
                raise TypeError("argument 2 must be a sequence or mapping, not %s" % type(params).__name__)
        out, vals = [], []

        def put(v):
            if isinstance(v, tuple) or self.kind == "my" and isinstance(v, list):
                out.append("(" + ",".join("?" * len(v)) + ")")
                vals.extend(v)
            else:
                out.append("?")
                vals.append(v)

        k = pos = 0
        for m in re.finditer(r"%(%|s|\((\w+)\)s)?", sql):
            out.append(sql[pos:m.start()])
            pos = m.end()
            if m.group(1) == "%":
                out.append("%")
            elif m.group(1) == "s":
                if isinstance(params, dict):
                    raise TypeError("dict is not a sequence")
                if k >= len(params):
                    raise (IndexError("tuple index out of range") if self.kind == "pg" else ProgrammingError("not enough arguments for format string"))
                put(params[k])
                k += 1
            elif m.group(1):
                put(params[m.group(2)])
            else:
                raise (ValueError("unsupported format character") if self.kind == "pg" else ProgrammingError("unsupported format character"))
        out.append(sql[pos:])
        if not isinstance(params, dict) and k != len(params):
            raise (TypeError if self.kind == "pg" else ProgrammingError)("not all arguments converted during string formatting")
        if "?" in re.sub(r"'[^']*'", "", sql):
            raise ProgrammingError("syntax error at or near \"?\"")
        return "".join(out), vals

    def _adapt(self, v):
        """What the driver can send at all."""
        if v is None or isinstance(v, (bool, int, float, str)):
            if isinstance(v, str):
                v.encode("utf-8")
                if "\0" in v and self.kind == "pg":
                    raise ValueError("A string literal cannot contain NUL (0x00) characters.")
            return v
        if isinstance(v, datetime.datetime):
            return v
        if isinstance(v, Json) and self.kind == "pg":
            return v
        if self.kind == "pg":
            raise ProgrammingError("can't adapt type %r" % type(v).__name__)
        if isinstance(v, dict):
            raise TypeError("dict can not be used as parameter")
        unsupported(self.d, "parameter %r" % (v,))

    def _naive(self, v):
        """The wall clock time stored for a datetime."""
        if v.tzinfo is not None:
            v = v.astimezone(self.tz) if self.kind == "pg" else v
        return "\x01ts:" + v.replace(tzinfo=None).isoformat(" ", "microseconds")

    def _literal(self, v):
        v = self._adapt(v)
        if isinstance(v, datetime.datetime):
            if any(t.startswith("timestamp with time zone") for t, _ in self._tables().values()):
                unsupported(self.d, "comparison with a time zone column")
            return self._naive(v)
        if isinstance(v, Json):
            unsupported(self.d, "comparison with JSON")
        return v

    def _exec(self, s, vals):
        try:
            return self._c.execute(s, vals)
        except sqlite3.IntegrityError as e:
            raise IntegrityError(str(e))
        except sqlite3.OperationalError as e:
            m = str(e)
            if "no such table" in m or "no such column" in m or "syntax error" in m and not re.search(r"::|\bON CONFLICT\b|~|\bany\b", s, re.I):
                raise ProgrammingError(m)
            if "locked" in m and self._tx and not self._wrote_now:
                raise
            unsupported(self.d, "%s in %r" % (m, s))

    def _write(self, s, vals):
        self._wrote_now = self._wrote
        if not self._tx or not self._wrote:
            self._begin(True)
        try:
            c = self._exec(s, vals)
        except sqlite3.OperationalError:
            # others have written since this transaction first read; the servers write nevertheless
            self._c.execute("COMMIT")
            self._tx = False
            self._begin(True)
            c = self._exec(s, vals)
        return [], [], c.rowcount

    def _begin(self, write):
        try:
            if not self._tx:
                self._c.execute("BEGIN IMMEDIATE" if write else "BEGIN")
                self._tx = True
        except sqlite3.OperationalError as e:
            unsupported(self.d, "lock wait: %s" % e)
        self._wrote = self._wrote or write

    def _schema_query(self, s):
        s = re.sub(r'(?i)\b"?information_schema"?\."?tables"?', "(SELECT 'dsari' AS table_catalog, '%s' AS table_schema, name AS table_name, "
                   "'BASE TABLE' AS table_type FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'emu_%%' AND name NOT LIKE 'sqlite_%%')" % (
                       "public" if self.kind == "pg" else "dsari"), s)
        s = re.sub(r'(?i)\b"?information_schema"?\."?columns"?', "(SELECT 'dsari' AS table_catalog, '%s' AS table_schema, tbl AS table_name, "
                   "col AS column_name, type AS data_type FROM emu_meta)" % ("public" if self.kind == "pg" else "dsari"), s)
        if self.kind == "pg":
            s = re.sub(r"\bpg_tables\b|\bpg_catalog\.pg_tables\b", "(SELECT 'public' AS schemaname, name AS tablename FROM sqlite_master "
                       "WHERE type = 'table' AND name NOT LIKE 'emu_%')", s)
            s = re.sub(r"\b(run_id|job_name|\?) ?:: ?(text|varchar|uuid)\b", r"\1", s)
        return s

    def _select(self, s, vals):
        s0 = s
        s = self._schema_query(s)
        if self.kind == "pg":
            self._check_uuid(s, vals)
        if self.kind == "my":
            s = re.sub(r"(?i)\bbinary (job_name|\?)", r"\1 COLLATE BINARY", s)
            # the first consistent read makes the snapshot; the information schema is not read that way
            if not self._tx and not re.search(r"(?i)information_schema", s0):
                self._begin(False)
        c = self._exec(s, vals)
        rows = c.fetchall()
        return [x[0] for x in c.description], [tuple(self._decode(v) for v in r) for r in rows], len(rows)

    def _check_uuid(self, s, vals):
        # run_id = ? or run_id in (?, ...): the text is read as an UUID
        if not any(c == "run_id" and t == "uuid" for (_, c), (t, _) in self._tables().items()):
            return
        if "run_id::" in s.replace(" ", ""):
            return
        for m in re.finditer(r'(?i)"?\brun_id"? ?(=|<>|!=|\bnot in|\bin) ?(\(?[?, ]+\)?)', s):
            k = s[:m.start(2)].count("?")
            for j in range(m.group(2).count("?")):
                v = vals[k + j]
                if isinstance(v, str):
                    try:
                        vals[k + j] = pg_uuid(v)
                    except ValueError:
                        raise DataError('invalid input syntax for type uuid: "%s"' % v)

    def _decode(self, v):
        if isinstance(v, str) and v[:1] == "\x01":
            k, t = v[1:3], v[4:]
            if k == "ts":
                return datetime.datetime.fromisoformat(t)
            if k == "tz":
                return datetime.datetime.fromisoformat(t).replace(tzinfo=UTC).astimezone(self.tz)
            if k == "js":
                return json.loads(t) if self.kind == "pg" else t
        return v

    def _create(self, s):
        if self.kind == "my":
            self._end("COMMIT")
        m = re.match(r'(?i)create (?:unique )?index (if not exists )?', s)
        if m:
            if self.kind == "my" and m.group(1):
                raise ProgrammingError("syntax error")
            return self._write(s, [])
        m = re.match(r'(?i)create table (if not exists )?(?:public\.)?"?(\w+)"? ?\((.*)\)([^()]*)$', s)
        if not m:
            unsupported(self.d, s)
        name = m.group(2).lower()
        exists = bool(self._c.execute("SELECT 1 FROM sqlite_master WHERE type = 'table' AND name = ?", (name,)).fetchall())
        if exists:
            if m.group(1):
                return [], []
            raise (ProgrammingError if self.kind == "pg" else OperationalError)("relation \"%s\" already exists" % name)
        cols, depth, cur = [], 0, ""
        for ch in m.group(3) + ",":
            if ch == "," and depth == 0:
                cols.append(cur.strip())
                cur = ""
                continue
            depth += (ch == "(") - (ch == ")")
            cur += ch
        defs, meta = [], []
        pk = False
        for c in cols:
            if re.match(r"(?i)(primary key|constraint|unique|index|key|foreign|check)\b", c):
                if re.match(r"(?i)primary key ?\(", c):
                    pk = True
                    defs.append(c)
                    continue
                unsupported(self.d, "in %r" % s)
            cm = re.match(r'(?i)"?(\w+)"? (.+?)((?: (?:not null|null|primary key|unique|default .*|collate \S+|character set \S+))*)$', c)
            if not cm:
                unsupported(self.d, "column %r" % c)
            ty, opts = cm.group(2).lower(), cm.group(3).lower()
            nn = "not null" in opts or "primary key" in opts
            d = '"%s"' % cm.group(1)
            if self.kind == "my" and re.match(r"(var)?char|text", ty) and not re.search(r"collate \S*_(bin|cs|as_cs)\b", opts + " " + m.group(4).lower()):
                d += " COLLATE NOCASE"
            if "primary key" in opts:
                d += " PRIMARY KEY"
                pk = True
            elif "unique" in opts:
                d += " UNIQUE"
            if "default" in opts:
                unsupported(self.d, "default in %r" % c)
            defs.append(d)
            meta.append((name, cm.group(1).lower(), self._type(ty), int(nn)))
        self._begin(True)
        # InnoDB keeps rows in the order of the primary key
        self._exec('CREATE TABLE "%s" (%s)%s' % (name, ", ".join(defs), " WITHOUT ROWID" if self.kind == "my" and pk else ""), [])
        self._c.executemany("INSERT INTO emu_meta VALUES (?, ?, ?, ?)", meta)
        if self.kind == "my":
            self._end("COMMIT")
        return [], []

    def _type(self, t):
        t = re.sub(r"\s+", " ", t)
        al = {"timestamptz": "timestamp with time zone", "timestamp without time zone": "timestamp", "int": "integer", "int4": "integer",
              "int2": "smallint", "int8": "bigint", "float8": "double precision", "double": "double precision"}
        t = al.get(t, t)
        pg = r"text|varchar(\(\d+\))?|char\(\d+\)|uuid|timestamp|timestamp with time zone|smallint|integer|bigint|json|jsonb|double precision|boolean"
        my = (r"varchar\(\d+\)|char\(\d+\)|text|mediumtext|longtext|datetime(\([0-6]\))?|(tinyint|smallint|integer|bigint)( unsigned)?|double precision|json")
        if not re.fullmatch(pg if self.kind == "pg" else my, t):
            unsupported(self.d, "type %r" % t)
        return t

    def _insert(self, s, vals):
        m = re.match(r'(?i)(insert|replace) into (?:public\.)?"?(\w+)"? ?\(([^()]*)\) ?values ?\(([^()]*)\)$', s)
        if not m or m.group(1).lower() == "replace" and self.kind == "pg":
            unsupported(self.d, s)
        table = m.group(2).lower()
        cols = [c.strip().strip('"').lower() for c in m.group(3).split(",")]
        items = [c.strip() for c in m.group(4).split(",")]
        if set(items) != {"?"}:
            unsupported(self.d, s)
        if len(items) != len(cols) or len(vals) != len(cols):
            raise ProgrammingError("INSERT has more or fewer expressions than target columns")
        meta = self._tables()
        known = {c: x for (t, c), x in meta.items() if t == table}
        if not known:
            raise ProgrammingError('relation "%s" does not exist' % table)
        vals = [self._adapt(v) for v in vals]
        for c in known:
            if c not in cols and known[c][1]:
                raise (IntegrityError if self.kind == "pg" else OperationalError)("no value for column %s" % c)
        out = []
        for c, v in zip(cols, vals):
            if c not in known:
                raise (ProgrammingError if self.kind == "pg" else OperationalError)('column "%s" does not exist' % c)
            ty, nn = known[c]
            if v is None:
                if nn:
                    raise (IntegrityError if self.kind == "pg" else OperationalError)('null value in column "%s"' % c)
                out.append(None)
            else:
                out.append(self._store(c, ty, v))
        return self._write('%s INTO "%s" (%s) VALUES (%s)' % (m.group(1), table, ", ".join('"%s"' % c for c in cols), ", ".join("?" * len(cols))), out)

    def _store(self, c, ty, v):
        pg = self.kind == "pg"

        def wrong():
            if not pg:
                unsupported(self.d, "%r for column %s %s" % (v, c, ty))
            raise ProgrammingError('column "%s" is of type %s but expression is of type %s' % (c, ty, type(v).__name__))

        n = re.search(r"\((\d+)\)", ty)
        n = int(n.group(1)) if n else None
        if re.match(r"text|varchar|char|mediumtext|longtext", ty):
            if isinstance(v, datetime.datetime):
                v = v.isoformat(" ") if pg else v.replace(tzinfo=None).isoformat(" ")
            if isinstance(v, Json):
                wrong()
            v = v if isinstance(v, str) else str(v)
            if n is not None and len(v) > n or ty == "text" and not pg and len(v.encode()) > 65535:
                raise DataError("Data too long for column '%s'" % c)
            return v.rstrip(" ") if re.match(r"char", ty) else v
        if ty == "uuid":
            if not isinstance(v, str):
                wrong()
            try:
                return pg_uuid(v)
            except ValueError:
                raise DataError('invalid input syntax for type uuid: "%s"' % v)
        if ty in ("timestamp", "timestamp with time zone") or ty.startswith("datetime"):
            if isinstance(v, str):
                try:
                    v = datetime.datetime.fromisoformat(v)
                except ValueError:
                    raise DataError("invalid time %r" % v)
                if v.tzinfo is not None and ty == "timestamp":
                    v = v.replace(tzinfo=None)  # the zone in a literal is ignored
                elif v.tzinfo is not None and not pg:
                    unsupported(self.d, "time literal with a zone")
            if not isinstance(v, datetime.datetime):
                wrong()
            if ty == "timestamp with time zone":
                v = v.replace(tzinfo=self.tz) if v.tzinfo is None else v
                return "\x01tz:" + v.astimezone(UTC).replace(tzinfo=None).isoformat(" ", "microseconds")
            if ty.startswith("datetime") and n != 6:
                q = 10 ** (6 - (n or 0))
                us = (v.microsecond + q // 2) // q * q
                v = v.replace(microsecond=0) + datetime.timedelta(microseconds=us)
            return self._naive(v)
        if re.match(r"tinyint|smallint|integer|bigint", ty):
            if isinstance(v, bool) and pg:
                wrong()
            if not isinstance(v, (int, float)):
                wrong()
            v = int(round(v))
            bits = {"tinyint": 8, "smallint": 16, "integer": 32, "bigint": 64}[ty.split(" ")[0]]
            lo, hi = (0, 2 ** bits - 1) if "unsigned" in ty else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
            if not lo <= v <= hi:
                raise DataError("%s out of range" % ty)
            return v
        if ty in ("json", "jsonb"):
            if isinstance(v, Json):
                v = v.dumps(v.adapted)
            if not isinstance(v, str):
                wrong()

            def no(x):
                raise ValueError(x)

            try:
                x = json.loads(v, parse_constant=no)
            except ValueError:
                raise DataError("invalid input syntax for type json")
            if ty == "jsonb" or not pg:
                if pg and "\\u0000" in v:
                    raise DataError("unsupported Unicode escape sequence")
                v = json.dumps(x)
            return "\x01js:" + v
        if ty == "double precision":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return float(v)
            wrong()
        if ty == "boolean" and isinstance(v, bool):
            return v
        wrong()

    def _set(self, s, vals):
        t = s
        for v in vals:
            t = t.replace("?", "'%s'" % v, 1)
        m = re.match(r"(?i)set (?:session |local )?(?:time zone|timezone (?:to|=)) ?'?([\w/+:-]+)'?$", t)
        if m and self.kind == "pg":
            self.tz = zoneinfo.ZoneInfo(m.group(1))
            return [], []
        if self.kind == "my" and re.match(r"(?i)set (session )?(time_zone|names|character_set\w*|sql_mode)\b", t):
            return [], []
        unsupported(self.d, s)


def pg_uuid(v):
    h = v.strip("{}").replace("-", "")
    if not re.fullmatch(r"[0-9a-fA-F]{32}", h):
        raise ValueError(v)
    return str(uuid.UUID(h))


class Cursor:
    arraysize = 1
    itersize = 2000

    def __init__(self, conn, name=None):
        self.connection = conn
        self._rows, self._names = [], []
        self.rowcount = -1
        self.description = None
        self._done = False
        self.lastrowid = None

    def _row(self, r):
        return r

    def execute(self, sql, params=None, **k):
        if "vars" in k or "args" in k:
            params = k.popitem()[1]
        if self._done:
            raise InterfaceError("cursor already closed") if self.connection.kind == "pg" else ProgrammingError("cursor closed")
        if not isinstance(sql, str):
            unsupported(self.connection.d, "query %r" % (sql,))
        r = self.connection._run(sql, params)
        self._names, self._rows = r[0], list(r[1])
        self.rowcount = r[2] if len(r) > 2 else -1
        self.description = [(n,) + (None,) * 6 for n in self._names] or None
        return None if self.connection.kind == "pg" else self.rowcount

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)

    def _check(self):
        self.connection._alive()
        if self.description is None:
            if self.connection.kind == "pg":
                raise ProgrammingError("no results to fetch")

    def fetchone(self):
        self._check()
        return self._row(self._rows.pop(0)) if self._rows else None

    def fetchmany(self, size=None):
        self._check()
        n = size or self.arraysize
        out, self._rows = self._rows[:n], self._rows[n:]
        return [self._row(r) for r in out]

    def fetchall(self):
        self._check()
        out, self._rows = self._rows, []
        out = [self._row(r) for r in out]
        return out if self.connection.kind == "pg" else tuple(out)

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    def close(self):
        self._done = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    @property
    def closed(self):
        return self._done


class NamedRows(Cursor):
    def _row(self, r):
        return DictRow(self._names, r)


class DictRows(Cursor):
    def _row(self, r):
        return dict(zip(self._names, r))


class PgConn(Conn):
    kind = "pg"

    @property
    def autocommit(self):
        return self._auto

    @autocommit.setter
    def autocommit(self, x):
        if self._tx:
            raise ProgrammingError("set_session cannot be used inside a transaction")
        self._auto = bool(x)

    def set_session(self, isolation_level=None, readonly=None, deferrable=None, autocommit=None):
        if isolation_level not in (None, "READ COMMITTED", 1):
            unsupported(self.d, "isolation level %r" % isolation_level)
        if autocommit is not None:
            self.autocommit = autocommit

    def set_client_encoding(self, x):
        pass

    @property
    def closed(self):
        return int(self._closed)

    @property
    def status(self):
        return 2 if self._tx else 1

    def __enter__(self):
        return self

    def __exit__(self, t, *a):
        (self.rollback if t else self.commit)()


class MyConn(Conn):
    kind = "my"

    def autocommit(self, on):
        if on:
            self._end("COMMIT")
        self._auto = bool(on)

    def get_autocommit(self):
        return self._auto

    def ping(self, *a):
        self._alive()

    def begin(self):
        self._end("COMMIT")

    def set_character_set(self, *a):
        pass

    def query(self, q):
        self._run(q, None)

    @property
    def open(self):
        return int(not self._closed)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def pg_connect(dsn=None, connection_factory=None, cursor_factory=None, **k):
    words = dict(x.split("=", 1) for x in re.findall(r"\w+=(?:'[^']*'|\S+)", dsn or ""))
    words.update(k)
    if not words.get("host", "").startswith("/"):
        raise OperationalError("could not connect to server: %r" % (dsn,))
    c = PgConn(words["host"], cursor_factory or Cursor)
    if words.get("dbname") != "dsari":
        raise OperationalError('database "%s" does not exist' % words.get("dbname"))
    for x in (words.get("options", ""),):
        m = re.search(r"(?i)-c *timezone=([\w/+:-]+)", x)
        if m:
            c.tz = zoneinfo.ZoneInfo(m.group(1))
    if os.environ.get("PGTZ"):
        c.tz = zoneinfo.ZoneInfo(os.environ["PGTZ"])
    return c


def my_connect(*a, **k):
    if a or not str(k.get("unix_socket", "")).startswith("/"):
        raise OperationalError("(2002, \"Can't connect to server\")")
    if k.get("user") != "dsari" or k.get("passwd", k.get("password")) != "secret" or k.get("db", k.get("database")) != "dsari":
        raise OperationalError("(1045, \"Access denied for user %r\")" % k.get("user"))
    c = MyConn(os.path.dirname(k["unix_socket"]), k.get("cursorclass", Cursor))
    c._auto = bool(k.get("autocommit", False))
    return c


# ---------------------------------------------------------------------------------------------
# MongoDB
class MongoError(Exception):
    pass


class InvalidDocument(MongoError):
    pass


class InvalidOperation(MongoError):
    pass


class DuplicateKeyError(MongoError):
    pass


class OID(str):
    pass


def bson(v):
    """A document value as it comes back."""
    if v is None or isinstance(v, (bool, float, OID)):
        return v
    if isinstance(v, int):
        if not -(2 ** 63) <= v < 2 ** 63:
            raise OverflowError("MongoDB can only handle up to 8-byte ints")
        return v
    if isinstance(v, str):
        v.encode("utf-8")
        return str(v)
    if isinstance(v, datetime.datetime):
        if v.tzinfo is not None:
            v = (v - v.utcoffset()).replace(tzinfo=None)
        return v.replace(microsecond=v.microsecond // 1000 * 1000, fold=0)
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if not isinstance(k, str):
                raise InvalidDocument("documents must have only string keys, key was %r" % (k,))
            if "\0" in k:
                raise InvalidDocument("Key names must not contain the NULL byte")
            k.encode("utf-8")
            out[k] = bson(x)
        return out
    if isinstance(v, (list, tuple)):
        return [bson(x) for x in v]
    if isinstance(v, bytes):
        return v
    raise InvalidDocument("cannot encode object: %r, of type: %r" % (v, type(v)))


ORDER = [type(None), (int, float), str, dict, list, bytes, OID, bool, datetime.datetime]


def rank(v):
    if isinstance(v, bool):
        return 7
    if isinstance(v, OID):
        return 6
    for i, t in enumerate(ORDER):
        if isinstance(v, t):
            return i
    return 99


def cmpkey(v):
    return (rank(v), v if v is not None else 0)


class Mongo:
    def __init__(self, host=None, port=None, document_class=dict, tz_aware=None, connect=None, type_registry=None, **k):
        m = re.search(r"[?&]appname=([^&]+)", host or "")
        if not m or not (host or "").startswith("mongodb://"):
            raise MongoError("cannot reach %r" % (host,))
        self.d = m.group(1)
        self.tz_aware = bool(tz_aware)
        self.tzinfo = k.pop("tzinfo", None)
        for x in set(k) - {"serverSelectionTimeoutMS", "connectTimeoutMS", "socketTimeoutMS", "retryWrites", "w", "appname", "maxPoolSize", "username", "password"}:
            unsupported(self.d, "MongoClient option %s" % x)
        self.default = re.match(r"mongodb://[^/]*/([^?]*)", host).group(1) or None
        self._c = None

    def conn(self):
        if self._c is None:
            self._c = sqlite3.connect(server_file(self.d), timeout=10, isolation_level=None, check_same_thread=False)
            self._c.execute("PRAGMA journal_mode=WAL").fetchall()
            self._c.execute("PRAGMA synchronous=OFF")
            try:
                self._c.execute("BEGIN IMMEDIATE")
                mongo_schema(self._c)
                self._c.execute("COMMIT")
            except sqlite3.OperationalError as e:
                unsupported(self.d, "schema: %s" % e)
        return self._c

    def __getitem__(self, n):
        return MongoDb(self, n)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in ("start_session", "admin", "list_database_names", "server_info", "drop_database", "address", "nodes"):
            unsupported(self.d, "MongoClient.%s" % n)
        return MongoDb(self, n)

    def get_database(self, name=None):
        return MongoDb(self, name or self.default)

    def get_default_database(self, default=None):
        return MongoDb(self, self.default or default)

    def close(self):
        if self._c is not None:
            self._c.close()
            self._c = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def mongo_schema(c):
    c.execute("CREATE TABLE IF NOT EXISTS emu_docs (id INTEGER PRIMARY KEY, db TEXT, coll TEXT, job_name TEXT, run_id TEXT, doc BLOB)")
    c.execute("CREATE VIEW IF NOT EXISTS runs AS SELECT job_name, run_id FROM emu_docs WHERE db = 'dsari' AND coll = 'runs'")
    # there is no transaction around the two steps of completing a run
    c.execute("CREATE VIEW IF NOT EXISTS runs_running AS SELECT job_name, run_id FROM emu_docs WHERE db = 'dsari' AND coll = 'runs_running' "
              "AND NOT EXISTS (SELECT 1 FROM emu_docs x WHERE x.db = 'dsari' AND x.coll = 'runs' AND x.run_id = emu_docs.run_id)")


class MongoDb:
    def __init__(self, client, name):
        self.client, self.name = client, name

    def __getitem__(self, n):
        return Coll(self, n)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in ("command", "list_collections", "create_collection", "drop_collection", "aggregate", "watch", "with_options"):
            unsupported(self.client.d, "Database.%s" % n)
        return Coll(self, n)

    def get_collection(self, n):
        return Coll(self, n)

    def list_collection_names(self):
        return [r[0] for r in self.client.conn().execute("SELECT DISTINCT coll FROM emu_docs WHERE db = ?", (self.name,))]

    def __bool__(self):
        raise NotImplementedError("Database objects do not implement truth value testing")


class Res:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.acknowledged = True


class Coll:
    def __init__(self, db, name):
        self.database, self.name = db, name
        self.d = db.client.d

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        unsupported(self.d, "Collection.%s" % n)

    def __bool__(self):
        raise NotImplementedError("Collection objects do not implement truth value testing")

    def _all(self):
        q = self.database.client.conn().execute("SELECT id, doc FROM emu_docs WHERE db = ? AND coll = ? ORDER BY id", (self.database.name, self.name))
        return [(i, pickle.loads(d)) for i, d in q.fetchall()]

    def insert_one(self, doc, *a, **k):
        if a or k:
            unsupported(self.d, "insert_one options %r" % (k,))
        if not isinstance(doc, dict):
            raise TypeError("document must be an instance of dict")
        if "_id" not in doc:
            doc["_id"] = OID(uuid.uuid4().hex[:24])
        x = bson(doc)
        if any(y["_id"] == x["_id"] for _, y in self._all()):
            raise DuplicateKeyError("E11000 duplicate key error")
        self.database.client.conn().execute("INSERT INTO emu_docs (db, coll, job_name, run_id, doc) VALUES (?, ?, ?, ?, ?)", (
            self.database.name, self.name, x.get("job_name"), x.get("run_id"), pickle.dumps(x)))
        return Res(inserted_id=doc["_id"])

    def insert_many(self, docs, **k):
        return Res(inserted_ids=[self.insert_one(d).inserted_id for d in docs])

    def _delete(self, flt, many):
        n = 0
        for i, x in self._all():
            if match(self.d, x, flt):
                self.database.client.conn().execute("DELETE FROM emu_docs WHERE id = ?", (i,))
                n += 1
                if not many:
                    break
        return Res(deleted_count=n)

    def delete_many(self, flt, **k):
        ok_filter(flt)
        ids = [i for i, x in self._all() if match(self.d, x, flt)]
        if ids:
            self.database.client.conn().execute("DELETE FROM emu_docs WHERE id IN (%s)" % ",".join(map(str, ids)))
        return Res(deleted_count=len(ids))

    def delete_one(self, flt, **k):
        ok_filter(flt)
        return self._delete(flt, False)

    def replace_one(self, flt, doc, upsert=False):
        ok_filter(flt)
        for i, x in self._all():
            if match(self.d, x, flt):
                y = bson(dict(doc, _id=x["_id"]))
                self.database.client.conn().execute("UPDATE emu_docs SET job_name = ?, run_id = ?, doc = ? WHERE id = ?", (
                    y.get("job_name"), y.get("run_id"), pickle.dumps(y), i))
                return Res(matched_count=1, modified_count=1, upserted_id=None)
        if upsert:
            return Res(matched_count=0, modified_count=0, upserted_id=self.insert_one(dict(doc)).inserted_id)
        return Res(matched_count=0, modified_count=0, upserted_id=None)

    def find(self, filter=None, projection=None, skip=0, limit=0, no_cursor_timeout=False, sort=None, batch_size=0, **k):
        ok_filter({} if filter is None else filter)
        if k:
            unsupported(self.d, "find options %r" % (k,))
        c = Find(self, filter or {}, projection)
        c._skip, c._limit = skip, limit
        return c.sort(sort) if sort else c

    def find_one(self, filter=None, *a, **k):
        if filter is not None and not isinstance(filter, dict):
            filter = {"_id": filter}
        for x in self.find(filter, *a, **k).limit(-1):
            return x
        return None

    def find_one_and_delete(self, flt, **k):
        ok_filter(flt)
        for i, x in self._all():
            if match(self.d, x, flt):
                self.database.client.conn().execute("DELETE FROM emu_docs WHERE id = ?", (i,))
                return x
        return None

    def count_documents(self, filter, **k):
        ok_filter(filter)
        return sum(match(self.d, x, filter) for _, x in self._all())

    def estimated_document_count(self, **k):
        return len(self._all())

    def distinct(self, key, filter=None, **k):
        out = []
        for _, x in self._all():
            if match(self.d, x, filter or {}) and key in x and x[key] not in out:
                out.append(x[key])
        return out

    def create_index(self, keys, **k):
        if set(k) - {"name", "background"}:
            unsupported(self.d, "create_index options %r" % (k,))
        return k.get("name", "index")

    ensure_index = create_index


def ok_filter(f):
    if not isinstance(f, dict):
        raise TypeError("filter must be an instance of dict")
    bson(f)


def match(d, x, flt):
    for k, c in flt.items():
        if k == "$or":
            if not any(match(d, x, y) for y in c):
                return False
            continue
        if k == "$and":
            if not all(match(d, x, y) for y in c):
                return False
            continue
        if k.startswith("$") or "." in k:
            unsupported(d, "filter %r" % (flt,))
        v = x.get(k)
        if isinstance(c, dict) and any(y.startswith("$") for y in c):
            for op, a in c.items():
                a = bson(a)
                if op in ("$in", "$nin") and not isinstance(a, list):
                    raise MongoError("%s needs an array" % op)
                if op == "$in":
                    ok = any(equal(v, y) for y in a)
                elif op == "$nin":
                    ok = not any(equal(v, y) for y in a)
                elif op == "$ne":
                    ok = not equal(v, a)
                elif op == "$eq":
                    ok = equal(v, a)
                elif op == "$exists":
                    ok = (k in x) == bool(a)
                elif op in ("$gt", "$gte", "$lt", "$lte"):
                    ok = rank(v) == rank(a) and {"$gt": lambda: v > a, "$gte": lambda: v >= a, "$lt": lambda: v < a, "$lte": lambda: v <= a}[op]()
                else:
                    unsupported(d, "filter %r" % (flt,))
                if not ok:
                    return False
        elif not equal(v, bson(c)):
            return False
    return True


def equal(a, b):
    return rank(a) == rank(b) and a == b


class Find:
    def __init__(self, coll, flt, proj):
        self.c, self.flt, self.proj = coll, flt, proj
        self._sort, self._limit, self._skip = [], 0, 0
        self._it = None

    def _open(self):
        if self._it is not None:
            raise InvalidOperation("cannot set options after executing query")

    def sort(self, key, direction=None):
        self._open()
        if isinstance(key, str):
            key = [(key, 1 if direction is None else direction)]
        elif isinstance(key, dict):
            key = list(key.items())
        self._sort = [(k, d) for k, d in key]
        return self

    def limit(self, n):
        self._open()
        self._limit = n
        return self

    def skip(self, n):
        self._open()
        self._skip = n
        return self

    def batch_size(self, n):
        return self

    def clone(self):
        f = Find(self.c, self.flt, self.proj)
        f._sort, f._limit, f._skip = self._sort, self._limit, self._skip
        return f

    def rewind(self):
        self._it = None
        return self

    def _run(self):
        out = [x for _, x in self.c._all() if match(self.c.d, x, self.flt)]
        for k, d in reversed(self._sort):
            out.sort(key=lambda x: cmpkey(x.get(k)), reverse=d == -1)
        out = out[self._skip:]
        if self._limit:
            out = out[:abs(self._limit)]
        cl = self.c.database.client
        return [self._out(x, cl) for x in out]

    def _out(self, x, cl):
        p = self.proj
        if p:
            if not isinstance(p, dict):
                p = dict.fromkeys(p, 1)
            idv = p.get("_id", 1)
            rest = {k: v for k, v in p.items() if k != "_id"}
            if rest and all(rest.values()):
                x = {k: v for k, v in x.items() if k in rest or k == "_id" and idv}
            else:
                x = {k: v for k, v in x.items() if p.get(k, 1)}
        return aware(x, cl) if cl.tz_aware else x

    def __iter__(self):
        return self

    def __next__(self):
        if self._it is None:
            self._it = iter(self._run())
        return next(self._it)

    next = __next__

    def to_list(self, length=None):
        return list(self)

    def __getitem__(self, i):
        self._open()
        if isinstance(i, slice):
            self._skip = i.start or 0
            self._limit = 0 if i.stop is None else i.stop - self._skip
            return self
        if i < 0:
            raise IndexError("Cursor instances do not support negative indices")
        # as pymongo: a clone with this skip (the limit does not apply)
        c = self.clone()
        c._skip += i
        c._limit = -1
        for x in c:
            return x
        raise IndexError("no such item for Cursor instance")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        unsupported(self.c.d, "Cursor.%s" % n)


def aware(x, cl):
    if isinstance(x, dict):
        return {k: aware(v, cl) for k, v in x.items()}
    if isinstance(x, list):
        return [aware(v, cl) for v in x]
    if isinstance(x, datetime.datetime):
        x = x.replace(tzinfo=UTC)
        return x.astimezone(cl.tzinfo) if cl.tzinfo else x
    return x


# ---------------------------------------------------------------------------------------------
def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)

    def missing(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (name, n))

    m.__getattr__ = missing
    sys.modules[name] = m
    return m


def install():
    ex = module("psycopg2.extras", DictCursor=NamedRows, RealDictCursor=DictRows, Json=Json, DictRow=DictRow)
    er = module("psycopg2.errors", **ERRORS)
    et = module("psycopg2.extensions", connection=PgConn, cursor=Cursor, ISOLATION_LEVEL_READ_COMMITTED=1)
    module("psycopg2", connect=pg_connect, extras=ex, errors=er, extensions=et, paramstyle="pyformat", apilevel="2.0", __path__=[], **ERRORS)
    cu = module("MySQLdb.cursors", Cursor=Cursor, DictCursor=DictRows)
    module("MySQLdb", connect=my_connect, Connect=my_connect, Connection=my_connect, cursors=cu, paramstyle="format", __path__=[], **ERRORS)
    pe = module("pymongo.errors", PyMongoError=MongoError, DuplicateKeyError=DuplicateKeyError, InvalidOperation=InvalidOperation)
    module("pymongo", MongoClient=Mongo, ASCENDING=1, DESCENDING=-1, errors=pe, version="4.6.0", __path__=[])


def section(kind):
    """The database settings of a configuration."""
    if kind == "pg":
        return {"type": "postgresql", "dsn": "host=@ROOT@/var dbname=dsari user=dsari"}
    if kind == "my":
        return {"type": "mysql", "connection": {"unix_socket": "@ROOT@/var/mysql.sock", "user": "dsari", "passwd": "secret", "db": "dsari"}}
    return {"type": "mongodb", "uri": "mongodb://localhost/dsari?appname=@ROOT@/var", "database": "dsari"}


def delete_running(kind, d, ids=None):
    """Removes running runs on the server, without the code under test."""
    c = simcore.REAL["sqlite3.connect"](server_file(d), timeout=10)
    where = "" if ids is None else " AND run_id IN (%s)" % ",".join("'%s'" % x for x in ids)
    if kind == "mongo":
        mongo_schema(c)
        c.execute("DELETE FROM emu_docs WHERE coll = 'runs_running'" + where)
    elif c.execute("SELECT 1 FROM sqlite_master WHERE name = 'runs_running'").fetchall():
        c.execute("DELETE FROM runs_running WHERE 1" + where)
    c.commit()
    c.close()


def notes(root):
    out = ""
    for d in (os.path.join(root, "var"), root):
        p = os.path.join(d, "emu-unsupported")
        if os.path.exists(p):
            with open(p) as f:
                out += f.read()
    return out
