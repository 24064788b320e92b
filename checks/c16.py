"""C16: catalog answers mirror the application's declared schema exactly."""
import re

from checks.common import *
from dst.chooser import Chooser

ID = "C16"
LEVEL = "exploration"
QUICK_RUNS = 1200
THOROUGH_RUNS = 150000
RULE = ("A run is 1-3 connections, each with its own schema mapping of depth 2, 3 or 4 (0 to some hundred tables and columns, names and "
        "types shared across databases, empty tables and databases, names that are keywords, contain _ or start with digits), which "
        "the application replaces or edits in place between statements, and whose callback may be slow or fail. The statements "
        "are SHOW DATABASES / TABLES / COLUMNS / VARIABLES in their forms, DESCRIBE, COM_FIELD_LIST and SELECTs on SCHEMATA, TABLES "
        "and COLUMNS with filters (text and prepared), under every current database. The expected rows are computed from the mapping "
        "by this check (own LIKE matcher); the built-in entries are what a server with an empty schema lists. Non-trivial: a "
        "statement selected some but not all of the entries, or the mapping changed between statements.")
STATE_RULE = "(depth, kind of statement, current database class, filter, share selected)"
STUB = ["kernel sockets and selector (simulated)", "clock (virtual)", "os.urandom / random (seeded)",
        "MySQL clients (independent strict protocol implementation)", "application session (table-driven, recording)"]
ASSUMPTIONS = ["Names that differ only in case are not declared together; where a filter would select differently with and without "
               "case, either answer is accepted",
               "A mapping of depth 2 has no database level: SHOW TABLES and statements run inside another database may answer with "
               "nothing, an error or the declared tables",
               "Names of catalogs, databases and tables are declared once each; when two catalogs share a database, only "
               "INFORMATION_SCHEMA is compared exactly"]

WORDS = ["a", "b", "t", "x", "tab", "table", "order", "select", "from", "key", "users", "user_1", "user_11", "userx1", "user", "col", "col_a", "colxa",
         "col1", "col10", "id", "ID2", "Name", "name_", "_name", "__", "_", "$x", "x$y", "1a", "12", "db", "db1", "db_1", "dbx1", "test", "mysq", "information",
         "information_schema2", "tables", "columns", "schemata", "t1", "t2", "t11", "\u8868", "\u0436\u0436", "a\u8868b", "null", "like", "show",
         "x.y"[:1] + "y", "aa", "aaa", "ab", "aab", "abab", "default", "def", "k%"[:1], "LONG" * 15, "index", "full", "in", " pad", "pad ", "two words", "100%", "a\nb", "\tt", "x-y", "a;b", "#c", "*", "%", "%%", "_%"]
TYPES = ["int", "INT", "varchar(20)", "TEXT", "decimal(10,2)", "enum('a','b')", "bigint unsigned", "datetime", "\u00e9t\u00e9", "double", "json", ""]


def gen_names(rng, n, pool, used=None):
    seen = {x.lower() for x in used or ()}
    out = []
    for _ in range(n):
        x = rng.choice(pool)
        if rng.random() < 0.15:
            x += rng.choice(["_", "1", "x", "_a", "0"])
        if x.lower() not in seen:
            seen.add(x.lower())
            out.append(x)
    return out


def gen_table(rng, pool, big):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    if big and rng.random() < 0.1:
        return [["c%d" % j, rng.choice(TYPES)] for j in range(rng.choice([63, 255, 300]))]
    return [[x, rng.choice(TYPES)] for x in gen_names(rng, n, pool)]


def gen_db(rng, pool, big):
    n = rng.choice([0, 1, 2, 2, 3, 6])
    if big and rng.random() < 0.1:
        return [["t%d" % j, [["c", "int"]]] for j in range(rng.choice([60, 150]))]
    return [[x, gen_table(rng, pool, big)] for x in gen_names(rng, n, pool)]


def gen_schema(rng, pool):
    """-> [depth, {catalog: {db: {table: {column: type}}}} as nested lists]"""
    depth = rng.choice([2, 3, 3, 3, 3, 4, 4])
    big = rng.random() < 0.15
    if depth == 2:
        return [2, [["def", [["", gen_db(rng, pool, big)]]]]]
    bad = ["mysql", "information_schema"]
    if depth == 3:
        dbs = gen_names(rng, rng.choice([0, 1, 2, 3, 6]), pool, bad)
        return [3, [["def", [[d, gen_db(rng, pool, big)] for d in dbs]]]]
    cats = gen_names(rng, rng.choice([1, 1, 2, 3]), ["def", "c1", "c2", "main"])
    used = list(bad)
    out = []
    for c in cats:
        dbs = gen_names(rng, rng.choice([0, 1, 2, 3]), pool, used)
        if rng.random() < 0.8:
            used += dbs
        out.append([c, [[d, gen_db(rng, pool, False)] for d in dbs]])
    return [4, out]


def gen_pattern(rng):
    """How to make a LIKE pattern of a name: [name number, edits]"""
    return [rng.randrange(64), [[rng.choice(["%", "_", "%", "_", "cut", "dup", "esc", "x"]), rng.randrange(12)] for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]]


def pattern(names, p):
    s = names[p[0] % len(names)] if names else "a"
    if "%" in s and p[1] and p[1][0][0] == "esc":  # the name itself, with its wildcards escaped
        return s.replace("%", "\\%").replace("_", "\\_" if len(p[1]) > 1 else "_")
    s = s.replace("%", "")
    esc = False
    for kind, at in p[1]:
        at = at % (len(s) + 1)
        if kind == "%":
            s = s[:at] + "%" + s[at + at % 3:]
        elif kind == "_" and at < len(s):
            s = s[:at] + "_" + s[at + 1:]
        elif kind == "cut":
            s = s[:at] + "%"
        elif kind == "dup":
            s = "%" + s[at:]
        elif kind == "esc":
            esc = True
        elif kind == "x":
            s = s[:at] + "x" + s[at:]
    if esc and "\\" not in s:
        s = s.replace("_", "\\_", 1)
    return s


def tokens(p):
    out, i = [], 0
    while i < len(p):
        if p[i] == "\\" and i + 1 < len(p):
            out.append((0, p[i + 1]))
            i += 2
            continue
        out.append((1, p[i]) if p[i] in "%_" else (0, p[i]))
        i += 1
    return out


def like(p, s):
    """SQL LIKE, the whole string, by dynamic programming."""
    cur = {0}
    n = len(s)
    for wild, c in tokens(p):
        if wild and c == "%":
            cur = set(range(min(cur), n + 1)) if cur else cur
        else:
            cur = {i + 1 for i in cur if i < n and (wild or s[i] == c)}
    return n in cur


def gen_filter(rng):
    r = rng.random()
    if r < 0.35:
        return None
    return gen_pattern(rng)


def gen_where(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        out.append([rng.randrange(6), rng.choice(["=", "=", "<>", "like", "like", "not like", "in", "not in"]), gen_pattern(rng), rng.randrange(64), rng.choice(["and", "and", "or"])])
    return out


def gen_op(rng, pool):
    r = rng.random()
    via = rng.choice(["text", "text", "text", "prep"])
    q = rng.randrange(64)
    if r < 0.1:
        return ["schema", rng.choice(["new", "new", "add-table", "drop-table", "add-column", "drop-column", "rename-db"]), gen_schema(rng, pool), rng.randrange(64)]
    if r < 0.19:
        return ["use", rng.choice(["com", "use", "use"]), rng.choice(["db", "db", "db", "info", "none"]), rng.randrange(64)]
    if r < 0.26:
        return ["dbs", gen_filter(rng), q, via]
    if r < 0.42:
        return ["tables", rng.random() < 0.6, rng.randrange(64), gen_filter(rng), q, via]
    if r < 0.58:
        return ["columns", rng.random() < 0.6, rng.randrange(64), gen_filter(rng), q, via]
    if r < 0.65:
        return ["describe", rng.random() < 0.6, rng.randrange(64), q, via]
    if r < 0.72:
        return ["fields", rng.randrange(64), gen_filter(rng)]
    if r < 0.95:
        return ["select", rng.choice(["schemata", "tables", "columns", "columns"]), gen_where(rng), q, via, rng.choice(["plain", "plain", "plain", "count", "group", "ordinal"])]
    if r < 0.99:
        return ["variables", gen_filter(rng), q, via]
    return ["index", rng.randrange(64)]


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "clients": [], "gates": rng.choice([[], ["schema"], ["schema"], ["handle_query", "schema"]]), "fails": []}
    if rng.random() < 0.15:
        sc["fails"] = sorted({rng.randrange(10) for _ in range(2)})
    for _ in range(rng.choice([1, 1, 2, 3])):
        pool = rng.sample(WORDS, rng.choice([5, 8, 14, len(WORDS)]))
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "db": rng.choice([None, "db", "info", "none"]), "dbk": rng.randrange(64),
                              "schema": gen_schema(rng, pool), "prog": [gen_op(rng, pool) for _ in range(rng.choice([4, 8, 14]))]})
    return sc


_BASE = []


def ask(W, sql, binary=False):
    if binary:
        W.command(wire.COM_STMT_PREPARE, sql.encode())
        p = yield from W.read_prepare()
        if p["kind"] == "err":
            return p
        W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"]))
        r = yield from W.read_resultset(binary=True)
        W.command(wire.COM_STMT_CLOSE, struct.pack("<I", p["id"]))
    else:
        W.command(wire.COM_QUERY, W.query_body(sql.encode()))
        r = yield from W.read_resultset()
    if r["kind"] == "rs":
        for c in r["cols"]:
            if c["type"] not in wire.TNAME:
                raise Violation("c16/column-definition", "%s: unknown type %r" % (sql, c))
            c["name"].decode()
        r["rows"] = [[x.decode() if isinstance(x, bytes) else x for x in row] for row in r["rows"]]
    return r


def base():
    """The built-in catalog entries: [(catalog, database, table, column, type)], as a server with an empty schema lists them."""
    if _BASE:
        return _BASE[0]
    w = World(Chooser(seed=1), {}, False)
    app = App(w, {})
    got = {}

    def go(c):
        W = Wire(c)
        yield GO
        r = yield from login(c, W)
        expect(r["kind"] == "ok", "c16/builtin", repr(r))
        for k, sql in (("columns", "select table_catalog, table_schema, table_name, column_name, data_type from information_schema.columns"),
                       ("tables", "select table_catalog, table_schema, table_name from information_schema.tables"),
                       ("schemata", "select catalog_name, schema_name from information_schema.schemata")):
            r = yield from ask(W, sql)
            expect(r["kind"] == "rs" and not r["err"], "c16/builtin", "%s: %r" % (sql, r))
            got[k] = [tuple(x) for x in r["rows"]]
        W.command(wire.COM_QUIT)

    w.client(go, {})
    w.run(std_server(app))
    unfinished(w, "c16")
    bad = list(w.violations)
    w.teardown()
    if not bad:
        cols = got["columns"]
        have = {(d, t) for _, d, t, _, _ in cols}
        for t, need in (("schemata", ["catalog_name", "schema_name"]), ("tables", ["table_catalog", "table_schema", "table_name", "table_type"]),
                        ("columns", ["table_schema", "table_name", "column_name", "ordinal_position", "data_type"])):
            mine = [x[3] for x in cols if x[1:3] == ("information_schema", t)]
            if not set(need) <= set(mine) or len(mine) != len(set(mine)):
                bad.append(("c16/builtin", "information_schema.%s lists the columns %r" % (t, mine)))
        if have != {x[1:] for x in got["tables"]} or len(got["tables"]) != len(have):
            bad.append(("c16/builtin", "tables %r, columns of the tables %r" % (sorted(got["tables"]), sorted(have))))
        if {d for d, _ in have} != {x[1] for x in got["schemata"]} or len(got["schemata"]) != len(set(got["schemata"])):
            bad.append(("c16/builtin", "databases %r" % got["schemata"]))
    _BASE.append((got, bad))
    return _BASE[0]


class Model:
    """The declared schema, and what the catalog should list for it."""

    def __init__(self, spec, builtin):
        self.b = builtin
        self.depth = spec[0] if spec[0] in (2, 3, 4) else 3
        self.cats = {}
        for c, dbs in spec[1]:
            for d, ts in dbs:
                for t, cols in ts:
                    for x, typ in cols:
                        self.cats.setdefault(c or "def", {}).setdefault("" if self.depth == 2 else d or "d", {}).setdefault(t or "t", {})[x or "c"] = typ
                    self.cats.setdefault(c or "def", {}).setdefault("" if self.depth == 2 else d or "d", {}).setdefault(t or "t", {})
                if self.depth > 2:
                    self.cats.setdefault(c or "def", {}).setdefault(d or "d", {})
            self.cats.setdefault(c or "def", {})
        if not any(cols for dbs in self.cats.values() for ts in dbs.values() for cols in ts.values()):
            # something must tell the depth
            c = next(iter(self.cats), "def")
            self.cats.setdefault(c, {}).setdefault("" if self.depth == 2 else "d0", {}).setdefault("t0", {})["c0"] = "int"
        if self.depth < 4:
            self.cats = {"def": self.cats.get("def") or next(iter(self.cats.values()))}
        if self.depth == 2:
            self.cats = {"def": {"": self.cats["def"].get("", {})}}

    def mapping(self):
        return self.cats if self.depth == 4 else self.cats["def"] if self.depth == 3 else self.cats["def"][""]

    def rows(self, kind):
        """Rows as dicts."""
        out = []
        if kind == "schemata":
            out = [dict(catalog_name=c, schema_name=d) for c, dbs in self.cats.items() for d in dbs]
            return out + [dict(catalog_name=c, schema_name=d) for c, d in self.b["schemata"]]
        if kind == "tables":
            out = [dict(table_catalog=c, table_schema=d, table_name=t) for c, dbs in self.cats.items() for d, ts in dbs.items() for t in ts]
            return out + [dict(table_catalog=c, table_schema=d, table_name=t) for c, d, t in self.b["tables"]]
        out = [dict(table_catalog=c, table_schema=d, table_name=t, column_name=x, data_type=typ, column_type=typ)
               for c, dbs in self.cats.items() for d, ts in dbs.items() for t, cols in ts.items() for x, typ in cols.items()]
        return out + [dict(table_catalog=c, table_schema=d, table_name=t, column_name=x, data_type=y, column_type=y) for c, d, t, x, y in self.b["columns"]]

    def dbs(self):
        return [d for dbs in self.cats.values() for d in dbs]

    def shared(self):
        x = self.dbs()
        return len(x) != len(set(x))


def ident(name, q):
    """An identifier, quoted when it must be, or at random."""
    plain = re.fullmatch(r"[a-zA-Z][a-zA-Z0-9_]*", name) and name.lower() not in KEYWORDS
    return name if plain and q % 3 == 0 else "`%s`" % name


KEYWORDS = {"table", "order", "select", "from", "key", "null", "like", "show", "default", "index", "full", "in", "user", "tables", "columns", "schemata",
            "db", "test", "long", "names", "name", "def", "id"}


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    built, bad = base()
    w = World(ch, sc.get("sched"), trace)
    if bad:
        for b in bad:
            w.violate(*b)
        return finish(o, w)
    app = App(w, {"gates": sc.get("gates", [])})
    models = {}
    nschema = [0]
    failed = {}
    objects = {}  # user -> the mapping object that the application hands out, edited in place

    def schema_fn(sess):
        n = nschema[0]
        nschema[0] += 1
        if n in sc.get("fails", ()):
            w.count("app_exc_schema")
            failed[sess.username] = failed.get(sess.username, 0) + 1
            raise RuntimeError("no schema today")
        return objects[sess.username]

    app.schema_fn = schema_fn

    async def answer(sess, expression, sql, attrs):
        w.violate("c16/routing", "a catalog statement reached the application: %r" % sql)
        return None

    app.answer_fn = answer

    def script(ci, cl):
        user = "u%d" % ci

        def go(c):
            W = Wire(c)
            st = {"db": None, "m": Model(cl["schema"], built), "vars": None}
            objects[user] = st["m"].mapping()
            models[user] = st["m"]
            yield GO
            st["db"] = pick_db(st, cl["db"], cl["dbk"])
            r = yield from login(c, W, user=user.encode(), db=st["db"].encode() if st["db"] else None, caps=cl["caps"])
            expect(r["kind"] == "ok", "c16/login", repr(r))
            for op in cl["prog"]:
                yield GO
                yield from step(user, W, st, op)
            W.command(wire.COM_QUIT)
        return go

    def pick_db(st, kind, k):
        dbs = [d for d in st["m"].dbs() if d]
        if kind == "db" and dbs:
            return dbs[k % len(dbs)]
        if kind == "info":
            return "information_schema"
        if kind == "none":
            return "no_such_db"
        return None

    def edit(st, how, k):
        m = st["m"]
        ts = [(dbs, d) for dbs in m.cats.values() for d in dbs]
        if not ts:
            return
        dbs, d = ts[k % len(ts)]
        tables = dbs[d]
        names = list(tables)
        if how == "add-table":
            if "new_t" not in tables:
                tables["new_t"] = {"new_a": "int", "new_b": "text"}
        elif not names:
            return
        else:
            t = tables[names[k % len(names)]]
            if how == "add-column" and "new_c" not in t:
                t["new_c"] = "date"
            total = sum(len(x) for y in m.cats.values() for z in y.values() for x in z.values())
            if how == "drop-column" and t and total > 1:
                del t[list(t)[k % len(t)]]
            if how == "drop-table" and total > len(t):
                del tables[names[k % len(names)]]
            if how == "rename-db" and m.depth > 2 and "renamed" not in m.dbs():
                dbs["renamed"] = dbs.pop(d)

    def compare(what, got, want, share=None, fold=None, ordered=False):
        """want: rows; fold: what would be selected if case did not matter."""
        def norm(rows):
            rows = [tuple(x) for x in rows]
            return rows if ordered else sorted(rows, key=repr)

        g = norm(got)
        if g == norm(want) or fold is not None and g == norm(fold):
            return
        missing = [x for x in norm(want) if x not in g]
        extra = [x for x in g if x not in norm(want)]
        kind = "c16/missing" if missing else "c16/extra" if extra else "c16/order" if sorted(g, key=repr) == sorted(norm(want), key=repr) else "c16/duplicate"
        raise Violation(kind, "%s: missing %r, extra %r (%d rows, %d expected): %r" % (what, missing[:5], extra[:5], len(g), len(want), g[:6]))

    def failed_now(user, r, n0):
        """The application's schema callback failed: the statement must, too."""
        if failed.get(user, 0) > n0:
            err = r if r["kind"] == "err" else r["err"]
            expect(err, "c16/schema-failed", "the application could not tell its schema, the client got %r" % (r,))
            o.probes["schema-failed"] += 1
            return True
        return False

    def rows_of(r, what):
        if r["kind"] != "rs" or r["err"]:
            raise Violation("c16/answer", "%s: %r" % (what, r if r["kind"] == "err" else r.get("err") or r))
        return r["rows"]

    def seen(st, kind, filt, n, total):
        if 0 < n < total:
            o.nontrivial = True
        cur = "none" if not st["db"] else "info" if st["db"] == "information_schema" else "no" if st["db"] == "no_such_db" else "db"
        o.states.add("depth%d %s cur-%s %s %s" % (st["m"].depth, kind, cur, filt, "none" if not n else "all" if n == total else "some"))
        o.probes[kind] += 1

    def filt_sql(p):
        return " like '%s'" % p if p is not None else ""

    def selected(rows, p, key):
        """(as it is, ignoring case)"""
        if p is None:
            return rows, None
        a = [x for x in rows if like(p, x[key])]
        b = [x for x in rows if like(p.lower(), x[key].lower())]
        return a, (b if b != a else None)

    def step(user, W, st, op):
        m = st["m"]
        k = op[0]
        n0 = failed.get(user, 0)
        via = op[-1] == "prep" if k not in ("select",) else op[4] == "prep"
        if k == "schema":
            if op[1] == "new":
                st["m"] = Model(op[2], built)
                objects[user] = st["m"].mapping()
            else:
                edit(st, op[1], op[3])
            o.probes["schema-change"] += 1
        elif k == "use":
            db = pick_db(st, op[2], op[3])
            if not db:
                return
            if op[1] == "com":
                W.command(wire.COM_INIT_DB, db.encode())
            else:
                W.command(wire.COM_QUERY, W.query_body(("use %s" % ident(db, op[3])).encode()))
            r = yield from W.read_ok_err()
            expect(r["kind"] == "ok", "c16/use", repr(r))
            st["db"] = db
        elif k == "dbs":
            rows = m.rows("schemata")
            p = pattern([x["schema_name"] for x in rows if x["schema_name"]], op[1]) if op[1] else None
            sql = ["show databases", "SHOW DATABASES", "show schemas"][op[2] % 3] + filt_sql(p)
            r = yield from ask(W, sql, via)
            if failed_now(user, r, n0):
                return
            got = rows_of(r, sql)
            want, fold = selected(rows, p, "schema_name")
            seen(st, "show-databases", bool(p), len(want), len(rows))
            if m.depth == 2 or m.shared():
                got = sorted({x[0] for x in got if x[0]})
                names = [sorted({x["schema_name"] for x in y if x["schema_name"]}) if y is not None else None for y in (want, fold)]
                expect(got in names, "c16/databases", "%s: %r, expected %r" % (sql, got, names[0]))
                return
            compare(sql, got, [[x["schema_name"]] for x in want], fold=fold and [[x["schema_name"]] for x in fold])
        elif k == "tables":
            yield from show_tables(user, W, st, op, n0, via)
        elif k in ("columns", "describe", "fields"):
            yield from show_columns(user, W, st, op, n0, via)
        elif k == "select":
            yield from select(user, W, st, op, n0, via)
        elif k == "variables":
            if st["vars"] is None:
                r = yield from ask(W, "show variables")
                st["vars"] = [tuple(x) for x in rows_of(r, "show variables")]
                expect(len({x[0] for x in st["vars"]}) == len(st["vars"]) > 10, "c16/variables", "%d variables" % len(st["vars"]))
            names = sorted(x[0] for x in st["vars"])
            p = pattern(names, [op[1][0] * 7] + op[1][1:]) if op[1] else None
            sql = ["show variables", "SHOW SESSION VARIABLES", "show  variables"][op[2] % 3] + filt_sql(p)
            r = yield from ask(W, sql, via)
            got = [x for x in rows_of(r, sql) if x[0] not in ("timestamp",)]
            want, fold = selected([{"n": x[0], "v": x[1]} for x in st["vars"] if x[0] != "timestamp"], p, "n")
            seen(st, "show-variables", bool(p), len(want), len(names))
            compare(sql, got, [[x["n"], x["v"]] for x in want], fold=fold and [[x["n"], x["v"]] for x in fold])
        elif k == "index":
            ts = [(d, t) for dbs in m.cats.values() for d, x in dbs.items() for t in x if d]
            if ts:
                d, t = ts[op[1] % len(ts)]
                r = yield from ask(W, "show index from `%s` from `%s`" % (t, d))
                expect(failed_now(user, r, n0) or not rows_of(r, "show index"), "c16/extra", "show index: %r" % r)

    def show_tables(user, W, st, op, n0, via):
        m = st["m"]
        _, explicit, dk, filt, q, _ = op
        rows = m.rows("tables")
        all_dbs = sorted({x["table_schema"] for x in rows if x["table_schema"]} | {d for d in m.dbs() if d}) + ["no_such_db"]
        db = all_dbs[dk % len(all_dbs)] if explicit else st["db"]
        rows = [x for x in rows if x["table_schema"] == (db or "")]
        p = pattern([x["table_name"] for x in rows] or ["t"], filt) if filt else None
        full = q % 4 == 1
        sql = "show %stables" % ("full " if full else "")
        if explicit:
            sql += " %s %s" % (["from", "in", "FROM"][(q // 4) % 3], ident(db, q // 12))
        sql += filt_sql(p)
        r = yield from ask(W, sql, via)
        if failed_now(user, r, n0):
            return
        want, fold = selected(rows, p, "table_name")
        if m.depth == 2 and db not in ("information_schema", "mysql"):
            # no database level: nothing to compare with, but nothing undeclared either
            if r["kind"] == "rs" and not r["err"]:
                names = set(m.cats["def"][""])
                expect(all(x[0] in names for x in r["rows"]), "c16/extra", "%s: %r" % (sql, r["rows"][:5]))
            return
        if not db:
            expect(r["kind"] == "err", "c16/no-database", "%s without a current database: %r" % (sql, r))
            o.probes["no-database"] += 1
            return
        got = rows_of(r, sql)
        seen(st, "show-tables", bool(p), len(want), len(m.rows("tables")))
        if m.shared():
            expect({x[0] for x in got} in ({x["table_name"] for x in want}, {x["table_name"] for x in fold or want}), "c16/tables", "%s: %r" % (sql, got[:5]))
            return
        compare("%s (in %r)" % (sql, st["db"]), [x[:1] for x in got], [[x["table_name"]] for x in want], fold=fold and [[x["table_name"]] for x in fold])
        if full:
            builtin = db in ("information_schema", "mysql")
            for x in got:
                expect(len(x) == 2 and (x[1] != "BASE TABLE") == builtin, "c16/table-type", "%s: %r" % (sql, x))

    def show_columns(user, W, st, op, n0, via):
        m = st["m"]
        k = op[0]
        rows = m.rows("columns")
        q = op[-2] if k != "fields" else 0
        explicit = op[1] if k != "fields" else False
        tk = op[2] if k != "fields" else op[1]
        filt = op[3] if k == "columns" else op[2] if k == "fields" else None
        every = [(x["table_schema"], x["table_name"]) for x in m.rows("tables")]
        mine = [x for x in every if x[0] not in ("information_schema", "mysql")]
        if tk % 5 and mine:
            every = mine
        if m.depth != 2 and not explicit:
            if st["db"]:
                every = [x for x in every if x[0] == st["db"]] or [(st["db"], "no_such_table")]
            else:
                # a name without a database means something only if it is unique
                names = [x[1] for x in m.rows("tables") for x in [(x["table_schema"], x["table_name"])]]
                every = [x for x in every if names.count(x[1]) == 1]
        if not every:
            return
        d, t = every[tk % len(every)]
        if m.depth == 2:
            if d == "":
                explicit = False  # there is no name for its database
            if not explicit and st["db"] and d != st["db"]:
                return
            if not explicit and not st["db"] and sum(x["table_name"] == t for x in m.rows("tables")) != 1:
                return
        rows = [x for x in rows if (x["table_schema"], x["table_name"]) == (d, t)]
        p = pattern([x["column_name"] for x in rows] or ["c"], filt) if filt else None
        full = False
        if k == "fields":
            W.command(wire.COM_FIELD_LIST, t.encode() + b"\0" + (p or "").encode())
            r = yield from W.read_field_list()
            what = "COM_FIELD_LIST %s %r" % (t, p)
            if failed.get(user, 0) > n0:
                expect(r["err"], "c16/schema-failed", repr(r))
                return
            if r["err"]:
                raise Violation("c16/answer", "%s in %r: %r" % (what, st["db"], r["err"]))
            for col in r["cols"]:
                expect(col["type"] in wire.TNAME, "c16/column-definition", repr(col))
                expect(col["table"].decode() == t, "c16/field-list-table", "%s: %r" % (what, col))
            got = [[x["name"].decode()] for x in r["cols"]]
            p = p or None
        else:
            full = k == "columns" and q % 4 == 1
            tn, dn = ident(t, q // 4), ident(d, q // 12)
            if k == "describe":
                sql = "%s %s%s" % (["describe", "desc", "DESCRIBE"][q % 3], dn + "." if explicit else "", tn)
            else:
                sql = "show %scolumns %s " % ("full " if full else "", ["from", "in"][(q // 8) % 2])
                if explicit:
                    sql += ["%s from %s" % (tn, dn), "%s in %s" % (tn, dn), "%s.%s" % (dn, tn)][(q // 16) % 3]
                else:
                    sql += tn
                sql += filt_sql(p)
            r = yield from ask(W, sql, via)
            what = sql
            if failed_now(user, r, n0):
                return
            full_rows = rows_of(r, "%s (in %r)" % (sql, st["db"]))
            names = [x["name"].decode() for x in r["cols"]]
            expect(names[:6] == ["Field", "Type", "Null", "Key", "Default", "Extra"] or full and names[:2] == ["Field", "Type"],
                   "c16/heading", "%s: %r" % (sql, names))
            got = [x[:2] for x in full_rows]
        want, fold = selected(rows, p, "column_name")
        seen(st, k if k != "columns" else "show-columns", p is not None, len(want), len(rows))

        def cut(rs):
            return rs and [[x["column_name"]] + ([x["data_type"]] if k != "fields" else []) for x in rs]

        if m.shared():
            return
        compare("%s (in %r)" % (what, st["db"]), got, cut(want), fold=cut(fold), ordered=True)

    COLS = {"schemata": ["catalog_name", "schema_name"], "tables": ["table_catalog", "table_schema", "table_name"],
            "columns": ["table_catalog", "table_schema", "table_name", "column_name", "data_type", "column_type"]}

    def select(user, W, st, op, n0, via):
        m = st["m"]
        _, kind, where, q, _, shape = op
        kind = kind if kind in COLS else "tables"
        shape = shape if kind == "columns" or shape in ("plain", "count") else "plain"
        rows = m.rows(kind)
        cols = COLS[kind]
        conds = []
        want = rows
        fold = rows
        text = ""
        for j, (ck, cop, pat, vk, conj) in enumerate(where):
            col = cols[ck % len(cols)]
            vals = sorted({x[col] for x in rows if x[col] and "'" not in x[col]}) or ["a"]
            if cop in ("like", "not like"):
                p = pattern(vals, pat)
                lit = "'%s'" % p
                f = lambda v, p=p, c=cop: like(p, v) == (c == "like")
                g = lambda v, p=p, c=cop: like(p.lower(), v.lower()) == (c == "like")
            elif cop in ("in", "not in"):
                s = [vals[(vk + y) % len(vals)] for y in range(1 + vk % 3)]
                lit = "(%s)" % ", ".join("'%s'" % y for y in s)
                f = lambda v, s=s, c=cop: (v in s) == (c == "in")
                g = f
            else:
                x = vals[vk % len(vals)]
                lit = "'%s'" % x
                f = lambda v, x=x, c=cop: (v == x) == (c == "=")
                g = f
            name = [col, "`%s`" % col, col.upper()][(q + j) % 3]
            if vk % 11 == 3:
                coll = " collate " + ["utf8mb4_bin", "utf8mb4_general_ci", "'utf8mb4_bin'"][q % 3]
                if q % 2 or "in" in cop:
                    name += coll
                else:
                    lit += coll
            text += " %s %s %s %s" % ("where" if not j else conj, name, cop, lit)
            conds.append((col, f, g, conj))

        def keep(x, which):
            """AND binds tighter than OR."""
            groups = []
            for j, (col, f, g, conj) in enumerate(conds):
                ok = (f, g)[which](x[col])
                if not j or conj == "or":
                    groups.append(ok)
                else:
                    groups[-1] = groups[-1] and ok
            return not conds or any(groups)

        want = [x for x in rows if keep(x, 0)]
        fold = [x for x in rows if keep(x, 1)]
        src = ["information_schema.%s", "INFORMATION_SCHEMA.%s", "information_schema.`%s`", "`information_schema`.%s"][q % 4] % (kind.upper() if q % 5 == 1 else kind)
        if st["db"] == "information_schema" and q % 2:
            src = kind
        if shape == "count":
            sql = "select count(*) from %s%s" % (src, text)
        elif shape == "group":
            sql = "select table_schema, count(*) as n from %s%s group by table_schema" % (src, text)
        elif shape == "ordinal":
            sql = "select table_schema, table_name, column_name, ordinal_position from %s%s" % (src, text)
        else:
            pick = [cols[(q + j) % len(cols)] for j in range(1 + q % len(cols))]
            sql = "select %s from %s%s" % (", ".join(pick), src, text)
            if q % 7 == 5:
                sql += " order by " + ", ".join(pick)
        r = yield from ask(W, sql, via)
        if failed_now(user, r, n0):
            return
        got = rows_of(r, sql)
        seen(st, "select-" + kind + ("-" + shape if shape != "plain" else ""), bool(where), len(want), len(rows))
        if shape == "count":
            n = int(got[0][0]) if got else 0  # an executor without a row for an empty group
            expect(n in (len(want), len(fold)), "c16/count", "%s: %d, expected %d" % (sql, n, len(want)))
        elif shape == "group":
            a, b = [{d: sum(x["table_schema"] == d for x in s) for d in {x["table_schema"] for x in s}} for s in (want, fold)]
            expect({x[0]: int(x[1]) for x in got} in (a, b) and len(got) in (len(a), len(b)), "c16/count", "%s: %r, expected %r" % (sql, got[:8], a))
        elif shape == "ordinal":
            have = [(x[0], x[1], x[2]) for x in sorted(got, key=lambda x: int(x[3]))]
            if m.shared():
                return
            for s in (want, fold):
                ok = len(got) == len(s)
                order = {}
                for x in s:
                    order.setdefault((x["table_schema"], x["table_name"]), []).append(x["column_name"])
                mine = {}
                for x in have:
                    mine.setdefault(x[:2], []).append(x[2])
                if ok and mine == order:
                    break
            else:
                raise Violation("c16/ordinal", "%s: columns by ordinal_position %r, declared %r" % (sql, [x for x in mine.items() if order.get(x[0]) != x[1]][:3],
                                                                                                 [x for x in order.items() if mine.get(x[0]) != x[1]][:3]))
            pos = {}
            for x in got:
                pos.setdefault((x[0], x[1]), []).append(int(x[3]))
            first = {min(v) for v in pos.values()}
            expect(all(len(set(v)) == len(v) for v in pos.values()), "c16/ordinal", "%s: repeated positions" % sql)
            if not conds:
                expect(first <= {0} or first <= {1}, "c16/ordinal", "%s: first positions %r" % (sql, first))
                expect(all(max(v) - min(v) == len(v) - 1 for v in pos.values()), "c16/ordinal", "%s: gaps %r" % (sql, list(pos.items())[:4]))
        else:
            expect([x["name"].decode().lower() for x in r["cols"]] == pick, "c16/heading", "%s: %r" % (sql, [x["name"] for x in r["cols"]]))
            if "order by" in sql:
                expect(all(None in x or None in y or x <= y or [z.lower() for z in x] <= [z.lower() for z in y] for x, y in zip(got, got[1:])),
                       "c16/order", "%s: %r" % (sql, got[:12]))
            compare(sql, got, [[x[y] for y in pick] for x in want], fold=[[x[y] for y in pick] for x in fold])

    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    w.run(std_server(app))
    unfinished(w, "c16")
    return finish(o, w)
