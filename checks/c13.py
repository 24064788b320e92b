"""C13: the application sees exactly the statements it must handle, once, in order."""
import re

from checks.common import *

ID = "C13"
LEVEL = "exploration"
QUICK_RUNS = 2500
THOROUGH_RUNS = 400000
RULE = ("A run is 1-3 concurrent clients that send generated texts of 1-6 statements (built-ins of every kind, FROM-less selects, "
        "catalog queries, queries over user tables, mixed ones, DML, DDL, EXPLAIN, hinted statements; any order, case, comments, empty "
        "statements, semicolons inside literals) as COM_QUERY or prepared statements with query attributes, between default-database "
        "changes by handshake, COM_INIT_DB, USE and COM_CHANGE_USER, some refused by the application; application callbacks are parked "
        "by the scheduler, fail, or the client vanishes. A model of routing decides which statements reach the application; the log of "
        "its calls (text, attributes, default database) and the client's result are compared with it. Non-trivial: one text contained "
        "both kinds of statements or the default database had changed.")
STATE_RULE = "(statement template, routed to, position in its text, default database class, how it was sent)"

# Each template carries a marker {m}, so that results and calls can be told apart.
# {T}/{U}: user tables; {C}/{D}: catalog tables.
APP = [
    "select {m} from {T}", "select a, {m} from {T} where a = 'x;use db3' order by 1 limit 3", "select t.a, {m} from {T} as t join {U} as u on t.a = u.a",
    "select {m} from (select a from {T}) as x", "select {m} from {T} where a in (select a from {U})", "select {m} from {T} union select a from {U}",
    "select a from {T} union all select {m} from {U}", "select {m} from {T} intersect select a from {U}", "select {m} from {T} except select a from {U}",
    "select {m} from {T} except select table_name from {C}", "select table_name from {C} intersect select {m} from {T}", "(select {m} from {T})", "explain (select {m} from {T})", "select {m} from {T} where a in (select table_name from {C})",
    "select {m} from {T} as t, {C} as c", "select c.table_name, {m} from {C} as c left join {T} as t on t.a = c.table_name",
    "select {m} from {C} where table_name in (select a from {T})", "select {m} from (select table_name from {C}) as x join {T} as t on t.a = x.table_name",
    "select table_name from {C} union select {m} from {T}", "with x as (select a from {T}) select {m} from x",
    "with x as (select table_name from {C}) select {m} from x join {T} as t on x.table_name = t.a",
    "select {m} from {T} for update", "select distinct a from {T} where b = {m} group by a having count(*) > 1",
    "select /*+ SET_VAR(sql_mode = 'x') */ {m} from {T}", "select @@version, {m} from {T}", "select database(), now(), {m} from {T}",
    "insert into {T} values ({m}, 'a;b')", "insert into {T} (a) select table_name from {C} where 1 = {m}", "insert into {T} select * from {U} where a = {m}",
    "update {T} set a = {m} where b = 1", "delete from {T} where a = {m}", "replace into {T} values ({m})",
    "create table db1.n{m} (a int)", "create table db1.n{m} as select * from {C}", "drop table db1.n{m}", "alter table db1.n{m} add column b int", "truncate table db1.n{m}",
    "create view db1.v{m} as select * from {C}", "create database d{m}", "drop database d{m}",
    "explain select {m} from {T}", "describe select {m} from {T}", "desc select {m} from {T}", "explain select {m} from {T} union select a from {U}",
    "explain update {T} set a = {m}", "explain delete from {T} where a = {m}",
    "call p{m}(1)", "analyze table n{m}", "grant select on db1.n{m} to u", "lock tables n{m} read", "optimize table n{m}",
    "select {m} from `{Tq}`", "select '{m}' from {T} where a = \"use db2\"", "select {m} as `select` from {T}", "select information_schema.a, {m} from {T} as information_schema",
    "select {m} from db2.tables", "select {m} from db1.`columns`", "select (select max(a) from {T}) + {m}", "select {m} where exists (select * from {T})",
    "select {m} from {T} -- use db2", "select {m} /* ; use db2; */ from {T}", "select {m} from {T} where a like 'show tables;%'",
    "select {m}, (select count(*) from {C}) from {T}", "select {m} from {T} where exists (select 1 from {C})",
    "describe (select {m} from {T})", "desc (select {m} from {T})", "explain insert into {T} values ({m})", "explain analyze select {m} from {T}",
    "explain format=json select {m} from {T}", "savepoint s{m}", "insert into {T} values ({m}) on duplicate key update a = 2", "insert ignore into {T} values ({m})",
    "create index i{m} on {T} (a)", "drop index i{m} on t1", "create user u{m}", "create trigger g{m} before insert on {T} for each row set new.a = 1",
    "with x as (select a from {T}) delete from {T} where a in (select {m} from x)", "with x as (select a from {T}) update {T} set a = {m}",
    "create temporary table n{m} (a int)", "create or replace view db1.v{m} as select a from {T}", "select {m} into @a from {T}", "call p{m}()", "unlock tables /*{m}*/",
    "prepare s{m} from 'use db1; select 1'", "execute s{m}", "select {m} from {T} lock in share mode",
    "alter table db1.n{m} rename to db1.x", "drop table if exists db1.n{m}", "select {m} from {T} as a, {T} as b, {U} as c",
    # these have no place for a marker
    "unlock tables", "analyze", "optimize", "call", "grant", "vacuum", "flush tables", "revoke", "lock tables",
]
# answered by the library
LIB = [
    ("set autocommit = {b}", "ok"), ("set @@session.autocommit = {b}", "ok"), ("set session sql_mode = 'm{m}'", "ok"), ("set @@sql_mode = 'set;names'", "ok"),
    ("set local net_write_timeout = {m}, autocommit = {b}", "ok"), ("set names utf8mb4", "ok"), ("set names 'utf8mb4' collate 'utf8mb4_bin'", "ok"),
    ("set character set utf8mb4", "ok"), ("set transaction isolation level read committed", "ok"), ("set session transaction read only", "ok"),
    ("show databases", "rs"), ("show schemas", "rs"), ("show tables from db1", "rs"), ("show full tables from db1", "rs"), ("show tables from information_schema", "rs"),
    ("show columns from t1 from db1", "rs"), ("show full columns from t1 from db1", "rs"), ("show columns from db1.t1", "any"), ("show variables", "rs"),
    ("show session variables like 'a%'", "rs"), ("show variables like 'version'", "rs"), ("show status", "rs"), ("show warnings", "rs"), ("show errors", "rs"),
    ("show index from t1 from db1", "rs"), ("show databases like 'db%'", "rs"), ("show tables from db2 like '%;%'", "rs"),
    ("describe t1", "rs"), ("desc t1", "rs"), ("describe db1.t1", "rs"), ("describe `t1`", "rs"),
    ("begin", "ok"), ("start transaction", "ok"), ("commit", "ok"), ("rollback", "ok"), ("start transaction read only", "any"), ("commit work", "ok"), ("commit and chain", "ok"), ("commit and no chain", "ok"), ("rollback work", "ok"), ("rollback and no chain", "ok"), ("begin work", "ok"),
    ("select {m}", "marker"), ("select {m} as a, 'x;y' as b", "marker"), ("select {m} + 0", "marker"), ("select {m} limit 1", "marker"),
    ("select {m} where 1 = 1", "marker"), ("select {m} order by 1", "marker"), ("select {m}, @@version", "marker"), ("select {m}, connection_id()", "marker"),
    ("select {m}, now(), user(), database()", "marker"), ("select {m}, 'select 1 from t1'", "marker"), ("select /*+ SET_VAR(autocommit = 1) */ {m}", "marker"),
    ("select /* from t1 */ {m}", "marker"), ("select {m} -- from t1", "marker"), ("select {m}, current_timestamp", "marker"), ("select distinct {m}", "marker"),
    ("select {m} from {C} limit 1", "marker"), ("select {m}, table_name from {C} where table_name = 't1' limit 1", "marker"),
    ("select {m} from {C} as x limit 1", "marker"), ("select {m} from INFORMATION_SCHEMA.TABLES limit 1", "marker"), ("select {m} from information_schema.`schemata` limit 1", "marker"),
    ("select {m} from {C} where table_name in (select table_name from {D}) limit 1", "any"), ("select {m} from mysql.user", "rs"),
    ("select {m} from {C} as a join {D} as b on a.table_name = b.table_name limit 1", "marker"),
    ("select {m} from (select table_name from {C}) as x limit 1", "marker"), ("with x as (select table_name from {C}) select {m} from x limit 1", "marker"),
    ("select {m}, count(*) from {C}", "any"), ("select table_name from {C} where table_name = 't1' union select schema_name from information_schema.schemata", "rs"),
    ("select /*+ SET_VAR(sql_mode = 'y') */ {m} from {C} limit 1", "marker"),
    ("kill {far}", "any"), ("kill query {far}", "any"), ("kill connection {far}", "any"),
    ("show create table t1", "any"), ("show engines", "any"), ("show processlist", "any"), ("show grants", "any"), ("show table status", "any"),
    ("show collation", "any"), ("show character set", "any"), ("set global autocommit = 1", "any"), ("set no_such_variable = {m}", "any"), ("set version = '{m}'", "any"),
    ("set @user_var = {m}", "any"), ("set password = 'x'", "any"), ("select no_such_function_{m}(1)", "any"), ("show tables from nodb", "any"),
]
SELECT = [t for t, _ in LIB].index("select {m}")
DBS = ["db1", "db2", "db3", "information_schema", "mysql", "INFORMATION_SCHEMA"]
CATALOG = {"information_schema", "mysql"}
SEPS = [";", "; ", " ;\n", ";;", "; ; ", ";/* x */", ";\t"]
EXCS = ["mysql", "value", "key", "timeout", "os"]


USER_T = ["db1.t1", "db2.t2", "db1.columns", "db2.tables", "`db1`.`t1`", "db3.nowhere"]
CAT_T = ["information_schema.tables", "INFORMATION_SCHEMA.columns", "information_schema.`schemata`", "mysql.user", "`information_schema`.`tables`"]


def gen_select(rng, depth, bias, ctes):
    """A query as a tree; every source is a table of the pool, a subquery, a CTE, or an unqualified table."""
    sel = {"src": [], "cte": None, "where": None, "union": None}
    if depth and rng.random() < 0.25:
        sel["cte"] = [rng.choice(["x", "t1", "tables", "y"]), gen_select(rng, depth - 1, bias, ctes)]
        ctes = ctes + [sel["cte"][0]]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if depth and r < 0.3:
            sel["src"].append(["sub", gen_select(rng, depth - 1, bias, ctes)])
        elif ctes and r < 0.55:
            sel["src"].append(["cte", rng.choice(ctes)])
        elif r < 0.7:
            sel["src"].append(["plain", rng.choice(["t1", "tables", "columns"])])
        else:
            sel["src"].append(["user" if rng.random() < bias else "cat", rng.randrange(8)])
    sel["join"] = [rng.choice([", ", " join ", " left join ", " inner join "]) for _ in sel["src"]]
    if depth and rng.random() < 0.3:
        sel["where"] = [rng.choice(["in", "exists", "scalar"]), gen_select(rng, depth - 1, bias, ctes)]
    if depth and rng.random() < 0.15:
        sel["union"] = [rng.choice(["union", "union all", "union", "except", "intersect"]), gen_select(rng, depth - 1, bias, ctes)]
    return sel


class Render:
    def __init__(self, marker, db, bits):
        self.m, self.n, self.user, self.cat = marker, 0, 0, 0
        self.catalog = (db or "").lower() in CATALOG
        self.db = db

    def select(self, s, ctes, top=False):
        out = ""
        if s["cte"]:
            out = "with %s as (%s) " % (s["cte"][0], self.select(s["cte"][1], ctes))
            ctes = ctes + [s["cte"][0]]
        parts = []
        for j, src in enumerate(s["src"]):
            self.n += 1
            a = "s%d" % self.n
            kind = src[0]
            if kind == "cte" and src[1] not in ctes:
                kind, src = "user", ["user", 0]
            if kind == "plain" and (src[1] in ctes or (not self.db)):
                kind, src = "user", ["user", 0]
            if kind == "sub":
                t = "(%s)" % self.select(src[1], ctes)
            elif kind in ("cte", "plain"):
                t = src[1]
                if kind == "plain":
                    if self.catalog:
                        self.cat += 1
                    else:
                        self.user += 1
            elif kind == "user":
                t = USER_T[src[1] % len(USER_T)]
                self.user += 1
            else:
                t = CAT_T[src[1] % len(CAT_T)]
                self.cat += 1
            parts.append((a, t, kind, s["join"][j]))
        first = parts[0][0]
        sql = "select %s as a from " % (self.m if top else first + ".a" if parts[0][2] in ("sub", "cte") else "1")
        for j, (a, t, kind, join) in enumerate(parts):
            if j:
                sql += join
            sql += "%s as %s" % (t, a)
            if j and join != ", ":
                sql += " on %s.a = %s.a" % (first, a)
        if s["where"]:
            sub = self.select(s["where"][1], ctes)
            sql += {"in": " where %s.a in (%s)", "exists": " where %s.a = 1 and exists (%s)", "scalar": " where %s.a < (%s)"}[s["where"][0]] % (first, sub)
        if s["union"]:
            sql += " %s %s" % (s["union"][0], self.select(dict(s["union"][1], cte=None), ctes))
        return out + sql


def cost(s, ctes):
    """About how many rows the joins of a tree of catalog tables have to be made from."""
    if s["cte"]:
        ctes = dict(ctes, **{s["cte"][0]: cost(s["cte"][1], ctes)})
    n = 1
    for src in s["src"]:
        n *= cost(src[1], ctes) if src[0] == "sub" else ctes.get(src[1], 600)
    for k in ("where", "union"):
        if s[k]:
            n = n * cost(s[k][1], ctes) if k == "where" and s[k][0] != "in" else n + cost(s[k][1], ctes)
    return n


def gen_stmt(rng, mix):
    r = rng.random()
    if r > 0.8:
        return ["tree", gen_select(rng, rng.choice([1, 2, 2, 3]), rng.choice([0.05, 0.3, 0.7]), []), rng.randrange(64), rng.randrange(6)]
    if r < 0.12:
        return ["use", rng.randrange(len(DBS)), rng.randrange(3), rng.randrange(3)]
    if r < 0.12 + mix:
        return ["app", rng.randrange(len(APP)), rng.randrange(64), rng.randrange(3)]
    return ["lib", rng.randrange(len(LIB)), rng.randrange(64), rng.randrange(3)]


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "clients": [], "gates": rng.sample(["query", "use", "schema", "handle_query"], rng.choice([0, 0, 1, 2])), "fails": [], "usefails": []}
    if rng.random() < 0.2:
        sc["fails"] = [[rng.randrange(12), rng.choice(EXCS)] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.15:
        sc["usefails"] = sorted({rng.randrange(6) for _ in range(2)})
    for _ in range(rng.choice([1, 1, 2, 3])):
        prog = []
        mix = rng.choice([0.2, 0.5, 0.8])
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.1:
                prog.append(["initdb", rng.randrange(len(DBS))])
            elif r < 0.15:
                prog.append(["chuser", rng.choice([None, 0, 1, 2, 3])])
            elif r < 0.18:
                prog.append(["reset"])
            elif r < 0.2:
                prog.append(["empty", rng.choice(["", ";", " ; ;", "-- nothing", "/* nothing */"])])
            elif r < 0.25:
                prog.append(["resend", rng.choice(["query", "query", "prep"])])
            else:
                n = rng.choice([1, 1, 1, 2, 2, 3, 4, 6])
                stmts = [gen_stmt(rng, mix) for _ in range(n)]
                if rng.random() < 0.015:  # long texts, of short statements
                    small = [["app", 0, 1, 0], ["app", 0, 0, 1], ["lib", SELECT, 0, 0], ["lib", 0, 0, 0], ["use", 0, 0, 0], ["use", 1, 0, 0]]
                    n = rng.choice([17, 33, 65, 101])
                    stmts = [rng.choice(small) for _ in range(n)]
                if rng.random() < 0.15:
                    stmts.insert(rng.randint(1, n), ["again"])
                prog.append(["text", stmts, rng.randrange(1 << 16), rng.choice(["query", "query", "prep", "prepcur"]), rng.choice([0, 0, 1, 3])])
        cl = {"net": gen_net(rng), "caps": gen_caps(rng), "db": rng.choice([None, None, 0, 1, 3, 5]), "prog": prog, "fault": None}
        if rng.random() < 0.08:
            cl["fault"] = ["after_sent", rng.randint(150, 900), rng.choice(["fin", "rst"])]
        sc["clients"].append(cl)
    return sc


def upcase(s, mode):
    """Change the case of the keywords of a template, not of literals, names, hints and markers."""
    if mode == 0:
        return s
    out = []
    for part in re.split(r"('[^']*'|\"[^\"]*\"|`[^`]*`|/\*.*?\*/|--.*)", s):
        if part[:1] in "'\"`" or part[:2] in ("/*", "--"):
            out.append(part)
            continue
        out.append(re.sub(r"(?<![\w.{@])(select|from|where|set|show|use|kill|describe|desc|explain|union|insert|into|update|delete|tables|databases|names|begin|"
                          r"commit|rollback|start|transaction|join|on|limit|variables|like|query|columns)(?![\w.(}])",
                          lambda m: m.group(0).upper() if mode == 1 else m.group(0).title(), part))
    return "".join(out)


class Model:
    def __init__(self, db):
        self.db = db

    @property
    def catalog(self):
        return (self.db or "").lower() in CATALOG


def build(st, marker, m, cid):
    """-> (sql, kind, expectation): kind is app, ok, rs, marker or any"""
    if st[0] == "use":
        db = DBS[st[1] % len(DBS)]
        sql = ["use %s", "use `%s`", "USE %s"][st[2] % 3] % db
        return sql, "use", db
    if st[0] == "tree":
        rd = Render(marker, m.db, st[2])
        sql = rd.select(st[1], [], True)
        if not rd.user and cost(st[1], {}) > 1e6:
            return "select %d" % marker, "marker", marker  # joins of catalog tables are computed by SQLGlot: keep them small
        if st[3] == 1 and "with" not in sql:
            return "insert into db1.n1 " + sql, "app", marker
        if st[3] == 2 and rd.user:
            return "explain " + sql, "app", marker
        if st[3] == 3:
            return "create table db1.n%d as %s" % (marker, sql), "app", marker
        return sql, "app" if rd.user else "any" if rd.cat else "skip", marker
    bits = st[2]
    user = "db1.t1" if m.catalog or bits & 1 or not m.db else "t1"
    other = "db2.t2" if m.catalog or bits & 2 else "t2"
    if not m.db and not bits & 4:
        user, other = "t1", "t2"
    cat = "information_schema.tables"
    cat2 = "information_schema.columns"
    if (m.db or "").lower() == "information_schema" and bits & 8:
        cat = "tables"
    if (m.db or "").lower() == "information_schema" and bits & 16:
        cat2 = "columns"
    tmpl, kind = (APP[st[1] % len(APP)], "app") if st[0] == "app" else LIB[st[1] % len(LIB)]
    if "{Tq}" in tmpl and m.catalog:
        tmpl = tmpl.replace("`{Tq}`", "db1.`{Tq}`")
    if st[0] == "app" and m.catalog and re.search(r"table n|tables n|procedure|from x", tmpl):
        pass
    sql = upcase(tmpl, st[3]).format(m=marker, T=user, U=other, C=cat, D=cat2, Tq="t1", b=bits & 1, far=(cid ^ 0x5A5A0000) + (bits << 8))
    if kind == "rs" and re.match(r"(desc|describe|explain) `?t1", tmpl) and (m.db or "") != "db1":
        kind = "any"
    if sql.rstrip().find("-- ") > 0:
        sql += "\n"
    if kind == "app" and "{m}" not in tmpl:
        marker = sql.upper()
    return sql, kind, marker


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"gates": sc["gates"], "schema": {"db1": {"t1": {"a": "INT", "b": "INT"}, "columns": {"a": "INT"}}, "db2": {"t2": {"a": "INT"}, "tables": {"a": "INT"}}},
                  "faults": [["use", n, "mysql"] for n in sc["usefails"]]})
    marks = [9000000]
    fails = {9000000 + n: e for n, e in sc["fails"]}
    calls = {}  # user -> [(marker, sql, attrs, database)]

    async def answer(sess, expression, sql, attrs):
        text_ = expression.sql(dialect="mysql")
        mm = re.search(r"9\d{6}", text_)
        k = int(mm.group(0)) if mm else None
        calls.setdefault(sess.username, []).append((k or re.sub(r" AS ", " ", text_.upper()).strip(" `"), sql, dict(attrs), sess.database, text_))
        if k in fails:
            w.count("app_exc_query")
            raise EXC[fails[k]]()
        if k is None or k % 5 == 0:
            return None
        return [(k,)], [ResultColumn("m", ColumnType.LONGLONG)]

    app.answer_fn = answer

    def script(ci, cl):
        def go(c):
            try:
                yield from body(c)
            except Closed:
                if cl["fault"] is None:
                    raise
                # what had been sent reached the application completely, partly or not at all, never anything else
                check_calls(c, partial=True)
                o.probes["vanished"] += 1

        def check_calls(c, partial=False):
            got = calls.get(c.user, [])[c.seen:]
            want = c.want
            c.seen += len(got)
            c.want = []
            for j, g in enumerate(got):
                if j >= len(want):
                    raise Violation("c13/extra-call", "the application received %r, expected %r\n  text %r" % (g[4], [x[0] for x in want], c.sql))
                k, sql, attrs, db = want[j]
                if g[0] != k:
                    raise Violation("c13/wrong-statement", "call %d is %r, expected marker %r of %r\n  text %r" % (j, g[4], k, [x[0] for x in want], c.sql))
                if g[1] != sql:
                    raise Violation("c13/sql-altered", "application got text %r, the client sent %r" % (g[1], sql))
                if g[2] != attrs:
                    raise Violation("c13/attrs", "application got attributes %r, the client sent %r" % (g[2], attrs))
                if (g[3] or None) != (db or None):
                    raise Violation("c13/database", "application saw default database %r, the client selected %r\n  text %r" % (g[3], db, c.sql))
            if not partial and len(got) < len(want):
                raise Violation("c13/missing-call", "the application received %r of %r\n  text %r" % ([g[0] for g in got], [x[0] for x in want], c.sql))

        def body(c):
            W = Wire(c)
            yield GO
            c.user = "u%d" % ci
            c.seen = 0
            c.want = []
            c.sql = None
            c.last = None
            db = None if cl["db"] is None else DBS[cl["db"] % len(DBS)]
            f = cl["fault"]
            r = yield from login(c, W, user=c.user.encode(), caps=cl["caps"], db=None if db is None else db.encode())
            expect(r["kind"] == "ok", "c13/login", repr(r))
            m = Model(db)
            cid = c.cid = [s.cid for s in app.sessions if s.username == c.user][-1]
            if f and f[0] == "after_sent":
                c.fail_after = (max(f[1], c.sent_bytes), f[2])
            changes = 0
            for op in cl["prog"]:
                yield GO
                if op[0] == "initdb":
                    d = DBS[op[1] % len(DBS)]
                    W.command(wire.COM_INIT_DB, d.encode())
                    r = yield from W.read_ok_err()
                    if r["kind"] == "ok":
                        m.db = d
                        changes += 1
                    else:
                        expect(sc["usefails"], "c13/init-db", repr(r))
                        o.probes["use-refused"] += 1
                elif op[0] == "chuser":
                    d = None if op[1] is None else DBS[op[1] % len(DBS)]
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(c.user.encode(), b"", (d or "").encode(), 255, b"mysql_native_password"))
                    r = yield from W.finish_auth(lambda *a: b"")
                    expect(r["kind"] == "ok", "c13/change-user", repr(r))
                    m.db = d
                    changes += 1
                elif op[0] == "reset":
                    W.command(wire.COM_RESET_CONNECTION)
                    r = yield from W.read_ok_err()
                    expect(r["kind"] == "ok", "c13/reset", repr(r))
                elif op[0] == "empty":
                    W.command(wire.COM_QUERY, W.query_body(op[1].encode()))
                    c.sql = op[1]
                    yield from W.read_ok_err()
                    check_calls(c)
                else:
                    yield from one(c, W, m, op, cid, changes)
            yield GO
            yield QUIESCE
            check_calls(c)  # nothing arrives afterwards

        def one(c, W, m, op, cid, changes):
            _, stmts, sepbits, how, nattr = op if op[0] != "resend" else (0, [], 0, op[1], 1)
            parts, plan = [], []
            tm = Model(m.db)
            attrs, model_attrs = [], {}
            if W.caps & wire.QUERY_ATTRIBUTES:
                for j in range(nattr):
                    attrs.append((b"k%d" % j, wire.T["VAR_STRING"], False, wire.lstr(b"v%d" % marks[0])))
                    model_attrs["k%d" % j] = "v%d" % marks[0]
                    if (sepbits >> j) % 5 == 1:
                        attrs[-1] = attrs[-1][:3] + (None,)
                        model_attrs["k%d" % j] = None
            for st in stmts:
                if plan and plan[-1][0] == "any":
                    break  # it may be refused, nothing can be said about what follows
                if st[0] == "again":
                    # the same statement once more
                    if plan:
                        parts.append(parts[-1])
                        plan.append((plan[-1][0], plan[-1][1], tm.db, plan[-1][3]))
                    continue
                sql, kind, x = build(st, marks[0], tm, cid)
                marks[0] += 1
                if kind == "skip":
                    continue
                parts.append(sql)
                plan.append((kind, x, tm.db, st))
                if kind == "use":
                    tm.db = x
            if op[0] == "resend":
                # the same text once more
                if not c.last or c.last[2] != m.db:
                    return
                parts, plan, _, full = c.last
                o.probes["resent"] += 1
            if not parts:
                return
            seps = [SEPS[(sepbits >> (3 * j)) % len(SEPS)] for j in range(len(parts))]
            if op[0] != "resend":
                full = "".join(p + s for p, s in zip(parts, seps))
                if sepbits & 1:
                    full = full[:len(full) - len(seps[-1])]
                c.last = [parts, plan, m.db, full]
            c.sql = full
            kinds = {p[0] == "app" for p in plan}
            if len(kinds) > 1 or changes:
                o.nontrivial = True
            # what must reach the application
            stop = None
            c.want = []
            for j, (kind, x, dbnow, st) in enumerate(plan):
                o.states.add("%s%s p%d db:%s %s" % (st[0], st[1] if st[0] != "tree" else st[3], min(j, 3), "cat" if (dbnow or "").lower() in CATALOG else "user" if dbnow else "-", how))
                if kind == "app":
                    c.want.append((x, full, model_attrs, dbnow))
                    if x in fails:
                        stop = j
                        break
            nuse = app.cbcount.get("use", 0)
            ulog = len(app.log)
            if how == "query":
                W.command(wire.COM_QUERY, W.query_body(full.encode(), attrs))
                r = yield from W.read_resultset()
            else:
                W.command(wire.COM_STMT_PREPARE, full.encode())
                p = yield from W.read_prepare()
                if p["kind"] == "err":
                    raise Violation("c13/prepare", "%r: %r" % (full, p))
                check = calls.get(c.user, [])[c.seen:]
                expect(not check, "c13/prepared-executed", "preparing %r called the application" % full)
                if p["nparams"]:
                    raise Violation("c13/prepare", "%r has no parameters, announced %d" % (full, p["nparams"]))
                yield GO
                cur = how == "prepcur"
                W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"], (), attrs, cursor=cur))
                r = yield from W.read_resultset(binary=True, cursor=cur)
                if cur and r["kind"] == "rs" and not r["err"]:
                    W.command(wire.COM_STMT_FETCH, struct.pack("<II", p["id"], 1000))
                    fr = yield from W.read_fetch(r["cols"])
                    expect(not fr["err"], "c13/fetch", repr(fr["err"]))
                    r = dict(r, rows=fr["rows"])
            # a use() that the application refused ends the text
            mine = [e for e in app.log[ulog:] if e[0] == [s.sid for s in app.sessions if s.username == c.user][-1]]
            refused = any(e[1] == "raise" and e[2] == "use" for e in mine)
            err = r if r["kind"] == "err" else r.get("err")
            if refused:
                o.probes["use-refused"] += 1
                nu = sum(1 for e in mine if e[1] == "use")
                uses = [j for j, p in enumerate(plan) if p[0] == "use"]
                stop = uses[nu - 1]
                c.want = [x for x in c.want if x[0] in [p[1] for p in plan[:stop]]]
            check_calls(c)
            last = len(plan) if stop is None else stop
            for kind, x, dbnow, st in plan[:last]:
                if kind == "use":
                    m.db = x
            if stop is not None:
                expect(err, "c13/failure-hidden", "%r failed, the client got %r" % (parts[stop], r))
                return
            kind, x, _, st = plan[-1]
            o.probes["texts"] += 1
            o.probes["statements"] += len(plan)
            if kind == "any":
                return
            if err:
                raise Violation("c13/refused", "%r: %r" % (full, err))
            if kind in ("ok", "use"):
                expect(r["kind"] == "ok", "c13/result", "last statement %r, the client got %r" % (parts[-1], r))
            elif kind == "rs":
                expect(r["kind"] == "rs", "c13/result", "last statement %r, the client got %r" % (parts[-1], r))
            else:
                if kind == "app" and (isinstance(x, str) or x % 5 == 0):
                    expect(r["kind"] == "ok", "c13/result", "last statement %r, the client got %r" % (parts[-1], r))
                    return
                expect(r["kind"] == "rs" and r["rows"], "c13/result", "last statement %r, the client got %r" % (parts[-1], r))
                cells = [v.decode() if isinstance(v, bytes) else str(v) for v in r["rows"][0] if v is not None]
                if not any(str(x) in v for v in cells):
                    raise Violation("c13/result", "last statement %r (of %r), the client got %r" % (parts[-1], full, r["rows"][:2]))
        return go

    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    w.run(std_server(app))
    if not any(cl["fault"] for cl in sc["clients"]):
        unfinished(w, "c13")
    return finish(o, w)
