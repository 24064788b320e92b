"""C14: session variables against a reference model."""
import datetime as dt
import re

from checks.common import *
from dst import bootstrap

ID = "C14"
LEVEL = "exploration"
QUICK_RUNS = 2000
THOROUGH_RUNS = 400000
RULE = ("A run is 1-3 concurrent sessions running generated histories of assignments (every spelling, several per statement, SET NAMES / "
        "CHARACTER SET / TRANSACTION, values of the right and wrong type, DEFAULT, NULL, other variables, read-only and unknown names, "
        "other scopes), reads (@@ in every spelling, SHOW VARIABLES, VERSION(), USER(), the time functions, what the application sees), and statements with "
        "SET_VAR hints (several, nested, on failing, parked, killed, multi-statement and prepared statements), with wall-clock jumps, KILL QUERY by other sessions and "
        "COM_CHANGE_USER between them. An independent copy of the variable table predicts every read; a full SHOW VARIABLES after most "
        "operations finds changes that nobody asked for. Non-trivial: a hinted or refused statement was followed by a full comparison.")
STATE_RULE = "(operation kind and spelling, variable, kind of value, accepted or refused)"

# name: (type, default, writable)
BASE = {
    "auto_increment_increment": ("int", "1", 1), "autocommit": ("bool", "1", 1),
    "character_set_client": ("cs", "utf8mb4", 1), "character_set_connection": ("cs", "utf8mb4", 1), "character_set_database": ("cs", "utf8mb4", 1),
    "character_set_results": ("cs", "utf8mb4", 1), "character_set_server": ("cs", "utf8mb4", 1),
    "collation_connection": ("coll", "utf8mb4_general_ci", 1), "collation_database": ("coll", "utf8mb4_general_ci", 1), "collation_server": ("coll", "utf8mb4_general_ci", 1),
    "external_user": ("str", "", 0), "init_connect": ("str", "", 1), "interactive_timeout": ("int", "28800", 1), "license": ("str", "MIT", 0),
    "lower_case_table_names": ("int", "0", 1), "max_allowed_packet": ("int", "67108864", 1), "max_execution_time": ("int", "0", 1),
    "net_buffer_length": ("int", "16384", 1), "net_write_timeout": ("int", "28800", 1), "performance_schema": ("bool", "0", 0),
    "sql_auto_is_null": ("bool", "0", 1), "sql_mode": ("text", "ANSI", 1), "sql_select_limit": ("int", None, 1), "system_time_zone": ("str", "UTC", 0),
    "time_zone": ("tz", "UTC", 1), "transaction_read_only": ("bool", "0", 1), "transaction_isolation": ("iso", "READ-COMMITTED", 1),
    "version": ("str", "8.0.29", 0), "version_comment": ("str", "mysql-mimic", 0), "wait_timeout": ("int", "28800", 1),
    "event_scheduler": ("text", "OFF", 1), "default_storage_engine": ("text", "mysql-mimic", 1), "default_tmp_storage_engine": ("text", "mysql-mimic", 1),
}
CUSTOM = {"my_int": ("int", "5", 1), "my_flag": ("bool", "0", 1), "my_text": ("str", "x;y", 1), "my_ro": ("str", "fixed", 0), "my_ro_int": ("int", "9", 0), "my_on": ("bool", "1", 1)}
PYTYPE = {"int": int, "bool": bool}

INTS = [0, 1, 5, 255, 65535, 65536, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**62, 2**63 - 1]
ODD_INTS = [2**63, 2**64, 10**25]
STRS = ["", "a", "ANSI", "it's", 'say "x"', "set;names", "%_", "-- x", "/* x */", "@@autocommit", "DEFAULT", "NULL", "on", "x" * 300, "a\\b", "`", "\u00fc\u2603", "1", "0", " pad ", "now()"]
CSOK = ["utf8mb4", "latin1", "utf8", "ascii", "latin2", "greek", "cp1251", "gbk", "euckr", "big5", "koi8r"]
CSODD = ["nope", "", "dec8", "swe7", "LATIN1", "utf8mb3", "geostd8", "armscii8", "latin1 "]
COLL = ["utf8mb4_general_ci", "utf8mb4_bin", "latin1_swedish_ci", "utf8_general_ci", "ascii_bin", "greek_general_ci"]
COLLODD = ["nope", "", "utf8mb4", "UTF8MB4_BIN"]
TZOK = ["+00:00", "-05:00", "+05:30", "+12:59", "-11:45", "UTC", "+01:00", "-00:30"]
TZODD = ["SYSTEM", "Europe/Berlin", "", "+5:00", "+24:00", "+00:60", "-13:30", "utc", "+14:00", "05:00", "+05:30 ", "+0530", "\u0665", "+99:99", "MET", "+05:30\n", "+\u0661\u0660:00"]
ISO = ["READ-COMMITTED", "REPEATABLE-READ", "SERIALIZABLE", "READ-UNCOMMITTED"]
SPELL = ["set {n} = {v}", "set session {n} = {v}", "set local {n} = {v}", "set @@{n} = {v}", "set @@session.{n} = {v}", "set @@local.{n} = {v}", "set {n}={v}", "SET SESSION {N} = {v}", "SET @@SESSION.{N}={v}", "set `{n}` = {v}"]
ITEM = ["{n} = {v}", "session {n} = {v}", "local {n} = {v}", "@@{n} = {v}", "@@session.{n} = {v}", "@@local.{n}={v}", "{N} = {v}", "SESSION {N}={v}"]
READ = ["@@{n}", "@@session.{n}", "@@local.{n}", "@@{N}", "@@SESSION.{N}"]
OTHER_SCOPE = ["set global {n} = {v}", "set @@global.{n} = {v}", "set persist {n} = {v}", "set @@persist.{n} = {v}", "set persist_only {n} = {v}"]
TIMEF = [("now()", 0), ("current_timestamp", 0), ("current_timestamp()", 0), ("curdate()", 1), ("current_date", 1), ("current_date()", 1), ("curtime()", 2), ("current_time", 2), ("NOW()", 0), ("CurDate()", 1)]
HINTS = ["lib", "lib", "lib2", "app", "app", "nested", "where", "union", "catalog", "appfail", "nofunc", "multi", "time", "two", "twice", "insert", "kill"]
TX = [("set transaction isolation level {iso}", "i"), ("set session transaction isolation level {iso}", "i"), ("set transaction read only", "ro"), ("set session transaction read write", "rw"),
      ("set session transaction isolation level {iso}, read only", "iro"), ("set transaction read write, isolation level {iso}", "irw"), ("SET LOCAL TRANSACTION READ ONLY", "ro?"),
      ("set global transaction read only", "none"), ("set global transaction isolation level {iso}", "none")]


def gen_value(rng, typ, odd=0.25):
    r = rng.random()
    if r < 0.1:
        return ["kw", rng.choice(["DEFAULT", "default"])]
    if r < 0.16:
        return ["kw", rng.choice(["NULL", "null"])]
    if r < 0.22:
        return ["var", rng.randrange(40)]
    if rng.random() < odd:
        return rng.choice([["i", rng.choice(INTS + ODD_INTS)], ["s", rng.choice(STRS + TZODD + CSODD)], ["f", rng.choice(["1.5", "0.0", "1e3", "1e400", "2.0"])],
                           ["kw", rng.choice(["true", "false", "ON", "OFF", "on", "off"])], ["raw", rng.choice(["-5", "0x10", "1+1", "ansi", "concat('a','b')", "b'1'", "-0", "'a' 'b'", "@x", "(1)", "binary", "(select 1)", "now()", "+3"])]])
    if typ == "int":
        return rng.choice([["i", rng.choice(INTS)], ["i", rng.randrange(100)], ["s", str(rng.choice(INTS))]])
    if typ == "bool":
        return rng.choice([["i", 0], ["i", 1], ["kw", rng.choice(["true", "false", "ON", "OFF", "on", "off", "TRUE", "False"])], ["s", rng.choice(["ON", "OFF", "on", "off", "TRUE", "false", "0", "1"])]])
    if typ == "cs":
        return ["s", rng.choice(CSOK)]
    if typ == "coll":
        return ["s", rng.choice(COLL)]
    if typ == "tz":
        return ["s", rng.choice(TZOK if rng.random() < 0.7 else TZODD)]
    if typ == "iso":
        return ["s", rng.choice(ISO)]
    return ["s", rng.choice(STRS)]


def names_of(custom):
    t = dict(BASE)
    if custom:
        t.update(CUSTOM)
    return t


def pick(rng, table, writable=True):
    while True:
        n = rng.choice(list(table))
        if rng.random() < 0.15:
            n = "time_zone"
        if not writable or table[n][2]:
            return n


def gen_op(rng, table):
    r = rng.random()
    if r < 0.27:
        items = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = pick(rng, table, rng.random() < 0.93)
            items.append([n, gen_value(rng, table[n][0]), rng.randrange(16)])
        if rng.random() < 0.05:
            items.insert(rng.randrange(len(items) + 1), ["no_such_variable", ["i", 1], rng.randrange(16)])
        return ["set", items, rng.choice(["query", "query", "query", "prep"])]
    if r < 0.31:
        n = pick(rng, table, False) if rng.random() < 0.3 else rng.choice([k for k in table if not table[k][2]])
        return ["set", [[n, gen_value(rng, table[n][0]), rng.randrange(16)]], "query"]
    if r < 0.34:
        return ["names", rng.choice(["names", "names", "collate", "default", "charset", "charset", "charset2", "csdefault"]), rng.choice(CSOK + CSODD[:4]), rng.randrange(2), rng.randrange(4)]
    if r < 0.37:
        return ["tx", rng.randrange(len(TX)), rng.randrange(4)]
    if r < 0.39:
        n = pick(rng, table)
        return ["scope", n, gen_value(rng, table[n][0], 0), rng.randrange(len(OTHER_SCOPE))]
    if r < 0.5:
        return ["read", [pick(rng, table, False) for _ in range(rng.choice([1, 1, 2, 4]))], rng.randrange(16), rng.choice(["query", "prep", "cursor", "app", "alias", "catalog"])]
    if r < 0.56:
        return ["time", [rng.randrange(len(TIMEF)) for _ in range(rng.choice([1, 2, 3]))], rng.choice(["query", "prep", "app", "settz"]), rng.randrange(len(TZOK))]
    if r < 0.6:
        return ["info", rng.choice(["version()", "VERSION()", "user()", "@@external_user", "session_user()", "@@version"])]
    if r < 0.64:
        return ["show", rng.choice(["show variables", "show session variables", "SHOW VARIABLES", "like", "nolike"]), pick(rng, table, False), rng.choice(["query", "prep"])]
    if r < 0.67:
        return ["battery"]
    if r < 0.70:
        return ["jump", rng.choice([3600.5, -3600.25, 86400 * 30, -86400 * 365, 1.0, 43200, -0.7])]
    if r < 0.72:
        return ["chuser"]
    if r < 0.73:
        return ["reset"]
    if r < 0.75:
        return ["unknown", rng.choice(["select @@no_such_variable", "set no_such_variable = 1", "select @@session.nope", "set @@nope = 'x'", "select /*+ SET_VAR(nope = 1) */ 1"])]
    hints = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = pick(rng, table, rng.random() < 0.85)
        hints.append([n, gen_value(rng, table[n][0], 0.12)])
    if rng.random() < 0.06:
        hints.insert(rng.randrange(len(hints) + 1), ["no_such_variable", ["i", 1]])
    return ["hint", hints, rng.choice(HINTS), rng.choice(["query", "query", "prep", "cursor"]), rng.randrange(8)]


def gen(rng, i, tier):
    custom = rng.random() < 0.3
    table = names_of(custom)
    sc = {"sched": gen_sched(rng), "custom": custom, "version": rng.choice([None, None, None, "5.7.44-log", "10.6.1-MariaDB", "9"]), "clients": [],
          "gates": rng.sample(["query", "schema", "handle_query"], rng.choice([0, 0, 1])), "kills": rng.choice([0, 0, 0, 1, 3])}
    for _ in range(rng.choice([1, 1, 2, 3])):
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "cs": rng.choice([255, 255, 255, 45, 33, 8, 11]),
                              "prog": [gen_op(rng, table) for _ in range(rng.randint(4, 14))], "full": rng.choice([1.0, 0.5, 0.5])})
    sc["shared"] = rng.random() < 0.5  # all sessions on one GlobalVariables object
    return sc


RO_ERR = object()


def isint(s):
    return s is not None and re.fullmatch(r"-?\d+", s) is not None


def norm(typ, v):
    """One spelling for what a read returned (text or NULL)."""
    if v is None:
        return None
    if typ == "bool":
        return {"TRUE": "1", "ON": "1", "1": "1", "FALSE": "0", "OFF": "0", "0": "0"}.get(v.upper(), v)
    if typ == "cs":
        v = v.lower()
        return "utf8" if v == "utf8mb3" else v
    return v


def pystr(typ, v):
    """The same for a value that the application read from session.variables."""
    if v is None:
        return None
    if isinstance(v, bool):
        return "1" if v else "0"
    return norm(typ, str(v))


ANY = "any"  # accepted, but which value results is not said


class Model:
    def __init__(self, table, cs):
        self.t = table
        self.v = {k: {d} for k, (t, d, w) in table.items()}
        self.v["character_set_client"] = {cs}
        for k in ("character_set_results", "character_set_connection"):
            self.v[k] |= {cs}
        if cs != "utf8mb4":
            self.v["collation_connection"] = None

    def value(self, n, v):
        """-> (sure, result): sure: it must be accepted; result: the normalized value or ANY"""
        typ, default, writable = self.t[n]
        kind = v[0]
        if kind == "kw" and v[1].upper() in ("DEFAULT", "NULL"):
            return True, default
        if kind == "var":
            src = [k for k in self.t][v[1] % len(self.t)]
            st, cur = self.t[src][0], self.v[src]
            if cur is None or len(cur) != 1:
                return False, ANY
            cur = next(iter(cur))
            if cur is None:
                return False, default
            if st == typ and typ in ("int", "bool", "cs", "tz", "iso", "coll"):
                return True, cur
            if typ in ("str", "text") and st in ("str", "text", "cs", "coll", "iso", "tz"):
                return typ == "str", cur
            return False, ANY
        text_ = str(v[1])
        if kind in ("raw", "f"):
            return False, ANY
        if typ == "int":
            if kind == "i" and 0 <= v[1] < 1 << 63:
                return True, text_
            if kind == "s" and re.fullmatch(r"0|[1-9]\d{0,17}", text_):
                return True, text_
            return False, ANY
        if typ == "bool":
            if kind == "i" and v[1] in (0, 1) or kind == "kw" and text_.upper() in ("ON", "OFF", "TRUE", "FALSE"):
                return True, norm("bool", text_)
            if kind == "s" and text_.upper() in ("ON", "OFF", "TRUE", "FALSE", "0", "1"):
                return True, norm("bool", text_)
            return False, ANY
        if kind != "s":
            return False, ANY
        if typ == "str":
            return True, text_
        ok = {"cs": CSOK, "coll": COLL, "tz": TZOK, "iso": ISO, "text": []}[typ]
        if text_ in ok:
            return True, norm(typ, text_)
        return False, norm(typ, text_) if typ in ("text", "coll", "iso") else ANY

    def put(self, n, res):
        self.v[n] = None if res is ANY else {res}

    def maybe(self, n, res):
        if res is ANY:
            self.v[n] = None
        elif self.v[n] is not None:
            self.v[n] = self.v[n] | {res}

    def check(self, n, got, where):
        typ = self.t[n][0]
        got = norm(typ, got)
        cur = self.v[n]
        if cur is None:
            if typ == "int" and not (isint(got) or got is None) or typ == "bool" and got not in ("0", "1", None):
                raise Violation("c14/type", "%s: @@%s is %r, its type is %s" % (where, n, got, typ))
            if typ == "cs" and got not in wire.CS_ID and got not in ("utf8", "utf8mb3"):
                raise Violation("c14/charset", "%s: @@%s is %r" % (where, n, got))
        elif got not in cur:
            raise Violation("c14/value", "%s: @@%s is %r, expected %r" % (where, n, got, sorted(map(str, cur))))
        self.v[n] = {got}

    def one(self, n):
        c = self.v[n]
        return next(iter(c)) if c is not None and len(c) == 1 else ANY


def literal(v, model, w):
    k = v[0]
    if k == "s":
        s = v[1]
        if model.one("character_set_client") not in ("utf8mb4", "utf8"):
            s = re.sub(r"[^\x00-\x7e]", "?", s)
            v[1:] = [s]
        return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"
    if k == "var":
        return "@@" + list(model.t)[v[1] % len(model.t)]
    return str(v[1])


def tz_offset(name):
    """offset in minutes of a time zone the model knows, or None"""
    if name is ANY or name is None:
        return None
    if name.lower() == "utc":
        return 0
    m = re.fullmatch(r"([+-])(\d\d):(\d\d)", name, re.A)
    if not m:
        return None
    x = int(m[2]) * 60 + int(m[3])
    return -x if m[1] == "-" else x


def cell(v, col=None):
    if v is None:
        return None
    if isinstance(v, bytes):
        return v.decode("utf-8")
    return str(v)


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"gates": sc["gates"], "schema": {"db1": {"t1": {"a": "INT"}}}})
    table = names_of(sc["custom"])
    if sc["version"]:
        table["version"] = ("str", sc["version"], 0)
    watch = {}  # user -> names the application looks at
    cids = {}
    state = {"jumps": 0, "kills": 0, "killbudget": sc["kills"]}

    class VSession(AppSession):
        def __init__(self, app_):
            super().__init__(app_)
            if sc["custom"]:
                schema = dict(self.variables.schema)
                for k, (t, d, wr) in CUSTOM.items():
                    schema[k] = (PYTYPE.get(t, str), int(d) if t == "int" else d == "1" if t == "bool" else d, bool(wr))
                if sc["version"]:
                    schema["version"] = (str, sc["version"], False)
                if not hasattr(app_, "shared_globals"):
                    app_.shared_globals = GlobalVariables(schema)
                self.variables = SessionVariables(app_.shared_globals if sc.get("shared") else GlobalVariables(schema))
            elif sc["version"]:
                self.variables.set("version", sc["version"], force=True)

    async def answer(sess, expression, sql, attrs):
        if expression.find(exp.Table) is not None and expression.find(exp.Table).name == "boom":
            w.count("app_exc_query")
            raise EXC["value"]()
        if "parked" in sql:
            await w.gate("parked", sess.cid)
        names = watch.get(sess.username) or []
        if "literals" in sql:
            lits = [e for e in expression.expressions]
            out = []
            for e in lits:
                e = e.unalias()
                out.append(None if isinstance(e, exp.Null) else ("1" if e.this else "0") if isinstance(e, exp.Boolean) else e.name)
            return [tuple(out)], [ResultColumn("c%d" % j, ColumnType.VARCHAR) for j in range(len(out))]
        return [tuple(pystr(table[n][0], sess.variables.get(n)) for n in names) + ("x",)], [ResultColumn("c%d" % j, ColumnType.VARCHAR) for j in range(len(names) + 1)]

    app.answer_fn = answer

    def kill_actions():
        if state["killbudget"] <= 0:
            return []
        out = []
        for conn in list(app.control.live.values()):
            s = conn.session
            if getattr(s, "cid", -1) in cids.values() and cids.get("ready%d" % s.cid):
                def fire(conn=conn, s=s):
                    state["killbudget"] -= 1
                    cids["killed%d" % s.cid] = True
                    w.count("kill_query")
                    conn.kill(KillKind.QUERY)
                out.append((0.03, "kill", s.cid, fire))
        return out

    if sc["kills"]:
        w.ext_actions.append(kill_actions)

    def script(ci, cl):
        def go(c):
            W = Wire(c)
            yield GO
            user = "u%d" % ci
            cs = {255: "utf8mb4", 45: "utf8mb4", 33: "utf8", 8: "latin1", 11: "ascii"}[cl["cs"]]
            c.connect()
            h = yield from W.read_handshake()
            expect(h["version"] == table["version"][1].encode(), "c14/handshake-version", "%r, @@version is %r" % (h["version"], table["version"][1]))
            W.send_packet(W.response41(user=user.encode(), auth=b"", caps=cl["caps"], charset=cl["cs"], plugin=b"mysql_native_password"))
            r = yield from W.finish_auth(lambda *a: b"")
            expect(r["kind"] == "ok", "c14/login", repr(r))
            m = Model(table, cs)
            m.v["external_user"] = {user}
            cid = [s.cid for s in app.sessions if s.username == user][-1]
            cids[user] = cid
            cids["ready%d" % cid] = True

            def killed():
                return cids.pop("killed%d" % cid, False)

            def send(sql, how):
                """-> result dict; the statement has been retried if a kill hit it before it could matter"""
                cids.pop("killed%d" % cid, None)
                c.t0, c.j0 = w.wall_time(), state["jumps"]
                b = sql.encode("utf-8" if m.one("character_set_client") in ("utf8", "utf8mb4") else "ascii")
                if how == "query":
                    W.command(wire.COM_QUERY, W.query_body(b))
                    r = yield from W.read_resultset()
                else:
                    W.command(wire.COM_STMT_PREPARE, b)
                    p = yield from W.read_prepare()
                    if p["kind"] == "err":
                        if killed():
                            return dict(p, killed=True, before=True)
                        return dict(p, killed=False)
                    yield GO
                    c.t0, c.j0 = w.wall_time(), state["jumps"]
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"], cursor=how == "cursor"))
                    r = yield from W.read_resultset(binary=True, cursor=how == "cursor")
                    if how == "cursor" and r["kind"] == "rs" and not r["err"]:
                        yield GO
                        W.command(wire.COM_STMT_FETCH, struct.pack("<II", p["id"], 1000))
                        f = yield from W.read_fetch(r["cols"])
                        r = dict(r, rows=f["rows"], err=f["err"])
                    W.command(wire.COM_STMT_CLOSE, struct.pack("<I", p["id"]))
                r = dict(r)
                if r["kind"] == "rs" and r["err"]:
                    r = dict(r["err"], kind="err")
                r["killed"] = killed() and r["kind"] == "err"
                c.t1 = w.wall_time()
                return r

            def rows(r, where):
                if r["kind"] == "err":
                    if r["killed"]:
                        return None
                    raise Violation("c14/refused", "%s: %r" % (where, r))
                expect(r["kind"] == "rs", "c14/refused", "%s: %r" % (where, r))
                return [[cell(x) for x in row] for row in r["rows"]]

            def full(where, how="query", sql="show variables"):
                r = yield from send(sql, how)
                rs = rows(r, "SHOW VARIABLES after " + where)
                if rs is None:
                    return
                names = [x[0] for x in rs]
                expect(sorted(names) == sorted(table), "c14/show-names", "SHOW VARIABLES lists %r" % sorted(set(names) ^ set(table)))
                for n, v in rs:
                    if v == "" and m.one(n) is None:
                        v = None
                    m.check(n, v, "SHOW VARIABLES after " + where)
                o.probes["full-comparisons"] += 1

            def check_time(kinds, vals, off, where):
                if off is None or state["jumps"] != c.j0:
                    return
                fmt = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%H:%M:%S"]
                base = bootstrap.real_datetime
                lo = base(1970, 1, 1) + dt.timedelta(seconds=c.t0 + off * 60)
                hi = base(1970, 1, 1) + dt.timedelta(seconds=c.t1 + off * 60)
                for kd, v in zip(kinds, vals):
                    lo_, hi_ = lo.replace(microsecond=0), hi
                    ok = False
                    if v is not None:
                        try:
                            t = base.strptime(v[:19] if kd == 0 else v[:8] if kd == 2 else v, fmt[kd])
                            if kd == 0:
                                ok = lo_ <= t <= hi_
                            elif kd == 1:
                                ok = lo.date() <= t.date() <= hi.date()
                            else:
                                x = dt.timedelta(hours=t.hour, minutes=t.minute, seconds=t.second)
                                ok = any(lo_ <= base(d.year, d.month, d.day) + x <= hi_ for d in (lo, hi))
                        except ValueError:
                            ok = False
                    if not ok:
                        raise Violation("c14/time", "%s: %s is %r, expected %s .. %s (offset %+d min)" % (where, ["NOW()", "CURDATE()", "CURTIME()"][kd], v, lo, hi, off))

            def battery(where):
                for sql, how in (("select 1", "query"), ("select 'x', 2", "prep"), ("select now(), curdate()", "query"), ("select a from t1", "query")):
                    watch[user] = []
                    r = yield from send(sql, how)
                    rs = rows(r, "%s after %s" % (sql, where))
                    if rs is not None and len(rs) != 1:
                        raise Violation("c14/broken-session", "%s after %s: %r" % (sql, where, rs))
                W.command(wire.COM_PING)
                r = yield from W.read_ok_err()
                expect(r["kind"] == "ok" or cids.pop("killed%d" % cid, None), "c14/broken-session", "COM_PING after %s: %r" % (where, r))
                r = yield from send("select a from boom", "query")
                expect(r["kind"] == "err", "c14/broken-session", "failing statement after %s: %r" % (where, r))
                o.probes["batteries"] += 1

            def apply_set(items, r, where):
                """items: [(name, sure, result, ro)]"""
                sure = all(i[1] and not i[3] for i in items)
                if r["kind"] == "ok":
                    for n, s, res, ro in items:
                        if n not in table:
                            raise Violation("c14/unknown-accepted", where)
                        if ro and not (ro == "default"):
                            raise Violation("c14/read-only-accepted", where)
                        if not ro:
                            m.put(n, res)
                elif r["kind"] == "err":
                    if sure and not r["killed"]:
                        raise Violation("c14/refused", "%s: %r" % (where, r))
                    o.probes["refused"] += 1
                    o.nontrivial = True
                    if len(items) > 1 or r["killed"]:
                        for n, s, res, ro in items:
                            if n in table and not ro:
                                m.maybe(n, res)
                else:
                    raise Violation("c14/refused", "%s: %r" % (where, r))

            def hinted(op):
                _, hints, target, how, bits = op
                hints = [[n, list(v)] for n, v in hints]
                if target == "time" and not any(n == "time_zone" for n, v in hints):
                    hints.append(["time_zone", ["s", TZOK[bits % len(TZOK)]]])
                parts, during, sure = [], {}, True
                lower = bits == 7
                for n, v in hints:
                    if v[0] == "s" and "*/" in v[1]:
                        v = ["s", "a"]
                    t = literal(v, m, w)
                    parts.append("%s(%s = %s)" % ("set_var" if lower else "SET_VAR", n.upper() if bits & 2 else n, t))
                    if n not in table or not table[n][2]:
                        sure = False
                        if n in table:
                            during[n] = None if m.v[n] is None else set(m.v[n])
                        continue
                    su, res = m.value(n, v)
                    if v[0] == "var":
                        su, res = False, ANY
                    if v[0] == "kw":
                        su = False  # SQLGlot can't parse all of them in a hint
                    sure = sure and su
                    if res is ANY or n in during and during[n] is None:
                        during[n] = None
                    else:
                        during[n] = during.get(n, set()) | {res}
                    if lower and during[n] is not None:
                        during[n] = None if m.v[n] is None else during[n] | m.v[n]
                    o.states.add("hint %s %s %s %s" % (n, v[0], target, su))
                names = [n for n in dict.fromkeys(n for n, v in hints) if n in table]
                H = "/*+ %s */" % " ".join(parts) if parts else ""
                H2 = ""
                if target == "two":
                    k = bits % (len(parts) + 1)
                    H = "/*+ %s */" % " ".join(parts[:k]) if k else ""
                    H2 = "/*+ %s */" % " ".join(parts[k:]) if k < len(parts) else ""
                cols = ", ".join("@@%s as c%d" % (n, j) for j, n in enumerate(names)) or "1"
                sql = {"lib": "select %s %s" % (H, cols), "lib2": "select %s 1" % H, "app": "select %s a from t1" % H, "nested": "select a from (select %s a from t1) as x" % H,
                       "where": "select a from t1 where a in (select %s a from t1)" % H, "union": "select %s a from t1 union select a from t1" % H,
                       "catalog": "select %s %s, table_name from information_schema.tables limit 1" % (H, cols), "appfail": "select %s a from boom" % H,
                       "nofunc": "select %s nofunc(1)" % H, "multi": "select %s a from t1; select %s" % (H, cols), "time": "select %s now(), curtime(), curdate()" % H,
                       "two": "select %s a from (select %s a from t1) as x" % (H, H2), "twice": "select %s a from t1" % H, "insert": "insert into t2 select %s a from t1" % H,
                       "kill": "select %s a from parked" % H}[target]
                c.hsql = sql
                watch[user] = names
                if target == "kill" and sc["kills"]:
                    state["killbudget"] += 1
                for rep in range(2 if target == "twice" else 1):
                    yield GO
                    r = yield from send(sql, how)
                    if r["kind"] == "err":
                        if sure and not r["killed"] and target not in ("appfail", "nofunc"):
                            raise Violation("c14/hint-refused", "%s: %r" % (sql, r))
                        o.probes["hint-refused" if not r["killed"] else "hint-killed"] += 1
                        return
                    expect(target not in ("appfail",), "c14/failure-hidden", "%s: %r" % (sql, r))
                    o.probes["hint-applied"] += 1
                    if target == "lib2" or target == "nofunc" or not names:
                        continue
                    rs = rows(r, sql)
                    if rs is None:
                        return
                    if target == "time":
                        x = during["time_zone"]
                        if x is not None and len(x) == 1 and table["time_zone"][2]:
                            check_time([0, 2, 1], rs[0], tz_offset(next(iter(x))), sql)
                        continue
                    expect(len(rs) == 1, "c14/hint-rows", "%s: %r" % (sql, rs))
                    for n, v in zip(names, rs[0]):
                        if target == "multi":
                            m.check(n, v, "after the hinted part of " + sql)
                        elif during[n] is not None:
                            v = norm(table[n][0], v)
                            if v not in during[n]:
                                raise Violation("c14/hint-value", "%s: @@%s is %r during the statement, expected %r" % (sql, n, v, sorted(map(str, during[n]))))

            last = "login"
            for opn, op in enumerate(cl["prog"]):
                yield GO
                kind = op[0]
                last = kind
                if kind == "set":
                    parts, items = [], []
                    sim = m
                    names = [n for n, v, s in op[1]]
                    for n, v, s in op[1]:
                        v = list(v)
                        form = ITEM if len(op[1]) > 1 else SPELL
                        f = form[s % len(form)]
                        t = f.format(n=n, N=n.upper(), v=literal(v, m, w))
                        parts.append(t)
                        if n not in table:
                            items.append((n, False, ANY, None))
                            continue
                        if v[0] == "var" and list(table)[v[1] % len(table)] in names and len(names) > 1:
                            su, res = False, ANY  # reads what this very statement assigns
                        else:
                            su, res = m.value(n, v)
                        ro = None
                        if not table[n][2]:
                            ro = "default" if v[0] == "kw" and v[1].upper() in ("DEFAULT", "NULL") or v[0] == "var" else "value"
                        items.append((n, su, res, ro))
                        o.states.add("set %s %s %d %s" % (n, v[0], s % len(form), su))
                    sql = ("set " if len(op[1]) > 1 else "") + ", ".join(parts)
                    r = yield from send(sql, op[2])
                    last = sql
                    apply_set(items, r, sql)
                elif kind == "names":
                    _, form, cs_, q, sp = op
                    qs = ["%s", "'%s'"][q] % cs_ if cs_ and " " not in cs_ else "'%s'" % cs_
                    good = cs_ in CSOK
                    coll = None
                    if form == "names":
                        sql, vs = ["set names %s", "SET NAMES %s"][sp & 1] % qs, ["client", "connection", "results"]
                    elif form == "collate":
                        coll = COLL[sp % len(COLL)]
                        if not coll.startswith(cs_ + "_"):
                            good = False
                        sql, vs = "set names %s collate '%s'" % (qs, coll), ["client", "connection", "results"]
                    elif form == "default":
                        sql, vs, good, cs_ = "set names default", ["client", "connection", "results"], True, None
                    elif form == "csdefault":
                        sql, vs, good, cs_ = "set character set default", ["client", "results"], True, None
                    else:
                        sql, vs = ["set character set %s", "set charset %s"][form == "charset2"] % qs, ["client", "results"]
                    r = yield from send(sql, "query")
                    last = sql
                    o.states.add("names %s %s %s" % (form, cs_, r["kind"]))
                    if r["kind"] == "ok":
                        for x in vs:
                            n = "character_set_" + x
                            if cs_ is None:
                                m.v[n] = {"utf8mb4", cs}
                            else:
                                m.v[n] = {norm("cs", cs_)}
                        if len(vs) == 2:
                            db = m.v["character_set_database"]
                            m.v["character_set_connection"] = None if db is None or cs_ is None else set(db)
                            m.v["collation_connection"] = None
                        else:
                            m.v["collation_connection"] = {coll} if coll else None
                    else:
                        expect(r["kind"] == "err" and (not good or r["killed"]), "c14/refused", "%s: %r" % (sql, r))
                        for x in ("client", "connection", "results"):
                            m.maybe("character_set_" + x, norm("cs", cs_ or "utf8mb4"))
                        m.v["character_set_connection"] = m.v["collation_connection"] = None
                    if cs_ is None or r["kind"] != "ok":
                        yield from full(sql)
                elif kind == "tx":
                    tmpl, eff = TX[op[1] % len(TX)]
                    iso = ISO[op[2] % 4]
                    sql = tmpl.format(iso=iso.replace("-", " ").lower())
                    r = yield from send(sql, "query")
                    last = sql
                    items = []
                    if "i" in eff:
                        items.append(("transaction_isolation", iso != "READ-UNCOMMITTED", iso, None))  # (SQLGlot expects UNCOMITTED)
                    if "ro" in eff or "rw" in eff:
                        items.append(("transaction_read_only", not eff.endswith("?"), "1" if "ro" in eff else "0", None))
                    o.states.add("tx %d %s" % (op[1] % len(TX), r["kind"]))
                    if eff != "none":
                        apply_set(items, r, sql)
                elif kind == "scope":
                    v = list(op[2])
                    if op[1] not in table:
                        continue
                    sql = OTHER_SCOPE[op[3] % len(OTHER_SCOPE)].format(n=op[1], v=literal(v, m, w))
                    r = yield from send(sql, "query")
                    last = sql
                    o.states.add("scope %d %s" % (op[3] % len(OTHER_SCOPE), r["kind"]))
                elif kind == "read":
                    _, names, s, how = op
                    names = [n for n in names if n in table]
                    if not names:
                        continue
                    if how == "app":
                        watch[user] = names
                        sql = "select a from t1"
                        r = yield from send(sql, "query")
                    elif how == "catalog":
                        sql = "select %s, table_name from information_schema.tables limit 1" % ", ".join("@@%s as c%d" % (n, j) for j, n in enumerate(names))
                        r = yield from send(sql, "query")
                    else:
                        sql = "select " + ", ".join(READ[(s + j) % len(READ)].format(n=n, N=n.upper()) + (" as c%d" % j if how == "alias" else "") for j, n in enumerate(names))
                        r = yield from send(sql, "query" if how == "alias" else how)
                    rs = rows(r, sql)
                    if rs is not None:
                        if len(rs) != 1:
                            raise Violation("c14/read", "%s: %d rows" % (sql, len(rs)))
                        for n, v in zip(names, rs[0]):
                            m.check(n, v, sql + (" (seen by the application)" if how == "app" else ""))
                            o.states.add("read %s %s" % (n, how))
                elif kind == "time":
                    _, fs, how, tz = op
                    fl = [TIMEF[x % len(TIMEF)] for x in fs]
                    sql = "select " + ", ".join(x[0] for x in fl)
                    if how == "app":
                        sql += " from literals"
                    if how == "settz":
                        sql = "set time_zone = '%s'; %s" % (TZOK[tz], sql)
                    r = yield from send(sql, "prep" if how == "prep" else "query")
                    rs = rows(r, sql)
                    if how == "settz":
                        if rs is None:
                            m.maybe("time_zone", TZOK[tz])
                        else:
                            m.put("time_zone", TZOK[tz])
                    if rs is not None:
                        check_time([x[1] for x in fl], rs[0], tz_offset(m.one("time_zone")), sql)
                        o.states.add("time %s %s" % (m.one("time_zone"), how))
                elif kind == "info":
                    r = yield from send("select " + op[1], "query")
                    rs = rows(r, op[1])
                    n = "version" if "version" in op[1].lower() else "external_user"
                    if rs is not None:
                        m.check(n, rs[0][0], "select " + op[1])
                elif kind == "show":
                    _, form, n, how = op
                    if n not in table:
                        continue
                    if form == "like":
                        sql = "show variables like '%s'" % n
                        r = yield from send(sql, how)
                        rs = rows(r, sql)
                        if rs is not None:
                            got = [x for x in rs if x[0] == n]
                            expect(len(got) == 1, "c14/show-like", "%s: %r" % (sql, rs))
                            v = got[0][1]
                            m.check(n, None if v == "" and m.one(n) is None else v, sql)
                    elif form == "nolike":
                        r = yield from send("show variables like 'no_such_variable'", how)
                        rs = rows(r, "show variables like 'no_such_variable'")
                        expect(not rs, "c14/show-like", repr(rs))
                    else:
                        yield from full("-", how, form)
                elif kind == "battery":
                    yield from battery("earlier assignments")
                elif kind == "jump":
                    w.wall_offset += op[1]
                    state["jumps"] += 1
                    w.count("clock_jump")
                elif kind == "chuser":
                    cids.pop("killed%d" % cid, None)
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(user.encode(), b"", b"", 255, b"mysql_native_password"))
                    r = yield from W.finish_auth(lambda *a: b"")
                    if r["kind"] == "err":
                        expect(cids.pop("killed%d" % cid, None), "c14/change-user", repr(r))
                        return
                    for n in table:
                        if table[n][2]:
                            m.maybe(n, table[n][1])
                    m.v["character_set_client"] = {"utf8mb4"}
                    m.v["collation_connection"] = None
                    m.v["character_set_connection"] = None
                elif kind == "reset":
                    cids.pop("killed%d" % cid, None)
                    W.command(wire.COM_RESET_CONNECTION)
                    r = yield from W.read_ok_err()
                    expect(r["kind"] == "ok" or cids.pop("killed%d" % cid, None), "c14/reset", repr(r))
                    for n in table:
                        if table[n][2]:
                            m.maybe(n, table[n][1])
                    m.v["collation_connection"] = None
                    m.maybe("character_set_client", cs)
                    yield from full("COM_RESET_CONNECTION")
                elif kind == "unknown":
                    r = yield from send(op[1], "query")
                    if r["kind"] != "err" and "SET_VAR" not in op[1]:
                        raise Violation("c14/unknown-accepted", "%s: %r" % (op[1], r))
                elif kind == "hint":
                    yield from hinted(op)
                    o.nontrivial = True
                    yield from full("hinted statement %r" % (c.hsql,))
                    continue
                if cl["full"] == 1.0 or opn % 2:
                    yield from full(last)
            yield GO
            yield from battery("its history")
            yield from full("its history")

        return go

    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    w.run(std_server(app, cls=VSession))
    unfinished(w, "c14")
    return finish(o, w)
