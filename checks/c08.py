"""C08: connections do not interfere: each behaves as if it were alone."""
from checks.common import *
from dst.chooser import Chooser
from mysql_mimic import context
from mysql_mimic.variables import GlobalVariables, SessionVariables

ID = "C08"
LEVEL = "exploration"
QUICK_RUNS = 1600
THOROUGH_RUNS = 400000
RULE = ("A run is 2-5 clients with generated programs over everything a connection has of its own (variables, SET_VAR hints, "
        "default database, user, character sets, prepared statements, long data, cursors, catalog, failing commands), run "
        "once together, with half-finished queries parked in the application, rows streamed with pauses and some clients "
        "disconnecting mid-query, and once per client alone. Every payload a client receives (statement ids renamed by order "
        "of creation, connection ids and nonces masked) and every call its session sees must be the same in both. "
        "Non-trivial: at least two clients were inside the application at the same time.")
STATE_RULE = "(command, number of other clients inside the application, command parked there)"

VARS = {"sql_mode": ["'ANSI'", "''", "'STRICT'", "default"], "autocommit": ["0", "1", "on", "off", "true", "default"],
        "wait_timeout": ["1", "77", "28800", "null"], "time_zone": ["'+01:00'", "'-05:30'", "'UTC'", "'bogus'"],
        "max_allowed_packet": ["1000", "67108864"], "transaction_isolation": ["'SERIALIZABLE'", "'READ-COMMITTED'"],
        "sql_select_limit": ["5", "default"], "character_set_database": ["latin1", "utf8mb4"], "collation_connection": ["'utf8_bin'", "default"],
        "nosuch": ["1"], "version": ["'9'"], "max_execution_time": ["1", "@@wait_timeout"], "net_buffer_length": ["3", "4"]}
CSETS = ["utf8mb4", "latin1", "utf8", "cp1251", "greek", "gbk", "sjis", "ascii"]
TEXTS = ["abc", "\u00e9\u00fc", "\u0434\u0430", "\u03b1\u03b2", "\u4e2d\u6587", "\u30a2", "x'y", "100%"]


def gen_op(rng):
    r = rng.random()
    if r < 0.14:
        v = rng.choice(sorted(VARS))
        return ["set", rng.choice(["", "session ", "@@", "@@session.", "local "]) + v, rng.choice(VARS[v])]
    if r < 0.24:
        return ["get", rng.sample(sorted(set(VARS) - {"nosuch"}), rng.randint(1, 3))]
    if r < 0.27:
        return ["showvar", rng.choice(["%", "sql%", "%time%", "character%"])]
    if r < 0.31:
        return ["use", rng.choice(["db0", "db1", "db2"]), rng.random() < 0.5]
    if r < 0.35:
        return ["who"]
    if r < 0.40:
        return ["names", rng.choice(CSETS), rng.random() < 0.7]
    if r < 0.55:
        return ["app", rng.choice(TEXTS), rng.randint(0, 2), rng.choice([0, 1, 3, 12]), rng.choice(["list", "agen", "gen"]), rng.random() < 0.12]
    if r < 0.58:
        return ["hint", rng.choice(["autocommit=0", "sql_mode='H'", "wait_timeout=5", "time_zone='+09:00'", "nosuch=1"]), rng.randint(0, 2), rng.random() < 0.3]
    if r < 0.65:
        return ["prepare", rng.choice([0, 1, 2]), rng.randint(0, 2), rng.choice([1, 3, 12])]
    if r < 0.74:
        return ["execute", rng.randrange(4), rng.choice(TEXTS), rng.random() < 0.5]
    if r < 0.79:
        return ["fetch", rng.randrange(4), rng.choice([1, 2, 5, 100])]
    if r < 0.84:
        return ["long", rng.randrange(4), rng.randrange(2), rng.choice(["chunk ", "Z"])]
    if r < 0.86:
        return ["sreset", rng.randrange(4)] if rng.random() < 0.6 else ["steal", rng.choice(["exec", "exec", "fetch", "reset", "long", "close"]), rng.randrange(8)]
    if r < 0.88:
        return ["sclose", rng.randrange(4)]
    if r < 0.91:
        return ["chuser", rng.choice(["ann", "ben", "cat"]), rng.choice(["", "db0", "db1"]), rng.choice([255, 33, 8]), rng.random() < 0.5]
    if r < 0.92:
        return ["resetconn"]
    if r < 0.96:
        return [rng.choice(["tables", "columns", "fields", "infoschema"])]
    if r < 0.98:
        return ["bad", rng.choice(["selec", "unknown", "kill", "fetch", "err"])]
    return ["ping"]


def gen(rng, i, tier):
    base = [gen_op(rng) for _ in range(rng.randint(4, 14))]
    sc = {"sched": gen_sched(rng), "clients": [], "shared": rng.random() < 0.4}  # shared: sessions on one GlobalVariables object
    if rng.random() < 0.6:
        sc["sched"].setdefault("w", {})["gate"] = rng.choice([0.02, 0.1])  # stay long inside the application
    for _ in range(rng.choice([2, 2, 2, 3, 4, 5])):
        prog = [gen_op(rng) if rng.random() < 0.5 else list(op) for op in base] if rng.random() < 0.7 else [gen_op(rng) for _ in range(rng.randint(3, 14))]
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "user": rng.choice(["ann", "ben", "cat"]), "db": rng.choice([None, "db0", "db1"]),
                              "charset": rng.choice([255, 255, 33, 8, 51]), "prog": prog,
                              "die": rng.choice(["rst", "fin"]) if rng.random() < 0.12 else None})
    return sc


class Tap(Wire):
    """Wire that keeps every payload it reads."""

    def __init__(self, c):
        super().__init__(c)
        self.tape = []

    def read_packet(self, check_seq=True):
        p = yield from super().read_packet(check_seq)
        self.tape.append(p)
        return p


def one_world(sc, ch, trace, only, o=None):
    """Play the scenario with all clients (only=None) or one.  -> (world, transcripts, app logs)"""
    w = World(ch, sc.get("sched") if only is None else None, trace)
    app = App(w, {})
    common_globals = GlobalVariables()

    class SharingSession(AppSession):
        def __init__(self, app_):
            super().__init__(app_)
            self.variables = SessionVariables(common_globals)

    idents = {}
    for u in ("ann", "ben", "cat"):
        idents[u] = {"plugin": "mysql_native_password"}
    identity = SimIdentity(app, idents, [NativePasswordAuthPlugin()])
    tapes = {}
    logs = {}
    owner = {}  # connection id -> client
    inside = {}

    def mine(sess, where):
        cid = context.connection_id.get(None)
        if cid != sess.cid:
            w.violate("c08/context", "%s: the context says connection %r, the session belongs to %r" % (where, cid, sess.cid))
        ci = owner.get(sess.cid)
        if ci is None:
            w.violate("c08/session", "%s: session of unknown connection %r" % (where, sess.cid))
        return ci

    def snap(sess):
        v = sess.variables
        return "%s|%s|%s|%s|%s|%s" % (sess.username, sess.database, v.get("sql_mode"), v.get("autocommit"), v.get("wait_timeout"), v.get("time_zone"))

    async def answer(sess, expression, sql, attrs):
        ci = mine(sess, sql)
        if "/*c%s*/" % ci not in sql and ci is not None:
            w.violate("c08/foreign-statement", "the session of client %s was given %r" % (ci, sql))
        m = sql.split("/*p", 1)[1].split("*/", 1)[0].split(",")
        gates, n, src, fail = int(m[0]), int(m[1]), m[2], m[3] == "1"
        logs.setdefault(ci, []).append(("query", sql, dict(attrs), snap(sess)))
        inside[ci] = sql
        if o is not None and only is None:
            o.states.add("%s in:%d" % (src, len(inside)))
            if len(inside) > 1:
                o.nontrivial = True
                o.probes["overlapping-queries"] += 1
        try:
            before = snap(sess)
            for _ in range(gates):
                await w.gate("q", sess.cid)
                mine(sess, sql)
            if fail:
                raise MysqlError("failed for " + snap(sess), ErrorCode.UNKNOWN_ERROR)
            cols = [ResultColumn("a", ColumnType.VARCHAR), ResultColumn("i", ColumnType.LONGLONG)]
            if src == "list":
                return [(before + "/" + snap(sess), k) for k in range(n)], cols
            if src == "gen":
                def g():
                    for k in range(n):
                        yield (before + "/" + snap(sess), k)
                return g(), cols

            async def ag():
                for k in range(n):
                    if k % 3 == 1:
                        inside[ci] = sql
                        await w.gate("row", sess.cid)
                        inside.pop(ci, None)
                    mine(sess, sql)
                    yield (before + "/" + snap(sess), k)
            return ag(), cols
        finally:
            inside.pop(ci, None)

    app.answer_fn = answer

    def schema(sess):
        mine(sess, "schema")
        return {d: {"%s_%s" % (sess.username, d): {"col_" + (sess.database or "none"): "INT", "v" + str(sess.variables.get("wait_timeout")): "TEXT"}}
                for d in ("db0", "db1", "db2")}

    app.schema_fn = schema

    held = {}

    def held_ids(ci):
        return [s["id"] for cj, ss in held.items() if cj != ci for s in ss if not s["closed"]]

    def script(ci, cl):
        def go(c):
            W = Tap(c)
            tape = tapes[ci] = []

            def put(op, ids=True):
                tape.append((op, tuple(W.tape)))
                W.tape.clear()

            yield GO
            c.connect()
            h = yield from W.read_handshake()
            expect(h["kind"] == "handshake", "c08/handshake", repr(h))
            if h["id"] in owner:
                raise Violation("c08/duplicate-id", str(h["id"]))
            owner[h["id"]] = ci
            W.tape[:] = [repr((h["version"], h["charset"], h["caps"], h["status"], h["plugin"])).encode()]
            caps = cl["caps"] | (wire.CONNECT_WITH_DB if cl["db"] else 0)
            W.send_packet(W.response41(user=cl["user"].encode(), auth=b"", db=cl["db"].encode() if cl["db"] else None, caps=caps,
                                       charset=cl["charset"]))
            r = yield from W.finish_auth(lambda *a: b"")
            expect(r["kind"] == "ok", "c08/login", repr(r))
            put("login")
            codec = {255: "utf-8", 33: "utf-8", 8: "cp1252", 51: "cp1251"}[cl["charset"]]
            tag = "/*c%d*/" % ci
            stmts = held[ci] = []
            ncols = None
            n = 0
            for op in cl["prog"]:
                k = op[0]
                n += 1
                yield GO
                last = n == len(cl["prog"])
                if last and cl["die"]:
                    W.command(wire.COM_QUERY, W.query_body(("select x %s /*p2,12,agen,0*/ from t" % tag).encode(codec, "replace")))
                    yield GO
                    c.close(cl["die"])
                    return
                sql = None
                if k == "set":
                    sql = "set %s = %s" % (op[1], op[2])
                elif k == "get":
                    sql = "select " + ", ".join("@@" + v for v in op[1])
                elif k == "showvar":
                    sql = "show variables like '%s'" % op[1]
                elif k == "who":
                    sql = "select database(), user(), current_user(), schema()"
                elif k == "app":
                    sql = "select x %s /*p%d,%d,%s,%d*/ from t where a = '%s'" % (tag, op[2], op[3], op[4], op[5], op[1].replace("'", "''"))
                elif k == "hint":
                    sql = "select /*+ set_var(%s) */ x %s /*p%d,2,agen,%d*/ from t" % (op[1], tag, op[2], op[3])
                elif k == "tables":
                    sql = "show tables"
                elif k == "columns":
                    sql = "show columns from ann_db0 from db0"
                elif k == "infoschema":
                    sql = "select table_schema, table_name, column_name from information_schema.columns where table_schema like 'db%'"
                elif k == "bad" and op[1] in ("selec", "kill"):
                    sql = {"selec": "selec nope from", "kill": "kill 4294901761"}[op[1]]
                if sql is not None:
                    W.command(wire.COM_QUERY, W.query_body(sql.encode(codec, "replace")))
                    r = yield from W.read_resultset()
                    put(sql)
                    continue
                if k == "use":
                    if op[2]:
                        W.command(wire.COM_INIT_DB, op[1].encode(codec))
                        yield from W.read_ok_err()
                    else:
                        W.command(wire.COM_QUERY, W.query_body(("use " + op[1]).encode(codec)))
                        yield from W.read_resultset()
                elif k == "names":
                    W.command(wire.COM_QUERY, W.query_body((("set names " if op[2] else "set character set ") + op[1]).encode(codec)))
                    r = yield from W.read_resultset()
                    if r["kind"] == "ok":
                        codec = wire.CODECS[op[1]]
                elif k == "prepare":
                    marks = " and ".join(["b = ?"] * op[1])
                    W.command(wire.COM_STMT_PREPARE, ("select x %s /*p%d,%d,agen,0*/ from t where a = 1%s" % (
                        tag, op[2], op[3], " and " + marks if marks else "")).encode(codec))
                    r = yield from W.read_prepare()
                    if r["kind"] == "prep":
                        stmts.append({"id": r["id"], "n": op[1], "closed": False, "long": set(), "cols": None})
                        # statement ids are the server's own choice
                        W.tape[0] = W.tape[0][:1] + b"<id>" + W.tape[0][5:]
                elif k in ("execute", "fetch", "long", "sreset", "sclose"):
                    if not stmts:
                        continue
                    s = stmts[op[1] % len(stmts)]
                    sid = struct.pack("<I", s["id"])
                    if k == "execute":
                        prm = [(b"", wire.T["VAR_STRING"], False, wire.lstr(op[2].encode(codec, "replace"))) for _ in range(s["n"])]
                        W.command(wire.COM_STMT_EXECUTE, W.execute_body(s["id"], prm, cursor=op[3], long_idx=tuple(s["long"])))
                        if not s["closed"]:
                            s["long"] = set()
                            s["cols"] = None
                        r = yield from W.read_resultset(binary=True, cursor=op[3])
                        if r["kind"] == "rs" and op[3] and not r["err"]:
                            s["cols"] = r["cols"]
                        if r["kind"] == "err":
                            W.tape[:] = [b"ERR" + struct.pack("<H", r["code"])]
                    elif k == "fetch":
                        W.command(wire.COM_STMT_FETCH, sid + struct.pack("<I", op[2]))
                        r = yield from W.read_fetch(s["cols"] or [])
                        if r["err"]:
                            W.tape[:] = [b"ERR" + struct.pack("<H", r["err"]["code"])]
                    elif k == "long":
                        if s["n"]:
                            W.command(wire.COM_STMT_SEND_LONG_DATA, sid + struct.pack("<H", op[2] % s["n"]) + op[3].encode())
                            if not s["closed"]:
                                s["long"].add(op[2] % s["n"])
                    elif k == "sreset":
                        W.command(wire.COM_STMT_RESET, sid)
                        r = yield from W.read_ok_err()
                        if r["kind"] == "err":
                            W.tape[:] = [b"ERR" + struct.pack("<H", r["code"])]
                        s["long"] = set()
                        s["cols"] = None
                    else:
                        W.command(wire.COM_STMT_CLOSE, sid)
                        s["closed"] = True
                        s["cols"] = None
                elif k == "steal":
                    # the id of a statement that another connection holds (nobody's, when alone)
                    own = {s["id"] for s in stmts if not s["closed"]}
                    ids_ = sorted(x for x in held_ids(ci) if x not in own) or [7777]
                    sid_ = ids_[op[2] % len(ids_)]
                    if op[1] == "long":
                        W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", sid_, 0) + b"stolen")
                    elif op[1] == "close":
                        W.command(wire.COM_STMT_CLOSE, struct.pack("<I", sid_))
                    else:
                        if op[1] == "exec":
                            W.command(wire.COM_STMT_EXECUTE, W.execute_body(sid_, []))
                        elif op[1] == "fetch":
                            W.command(wire.COM_STMT_FETCH, struct.pack("<II", sid_, 2))
                        else:
                            W.command(wire.COM_STMT_RESET, struct.pack("<I", sid_))
                        r = yield from W.read_ok_err()
                        if r["kind"] != "err":
                            raise Violation("c08/foreign-id", "%s of statement %d, which this connection never prepared: %r" % (op[1], sid_, r["kind"]))
                        W.tape[:] = [b"ERR" + struct.pack("<H", r["code"])]
                elif k == "chuser":
                    plugin = b"mysql_native_password" if op[4] else b"mysql_clear_password"
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(op[1].encode(), b"", op[2].encode(), op[3], plugin))
                    r = yield from W.finish_auth(lambda *a: b"")
                    W.tape[:] = [p if p[:1] != b"\xfe" else p[:p.find(b"\0", 1)] for p in W.tape]
                    if r["kind"] != "ok":
                        put(k)
                        return
                    codec = {255: "utf-8", 33: "utf-8", 8: "cp1252"}[op[3]]
                elif k == "resetconn":
                    W.command(wire.COM_RESET_CONNECTION)
                    yield from W.read_ok_err()
                elif k == "fields":
                    W.command(wire.COM_FIELD_LIST, b"ann_db0\0")
                    yield from W.read_field_list()
                elif k == "bad":
                    if op[1] == "fetch":
                        W.command(wire.COM_STMT_FETCH, struct.pack("<II", 7777, 1))
                    else:
                        W.command(200)
                    yield from W.read_ok_err()
                else:
                    W.command(wire.COM_PING)
                    yield from W.read_ok_err()
                put(repr(op))
            W.command(wire.COM_QUERY, W.query_body(b"select connection_id()"))
            r = yield from W.read_resultset()
            W.tape.clear()
            expect(r["kind"] == "rs" and r["rows"] == [[str(h["id"]).encode()]], "c08/connection-id", "%r, announced %d" % (r, h["id"]))
            yield GO
            W.clean("at the end")
            W.command(wire.COM_QUIT)
            yield Cond(lambda: c.eof or c.rst)
        return go

    for ci, cl in enumerate(sc["clients"]):
        if only is None or ci == only:
            w.client(script(ci, cl), cl["net"] if only is None else None)
    w.run(std_server(app, identity=identity, cls=SharingSession if sc.get("shared") else None))
    unfinished(w, "c08")
    # what the sessions saw, by client
    calls = {}
    for s in app.sessions:
        ci = owner.get(s.cid)
        if ci is not None:
            calls[ci] = [e[1:] for e in app.log if e[0] == s.sid and e[1] in ("handle_query", "query", "use", "reset", "schema")]
    return w, tapes, calls, logs


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w, tapes, calls, logs = one_world(sc, ch, trace, None, o)
    finish(o, w)
    if o.violations:
        return o
    for ci, cl in enumerate(sc["clients"]):
        w2, t2, c2, l2 = one_world(sc, Chooser(seed="alone-%d" % ci), False, ci)
        v2 = list(w2.violations)
        w2.teardown()
        if v2:
            o.violations.append(("c08/alone:" + v2[0][0], "client %d alone: %s" % (ci, v2[0][1])))
            return o
        a, b = tapes.get(ci, []), t2.get(ci, [])
        o.probes["commands-compared"] += len(a)
        for j, (x, y) in enumerate(zip(a, b)):
            if x != y:
                o.violations.append(("c08/different-answer", "client %d, command %d %r: with others %r, alone %r" % (
                    ci, j, x[0], x[1][:6], y[1][:6])))
                return o
        if len(a) != len(b):
            o.violations.append(("c08/different-answer", "client %d: %d answers with others, %d alone" % (ci, len(a), len(b))))
            return o
        if cl["die"]:
            continue
        if calls.get(ci) != c2.get(ci) or logs.get(ci) != l2.get(ci):
            da = [x for x in zip(calls.get(ci) or [], c2.get(ci) or []) if x[0] != x[1]][:1]
            o.violations.append(("c08/different-calls", "client %d: %r" % (ci, da)))
            return o
    return o
