"""C03: every command gets exactly one complete, well-formed response."""
from checks.common import *
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.types import Capabilities

ID = "C03"
LEVEL = "exploration"
QUICK_RUNS = 4000
THOROUGH_RUNS = 900000
RULE = ("A run is 1-3 clients, each executing a generated program of 4-25 commands (all commands the server knows, unknown "
        "ones and invalid uses) under randomly negotiated capabilities, against an application whose callbacks delay and "
        "fail (before the metadata, at row k, in use/reset/schema, with unencodable values, bad result shapes), over "
        "connections with partial sends, small socket buffers and slow readers. Every response is parsed strictly, its kind "
        "and row count compared with the model, and the connection checked for unsolicited bytes. Non-trivial: at least "
        "three commands answered and one of them failed.")
STATE_RULE = "(command, capabilities EOF/attrs, expected class, observed class, failure point)"

EXCS = ["mysql", "mysql_unicode", "value", "key", "assert", "os", "timeout", "runtime", "stopiter", "eof", "incomplete",
        "connreset", "recursion", "memory", "longmsg"]
EXC["longmsg"] = lambda: MysqlError("m" * 70000, ErrorCode.UNKNOWN_ERROR)
ROWEXC = ["mysql", "value", "os", "timeout", "runtime", "incomplete", "key", "connreset", "longmsg", "eof"]
SRC = ["list", "tuple", "lists", "gen", "iterable", "agen", "aiter", "aiterable"]


def gen_table(rng, k, big):
    """-> result spec; what a client must see follows from it"""
    r = rng.random()
    if r < 0.06:
        return {"kind": "none"}
    if r < 0.12:
        return {"kind": "empty"}
    if r < 0.22:
        return {"kind": "raise", "exc": rng.choice(EXCS), "gate": rng.random() < 0.3}
    if r < 0.26:
        return {"kind": "bad", "n": rng.randint(0, 1)}
    nc = rng.choice([1, 2, 7, 8, 9, 16, 40, 250, 251, 252, 300] if big else [1, 1, 2, 3, 3, 7, 8, 9])
    nr = rng.choice([0, 1, 2, 10, 40, 150, 256, 300] if big else [0, 0, 1, 2, 3, 3, 10])
    if nc > 20:
        nr = min(nr, 5)
    cols = []
    row = []
    typed = rng.random()
    for j in range(nc):
        name = rng.choice(["c%d" % j, "c%d" % j, "\u00e9\u2603 %d" % j, "", "n" * rng.choice([250, 251, 300]) if j < 3 else "c"])
        t = rng.choice(["LONGLONG", "VARCHAR", "DOUBLE", "LONG", "BLOB", "TINY", "DATE", "DATETIME", "TIME", "NULL"])
        v = {"LONGLONG": j, "VARCHAR": "v%d" % j, "DOUBLE": 1.5, "LONG": -j, "BLOB": ["b", "00ff"], "TINY": 1,
             "DATE": ["d", [2020, 1, 2]], "DATETIME": ["dt", [2020, 1, 2, 3, 4, 5, 6]], "TIME": ["td", [0, 10, 0]], "NULL": None}[t]
        if rng.random() < 0.2:
            v = None
        if big and t == "VARCHAR" and v is not None and nr < 5 and nc < 10 and rng.random() < 0.1:
            v = ["rep", "x", rng.choice([249, 250, 251, 252, 65535, 65536, 70000])]
        cols.append({"name": name, "type": None if rng.random() < typed else t})
        row.append(v)
    rows = [row] if nr else []
    spec = {"kind": "rows", "cols": cols, "rows": rows, "repeat": nr, "src": rng.choice(SRC)}
    if rng.random() < 0.25 and nr:
        spec["fail_at"] = rng.choice([0, 1, nr - 1, nr, rng.randrange(nr + 1)])
        spec["exc"] = rng.choice(ROWEXC)
    if rng.random() < 0.2:
        spec["gate"] = True
    if rng.random() < 0.2:
        spec["gates"] = sorted({rng.randrange(nr + 1) for _ in range(3)})
    if rng.random() < 0.12 and nr:
        # a value the column can't carry
        j = rng.randrange(nc)
        cols[j]["type"] = rng.choice(["LONG", "DATE", "TIME", "DOUBLE", "TINY"])
        bad = list(row)
        bad[j] = "not a number \u2603"
        spec["rows"] = [row, bad]
        spec["unenc"] = True
        if rng.random() < 0.5:
            cols[j]["type"] = "VARCHAR"
            cols[j]["cs"] = "latin1"
    if rng.random() < 0.05 and all(c["type"] for c in cols):
        spec["resultset"] = True
    if rng.random() < 0.1:
        spec["yield_every"] = 3
    return spec


SIMPLE = ["set autocommit = 1", "select 1", "select @@version", "show tables", "use db1", "begin", "commit", "rollback",
          "show databases", "show variables", "select connection_id()", "set names utf8mb4", "kill 99999999",
          "show columns from t1", "describe t1", "select table_name from information_schema.tables", "show warnings",
          "select 1; select 2", "set autocommit = 0; select 1, 2", "", ";", "-- nothing", "select (", "set nosuch = 1",
          "select @@nosuch", "kill abc", "show nonsense", "use `a b`", "select /*+ set_var(autocommit=1) */ 1",
          "selec 1", "select 1 where 1 = 0", "'unterminated", "select now()", "explain select 1", "\u2603"]


def gen_cmd(rng, tables):
    r = rng.random()
    t = rng.choice(tables)
    if r < 0.28:
        return {"op": "query", "table": t}
    if r < 0.36:
        return {"op": "query", "sql": rng.choice(SIMPLE), "table": None}
    if r < 0.40:
        return {"op": "query", "table": t, "pre": True}
    if r < 0.50:
        n = rng.choice([0, 0, 1, 2, 3, 10, 255, 300])
        return {"op": "prepare", "table": t, "n": n}
    if r < 0.66:
        return {"op": "execute", "k": rng.choice([-1, -1, rng.randrange(8)]), "cursor": rng.random() < 0.4, "bad": rng.choice([None] * 9 + ["id"]),
                "attrs": rng.choice([0, 0, 1, 2])}
    if r < 0.74:
        return {"op": "fetch", "k": rng.choice([-1, -1, -1, rng.randrange(8)]), "n": rng.choice([0, 1, 2, 3, 10, 100, 1000]), "bad": rng.random() < 0.1}
    if r < 0.78:
        return {"op": "long", "k": rng.randrange(8), "idx": rng.choice([0, 0, 1, 7, 65535]), "data": "61" * rng.choice([0, 1, 300]),
                "bad": rng.random() < 0.2}
    if r < 0.81:
        return {"op": "stmt_close", "k": rng.randrange(8), "bad": rng.random() < 0.2}
    if r < 0.84:
        return {"op": "stmt_reset", "k": rng.randrange(8), "bad": rng.random() < 0.2}
    if r < 0.88:
        return {"op": "ping"}
    if r < 0.90:
        return {"op": "initdb", "db": rng.choice(["db1", "", "d\u00e9"])}
    if r < 0.93:
        return {"op": "fields", "table": rng.choice(["t1", "t2", "nosuch", "we ird", "select"]), "wild": rng.choice(["", "%", "a%"])}
    if r < 0.95:
        return {"op": "resetconn"}
    if r < 0.96:
        return {"op": "debug"}
    if r < 0.98:
        return {"op": "unknown", "code": rng.choice([0, 5, 6, 7, 9, 10, 12, 15, 16, 18, 20, 27, 29, 30, 32, 100, 255])}
    return {"op": "change_user"}


def gen_prog(rng, tables):
    prog = []
    for _ in range(rng.randint(4, 22)):
        c = gen_cmd(rng, tables)
        if c["op"] == "execute" and c["cursor"] and rng.random() < 0.7:
            prog.append({"op": "prepare", "table": rng.choice(tables), "n": rng.choice([0, 1, 3])})
            prog.append(dict(c, k=-1, bad=None))
            for _ in range(rng.randint(1, 4)):
                prog.append({"op": "fetch", "k": -1, "n": rng.choice([0, 1, 2, 3, 10, 1000]), "bad": False})
        else:
            prog.append(c)
    return prog


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2, 3])
    tables = ["q%d" % k for k in range(rng.randint(2, 6))]
    big = rng.random() < 0.3
    res = {t: gen_table(rng, k, big) for k, t in enumerate(tables)}
    sc = {"sched": gen_sched(rng), "results": res, "clients": [],
          "app": {"gates": [], "faults": []},
          "schema": {"db1": {"t1": {"a": "INT", "b\u00e9": "TEXT"}, "t2": {"ab": "INT"}, "we ird": {"x": "INT"}, "select": {"y": "INT"}},
                     "d\u00e9": {}}}
    if rng.random() < 0.25:
        # the application may configure what the server offers
        add = drop = 0
        for x in (wire.OPTIONAL_METADATA, wire.OPTIONAL_METADATA, wire.TRANSACTIONS, wire.MULTI_STATEMENTS | wire.MULTI_RESULTS, wire.LONG_FLAG):
            if rng.random() < 0.4:
                add |= x
        for x in (wire.DEPRECATE_EOF, wire.QUERY_ATTRIBUTES, wire.LENENC_AUTH, wire.CONNECT_ATTRS, wire.PLUGIN_AUTH):
            if rng.random() < 0.15:
                drop |= x
        sc["srv"] = [add, drop]
    if rng.random() < 0.3:
        sc["app"]["gates"] = rng.sample(["query", "handle_query", "use", "reset", "schema", "get_user"], rng.randint(1, 2))
    if rng.random() < 0.4:
        sc["app"]["faults"] = [[rng.choice(["query", "handle_query", "use", "reset", "schema"]), rng.randint(0, 6),
                                rng.choice(EXCS)] for _ in range(rng.randint(1, 3))]
    for _ in range(n):
        cl = {"net": gen_net(rng, faults=not big), "caps": gen_caps(rng), "prog": gen_prog(rng, tables),
              "pipeline": rng.random() < 0.15, "quit": rng.random() < 0.5, "quiesce": rng.random() < 0.3}
        for extra in (wire.SESSION_TRACK, wire.FOUND_ROWS, wire.MULTI_STATEMENTS | wire.MULTI_RESULTS, wire.OPTIONAL_METADATA, wire.OPTIONAL_METADATA,
                      wire.PS_MULTI_RESULTS, wire.INTERACTIVE, wire.LONG_FLAG):
            if rng.random() < 0.15:
                cl["caps"] |= extra
        if rng.random() < 0.08:
            cl["caps"] &= ~wire.PLUGIN_AUTH
        if rng.random() < 0.1:
            cl["caps"] &= ~wire.TRANSACTIONS
        if big and cl["net"].get("c2s") == "byte":
            cl["net"]["c2s"] = "rand"
        if big and rng.random() < 0.5:
            cl["net"]["sndbuf"] = rng.choice([4096, 30000, 32768, 65536])
            if rng.random() < 0.5:
                cl["net"]["read_max"] = rng.choice([1000, 5000])
        sc["clients"].append(cl)
    return gen_tls(rng, sc)


def spec_outcome(spec, binary):
    """-> (class, nrows or None) a response to this result must have; classes: ok err rs"""
    k = spec.get("kind", "rows")
    if k in ("none", "empty"):
        return "ok", 0
    if k in ("raise", "bad"):
        return "err", 0
    total = spec["repeat"] * len(spec["rows"])
    if spec.get("unenc"):
        return "rs?", None
    if spec.get("fail_at") is not None:
        return "fail", spec["fail_at"]
    return "rs", total


def run(sc, ch, trace=False):
    o = Outcome()
    w = World(ch, sc.get("sched"), trace)
    app = App(w, dict(sc["app"], results=sc["results"], schema=sc["schema"]))
    faulty = bool(sc["app"]["faults"])

    def tag(cmd, caps):
        return cmd["op"] + ("/D" if caps & wire.DEPRECATE_EOF else "") + ("/Q" if caps & wire.QUERY_ATTRIBUTES else "")

    def check_rs(r, spec, where, binary, caps, cmd):
        """r: dict from read_resultset"""
        cls, n = spec_outcome(spec, binary)
        kind = r["kind"]
        if kind == "err":
            o.probes["err-before-metadata"] += 1
        elif kind == "rs" and r["err"]:
            o.probes["err-after-%s" % ("rows" if r["nrows"] else "metadata")] += 1
        o.states.add("%s %s %s%s" % (tag(cmd, caps), cls, kind, "+err" if kind == "rs" and r["err"] else ""))
        if kind == "rs" and len(r["cols"]) != len(spec.get("cols", [])) and not r["err"]:
            raise Violation("c03/columns", "%s: %d columns, application returned %d" % (where, len(r["cols"]), len(spec.get("cols", []))))
        if kind == "err" or (kind == "rs" and r["err"]):
            if cls in ("rs", "ok") and not faulty:
                raise Violation("c03/spurious-error", "%s: %r" % (where, r if kind == "err" else r["err"]))
            if kind == "rs" and cls == "fail" and r["nrows"] > n:
                raise Violation("c03/rows-after-failure", "%s: %d rows, source failed at row %d" % (where, r["nrows"], n))
            return
        if cls in ("err", "fail"):
            raise Violation("c03/missing-error", "%s: failed in the application (%s), answered %s" % (where, spec.get("exc") or "bad result", kind))
        if cls == "ok" and kind != "ok" or cls == "rs" and kind != "rs":
            raise Violation("c03/kind", "%s: application result %s answered with %s" % (where, cls, kind))
        if cls == "rs" and not r.get("cursor") and r["nrows"] != n:
            raise Violation("c03/row-count", "%s: %d rows, application returned %d" % (where, r["nrows"], n))

    def script(cl):
        caps = cl["caps"]

        def go(c):
            W = Wire(c)
            yield GO
            r = yield from login(c, W, b"root", caps=caps, tls=cl.get("tls"))
            if r["kind"] != "ok":
                if faulty and r["kind"] == "err":
                    return
                raise Violation("c03/login", repr(r))
            stmts = []  # dicts
            broken = False

            def pick(cmd):
                if cmd["k"] == -1 and cmd["op"] == "fetch":
                    for s in reversed(stmts):
                        if s["cursor"]:
                            return s
                return stmts[cmd["k"] % len(stmts)] if stmts else None

            def send(cmd):
                """-> reader generator function or None"""
                op = cmd["op"]
                if op == "query":
                    sql = cmd["sql"] if not cmd.get("table") else (
                        "set autocommit = 1; " if cmd.get("pre") else "") + "select * from %s" % cmd["table"]
                    W.command(wire.COM_QUERY, W.query_body(sql.encode()))

                    def rd():
                        r = yield from W.read_resultset()
                        where = "COM_QUERY %r" % sql
                        if cmd.get("table"):
                            check_rs(r, sc["results"][cmd["table"]], where, False, caps, cmd)
                        else:
                            o.states.add("%s simple %s" % (tag(cmd, caps), r["kind"]))
                            if r["kind"] == "rs" and r["err"] and not faulty:
                                raise Violation("c03/spurious-error", "%s: %r" % (where, r["err"]))
                        return r["kind"] == "err" or bool(r.get("err"))
                    return rd
                if op == "prepare":
                    marks = ", ".join(["?"] * cmd["n"])
                    sql = "select * from %s where x in (%s)" % (cmd["table"], marks) if cmd["n"] else "select * from %s" % cmd["table"]
                    W.command(wire.COM_STMT_PREPARE, sql.encode())

                    def rd():
                        r = yield from W.read_prepare()
                        if r["kind"] == "err":
                            raise Violation("c03/prepare-failed", repr(r))
                        if r["nparams"] != cmd["n"]:
                            raise Violation("c03/param-count", "%d announced, %d placeholders" % (r["nparams"], cmd["n"]))
                        if any(s["id"] == r["id"] and not s["closed"] for s in stmts):
                            raise Violation("c03/stmt-id-reused", str(r["id"]))
                        stmts.append({"id": r["id"], "table": cmd["table"], "n": cmd["n"], "closed": False, "cursor": None, "cols": None})
                        return False
                    return rd
                if op == "execute":
                    s = pick(cmd)
                    sid = 0xFFFF0000 if s is None or cmd["bad"] == "id" else s["id"]
                    gone = s is None or cmd["bad"] == "id" or s["closed"]
                    n = 0 if s is None else s["n"]
                    params = [(b"", wire.T["LONGLONG"], False, struct.pack("<q", j)) for j in range(n)]
                    attrs = [(b"a%d" % j, wire.T["VAR_STRING"], False, wire.lstr(b"v")) for j in range(cmd["attrs"])]
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(sid, params, attrs if caps & wire.QUERY_ATTRIBUTES else (), cursor=cmd["cursor"]))
                    if not gone:
                        s["cursor"] = None

                    def rd():
                        if not gone and cmd["cursor"]:
                            r = yield from W.read_resultset(binary=True, cursor=True)
                            r["cursor"] = True
                        else:
                            r = yield from W.read_resultset(binary=True)
                        if gone:
                            if r["kind"] != "err":
                                raise Violation("c03/missing-error", "COM_STMT_EXECUTE of an unknown statement: %s" % r["kind"])
                            return True
                        spec = sc["results"][s["table"]]
                        where = "COM_STMT_EXECUTE of %r%s" % (s["table"], " with cursor" if cmd["cursor"] else "")
                        if cmd["cursor"] and r["kind"] == "rs" and not r["err"]:
                            cls, n2 = spec_outcome(spec, True)
                            if cls in ("ok", "err"):
                                raise Violation("c03/kind", "%s: result set for %s" % (where, cls))
                            if not r["term"]["status"] & wire.ST_CURSOR_EXISTS:
                                raise Violation("c03/no-cursor", where)
                            s["cursor"] = True
                            s["cols"] = r["cols"]
                            o.probes["cursor-opened"] += 1
                        else:
                            check_rs(r, spec, where, True, caps, cmd)
                        return r["kind"] == "err" or bool(r.get("err"))
                    return rd
                if op == "fetch":
                    s = pick(cmd)
                    sid = 0xFFFF0000 if s is None or cmd["bad"] else s["id"]
                    W.command(wire.COM_STMT_FETCH, struct.pack("<II", sid, cmd["n"]))
                    # the answer needs the columns of the execute before it, read by then

                    def rd():
                        known = s is not None and not s["closed"] and not cmd["bad"]
                        cols = s["cols"] if known and s["cols"] else []
                        r = yield from W.read_fetch(cols)
                        if r["err"]:
                            o.probes["fetch-err"] += 1
                            return True
                        if not known or not s["cursor"]:
                            if not known or r["rows"]:
                                raise Violation("c03/fetch", "rows or success without a statement or cursor")
                        if len(r["rows"]) > cmd["n"]:
                            raise Violation("c03/fetch-count", "%d rows for %d requested" % (len(r["rows"]), cmd["n"]))
                        o.probes["fetch-ok"] += 1
                        return False
                    return rd
                if op == "long":
                    s = pick(cmd)
                    sid = 0xFFFF0000 if s is None or cmd["bad"] else s["id"]
                    # only for a parameter that isn't there: data for a real one would change the next execute
                    idx = cmd["idx"] if s is None else max(cmd["idx"], s["n"])
                    W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", sid, idx & 0xFFFF) + bytes.fromhex(cmd["data"]))
                    return None
                if op == "stmt_close":
                    s = pick(cmd)
                    sid = 0xFFFF0000 if s is None or cmd["bad"] else s["id"]
                    if s is not None and not cmd["bad"]:
                        s["closed"] = True
                        s["cursor"] = None
                    W.command(wire.COM_STMT_CLOSE, struct.pack("<I", sid))
                    return None
                if op == "stmt_reset":
                    s = pick(cmd)
                    sid = 0xFFFF0000 if s is None or cmd["bad"] else s["id"]
                    W.command(wire.COM_STMT_RESET, struct.pack("<I", sid))
                    gone = s is None or cmd["bad"] or s["closed"]
                    if not gone:
                        s["cursor"] = None

                    def rd():
                        r = yield from W.read_ok_err()
                        if gone and r["kind"] != "err":
                            raise Violation("c03/missing-error", "COM_STMT_RESET of an unknown statement")
                        if not gone and r["kind"] == "err" and not faulty:
                            raise Violation("c03/spurious-error", "COM_STMT_RESET: %r" % r)
                        return r["kind"] == "err"
                    return rd
                if op == "fields":
                    W.command(wire.COM_FIELD_LIST, cmd["table"].encode() + b"\0" + cmd["wild"].encode())

                    def rd():
                        r = yield from W.read_field_list()
                        if r["err"] and not faulty:
                            raise Violation("c03/spurious-error", "COM_FIELD_LIST: %r" % r["err"])
                        return bool(r["err"])
                    return rd
                if op == "change_user":
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(b"root", b"", charset=255, plugin=b"mysql_native_password"))

                    def rd():
                        r = yield from W.finish_auth(lambda *a: b"")
                        if r["kind"] != "ok":
                            if not faulty:
                                raise Violation("c03/spurious-error", "COM_CHANGE_USER: %r" % r)
                            return "end"
                        return False
                    return rd
                code, body = {"ping": (wire.COM_PING, b""), "initdb": (wire.COM_INIT_DB, cmd.get("db", "").encode()),
                              "resetconn": (wire.COM_RESET_CONNECTION, b""), "debug": (wire.COM_DEBUG, b""),
                              "unknown": (cmd.get("code"), b"abc")}[op]
                W.command(code, body)

                def rd():
                    if op == "debug":
                        p = yield from W.read_packet()
                        if p[:1] == b"\xfe":
                            wire.parse_eof(p, caps)
                            return False
                        if p[:1] == b"\0":
                            wire.parse_ok(p, W.caps)
                            return False
                        r = wire.parse_err(p, W.caps)
                    else:
                        r = yield from W.read_ok_err()
                    if op == "unknown":
                        if r["kind"] != "err":
                            raise Violation("c03/missing-error", "unknown command %d: %s" % (code, r["kind"]))
                    elif r["kind"] == "err" and not (faulty and op in ("initdb", "resetconn")):
                        raise Violation("c03/spurious-error", "%s: %r" % (op, r))
                    return r["kind"] == "err"
                return rd

            prog = list(cl["prog"])
            failed = 0
            done = 0
            while prog:
                if c.done:
                    break
                yield GO
                batch = [prog.pop(0)]
                if cl["pipeline"] and batch[0]["op"] in ("query", "ping", "initdb", "unknown", "debug"):
                    while prog and prog[0]["op"] in ("query", "ping", "initdb", "unknown", "debug") and len(batch) < 4:
                        batch.append(prog.pop(0))
                readers = []
                for cmd in batch:
                    if len(batch) > 1:
                        # send back to back; answers must come in order
                        keep = bytes(c.inbuf)
                        c.inbuf.clear()
                        readers.append((cmd, send(cmd)))
                        c.inbuf[:0] = keep
                    else:
                        readers.append((cmd, send(cmd)))
                if len(batch) > 1:
                    o.probes["pipelined"] += 1
                for cmd, rd in readers:
                    done += 1
                    o.probes["cmd-" + cmd["op"]] += 1
                    if rd is None:
                        continue
                    W.seq = 1
                    try:
                        f = yield from rd()
                    except Closed as e:
                        raise Violation("c03/closed", "connection closed instead of a complete answer to %r (%s)" % (cmd, e))
                    if f == "end":
                        return
                    failed += bool(f)
                if cl["quiesce"]:
                    yield QUIESCE
                    W.clean("after %r" % (batch[-1],))
                    o.probes["quiescent-clean"] += 1
            yield QUIESCE
            W.clean("at the end of the program")
            if failed and done > 3:
                o.nontrivial = True
            if cl["quit"]:
                W.command(wire.COM_QUIT)
                yield Cond(lambda: c.eof or c.rst or c.inbuf)
                W.clean("after COM_QUIT")
                o.probes["quit-closed"] += 1
        return go

    o.nontrivial = False
    for cl in sc["clients"]:
        w.client(script(cl), cl["net"])
    kw = tls_kw(sc)
    if "srv" in sc:
        add, drop = sc["srv"]
        kw["capabilities"] = Capabilities((DEFAULT_SERVER_CAPABILITIES | add) & ~drop)
    w.run(std_server(app, **kw))
    if not w.violations:
        for c in w.clients:
            if not c.done:
                w.violate("c03/no-answer", "client %d still waits (%r) when nothing can happen any more; %d unread bytes %r" % (
                    c.idx, c.wait, len(c.inbuf), bytes(c.inbuf[:40])))
            elif isinstance(c.error, Closed):
                w.violate("c03/closed", "client %d: %s" % (c.idx, c.error))
    return finish(o, w)
