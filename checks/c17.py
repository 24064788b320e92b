"""C17: query attributes reach the application exactly as sent."""
from checks.common import *

ID = "C17"
LEVEL = "exploration"
QUICK_RUNS = 4000
THOROUGH_RUNS = 500000
RULE = ("A run is 1-4 clients, each with its own capabilities, sending COM_QUERY, COM_STMT_PREPARE, COM_STMT_EXECUTE, long data and "
        "malformed attribute blocks with 0-300 attributes of every wire type, while the application parks inside some statements and "
        "scribbles over the mapping it was given, another client kills statements, and deliveries are cut. For every statement the "
        "mapping, the SQL text and the bound literals the application got are compared, type included, with what was attached, on "
        "entry and again after the pause. Non-trivial: at least one statement carried attributes.")
STATE_RULE = "(command, number of attributes class, number of positional parameters class, wire types, NULLs, long data, server type)"
ASSUMPTIONS = ["an attribute with an empty name is attached under that name (the quantifier includes empty names)",
               "if a name is attached twice, either value may win",
               "a value of a type the server does not support may be refused with one ERR"]

INTS = {"TINY": "bB", "SHORT": "hH", "YEAR": "hH", "LONG": "iI", "INT24": "iI", "LONGLONG": "qQ"}
STRS = ["VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]
NAMES = ["a", "b", "traceparent", "A", "a ", " a", "key", "k\u00e9y", "\u043a\u043b\u044e\u0447", "select", "?", "'", "\\", "\"", "%s", "{0}", "_client", "a.b", "a\0b", "0", "None",
         "x" * 250, "x" * 251, "x" * 300, "mysql_query", "\n", "--", ";", "_client_license", "tracestate", "program_name", "query_id", "_pid", "sql", "*"]
TEXTS = ["", "v", "'", "\\", "?", "? '", "\0", "\0\1", "00-abc-01", "\u00e9\u00fc", "\u0434\u0430", "NULL", "1", "%s", "{0}", "; drop", "*/", "/*", "\\'", "x" * 250, "x" * 251, "y" * 255,
         "z" * 256, "w" * 1000, "\n", " ", "\u00ff", "\u00fb", "\u00fe"]
SQLS = ["select a from t", "\0select", "\0\1select a", "\1\1", "\2\1\0\1", "\0\1", "\0", "\1", "\2", "", "select ?", "\u00fc\1", "select '\u00e9'", "\x03\x03\x03", "\x01\x01\x00\x01\xfd\x00\x01a\x01b",
        "a", "\u00fb", "\xfe\xfe", "insert into t values (1)", "select /* \0 */ 1 from t", "\t\n select a from t ", "SELECT a FROM t -- x"]
TEMPL = [[0, "select a from t"], [1, "select ?"], [2, "insert into t values (?, ?)"], [1, "\0\1 select ?"], [3, "select ?, '?', ?, ?"], [7, "select " + ", ".join("?" * 7)],
         [8, "select " + ", ".join("?" * 8)], [9, "select " + ", ".join("?" * 9)], [20, "call p(" + ",".join("?" * 20) + ")"]]
CHARSETS = {255: "utf8mb4", 33: "utf8", 8: "latin1", 51: "cp1251", 45: "utf8mb4"}


def gen_value(rng):
    """[kind, wire type, unsigned, value]"""
    r = rng.random()
    if r < 0.4:
        s = rng.choice(TEXTS) if rng.random() < 0.7 else "".join(rng.choice(TEXTS[:24]) for _ in range(3))
        if rng.random() < 0.007:
            s = rng.choice(["L", "\u00e9"]) * rng.choice([32768, 40000, 65535, 65536, 70000])
        return ["str", rng.choice(STRS), rng.random() < 0.2, s]
    if r < 0.75:
        t = rng.choice(sorted(INTS))
        uns = rng.random() < 0.5
        bits = 8 * struct.calcsize(INTS[t][0])
        lo, hi = (0, 2**bits - 1) if uns else (-2**(bits - 1), 2**(bits - 1) - 1)
        return ["int", t, uns, rng.choice([lo, hi, 0, max(lo, -1), 1, rng.randint(lo, hi)])]
    if r < 0.77:
        return ["int", "BOOL", rng.random() < 0.5, rng.choice([0, 1])]
    if r < 0.9:
        return ["float", rng.choice(["FLOAT", "DOUBLE"]), rng.random() < 0.1, rng.choice(["0.0", "1.5", "-2.25", "1e30", "-0.0", "inf", "nan", "1e-30", "0.1"])]
    if r < 0.97:
        return ["null", rng.choice(["NULL", "VAR_STRING", "LONGLONG", "DOUBLE", "TINY"]), rng.random() < 0.5, None]
    return ["nulltype", "NULL", False, None]


def gen_attrs(rng, big=False):
    r = rng.random()
    n = 0 if r < 0.15 else rng.choice([1, 1, 2, 3]) if r < 0.75 else rng.choice([6, 7, 8, 9, 15, 16, 17]) if r < 0.95 else rng.choice([63, 64, 65, 250, 251, 252, 255, 256, 300])
    if big:
        n = rng.choice([1000, 65535, 65536])
    out = []
    for k in range(n):
        name = rng.choice(NAMES) if rng.random() < 0.6 else "n%d" % k
        if rng.random() < 0.9 and any(a[0] == name for a in out[-40:]):
            name = "n%d" % k
        if rng.random() < 0.04:
            name = ""
        out.append([name, gen_value(rng) if n < 40 or rng.random() < 0.1 else ["int", "TINY", False, k % 100]])
    return out


def gen_op(rng, big):
    r = rng.random()
    if r < 0.45:
        return {"op": "query", "sql": rng.choice(SQLS), "attrs": gen_attrs(rng, big), "gate": rng.random() < 0.2, "scribble": rng.random() < 0.3, "multi": rng.random() < 0.1}
    if r < 0.55:
        return {"op": "prepare", "t": rng.randrange(len(TEMPL))}
    if r < 0.85:
        return {"op": "exec", "k": rng.randrange(6), "vals": [gen_value(rng) for _ in range(rng.choice([3, 9, 20]))], "attrs": gen_attrs(rng, big),
                "gate": rng.random() < 0.2, "scribble": rng.random() < 0.3, "cursor": rng.random() < 0.15, "count": rng.random() < 0.3,
                "pnames": [rng.randrange(3) for _ in range(3)] if rng.random() < 0.25 else None}
    if r < 0.91:
        return {"op": "long", "k": rng.randrange(6), "idx": rng.choice([0, 0, 1, 2, 7]), "data": rng.choice(TEXTS)}
    if r < 0.94:
        return {"op": "bad", "what": rng.choice(["name", "value", "type", "count", "unbound"]), "attrs": gen_attrs(rng)[:9]}
    if r < 0.96:
        return {"op": "kill", "j": rng.randrange(4)}
    if r < 0.98:
        return {"op": "chuser"}
    return {"op": "ping"}


def gen(rng, i, tier):
    raw = rng.random() < 0.6
    sc = {"sched": gen_sched(rng), "raw": raw, "srv": rng.choice(["all", "all", "all", "noqa"]), "clients": []}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        big = tier == "thorough" and rng.random() < 0.002
        caps = gen_caps(rng) | (wire.QUERY_ATTRIBUTES if rng.random() < 0.5 else 0)
        sc["clients"].append({"net": gen_net(rng), "caps": caps, "charset": rng.choice(sorted(CHARSETS)), "prog": [gen_op(rng, big) for _ in range(rng.randint(2, 12))]})
    return gen_tls(rng, sc)


def clean(cs, s):
    """The part of a text the character set can represent."""
    codec = wire.CODECS[cs]
    out = []
    for ch in s:
        try:
            if ch.encode(codec).decode(codec) == ch:
                out.append(ch)
        except UnicodeError:
            pass
    return "".join(out)


def enc(v, cs):
    """-> ((type, unsigned, bytes or None), python value)"""
    kind, t, uns, val = v
    code = wire.T[t]
    if kind == "null":
        return (code, uns, None), None
    if kind == "nulltype":
        return (code, uns, b""), None
    if kind == "str":
        s = clean(cs, val)
        return (code, uns, wire.lstr(s.encode(wire.CODECS[cs]))), s
    if kind == "int":
        if t == "BOOL":
            return (code, uns, bytes([val & 0xFF])), val & 0xFF
        return (code, uns, struct.pack("<" + INTS[t][1 if uns else 0], val)), val
    b = struct.pack("<f" if t == "FLOAT" else "<d", float(val))
    return (code, uns, b), struct.unpack("<f" if t == "FLOAT" else "<d", b)[0]


def same(a, b):
    if isinstance(b, float):
        return isinstance(a, float) and struct.pack("<d", a) == struct.pack("<d", b)
    if isinstance(b, int):
        return isinstance(a, int) and a == b
    return type(a) is type(b) and a == b


def compare(got, sent, what):
    """The mapping got must be the named attributes sent: [(name, value)]."""
    want = {}
    for name, v in sent:
        want.setdefault(name, []).append(v)
    extra = [k for k in got if k not in want]
    if extra:
        raise Violation("c17/extra-attribute", "%s: the application also got %r" % (what, {k: got[k] for k in extra[:3]}))
    for name, vs in want.items():
        if name not in got:
            raise Violation("c17/lost-attribute", "%s: %r = %r did not arrive; got %d of %d" % (what, name, vs, len(got), len(want)))
        if not any(same(got[name], v) for v in vs):
            raise Violation("c17/altered-attribute", "%s: %r sent as %r, arrived as %r" % (what, name, vs[-1], got[name]))


def klass(n):
    return n if n < 3 else "3-8" if n < 9 else "9-250" if n < 251 else ">250"


def run(sc, ch, trace=False):
    from checks.c06 import read_literal
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {})
    raw = sc["raw"]
    plan = {}   # user -> what the statement in progress should do
    calls = {}  # user -> [(sql, attrs on entry)]

    async def answer(sess, expression, sql, attrs):
        user = sess.username
        p = plan.get(user) or {}
        before = dict(attrs)
        calls.setdefault(user, []).append((sql, before))
        if p.get("gate"):
            await w.gate("q", sess.cid)
            if list(attrs.items()) != list(before.items()) and repr(attrs) != repr(before):
                w.violate("c17/changed-meanwhile", "%s: the mapping changed from %r to %r while the statement was being handled" % (user, before, attrs))
        if p.get("scribble") and not p.get("multi"):
            attrs.clear()
            attrs["scribble-" + user] = "left by an earlier statement"
        return [(1,)], [ResultColumn("a", ColumnType.LONGLONG)]

    app.answer_fn = answer
    clients = []

    def script(ci, cl):
        def go(c):
            W = Wire(c)
            yield GO
            cs = CHARSETS[cl["charset"]]
            codec = wire.CODECS[cs]
            caps = cl["caps"]
            if sc["srv"] == "noqa":
                caps &= ~wire.QUERY_ATTRIBUTES
            user = "u%d" % ci
            r = yield from login(c, W, user=user.encode(), caps=caps, charset=cl["charset"], tls=cl.get("tls"))
            expect(r["kind"] == "ok", "c17/login", repr(r))
            W.caps = caps
            qa = bool(caps & wire.QUERY_ATTRIBUTES)
            stmts = []
            cids[ci] = W.hs["id"]
            for op in cl["prog"]:
                yield GO
                kind = op["op"]
                if kind == "ping":
                    W.command(wire.COM_PING)
                    yield from W.read_ok_err()
                    continue
                if kind == "kill":
                    # aimed at somebody else: at most one statement of theirs ends with an error
                    ids = [x for j, x in sorted(cids.items()) if j != ci]
                    if not ids or raw:
                        continue
                    target = ids[op.get("j", 0) % len(ids)]
                    W.command(wire.COM_QUERY, W.query_body(b"kill query %d" % target))
                    killed.add(target)
                    yield from W.read_resultset()
                    continue
                if kind == "chuser":
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(user.encode(), b"", b"", cl["charset"], b"mysql_native_password"))
                    r = yield from W.finish_auth(lambda *a: b"")
                    expect(r["kind"] == "ok", "c17/change-user", repr(r))
                    continue
                if kind == "prepare":
                    n, sql = TEMPL[op["t"] % len(TEMPL)]
                    if not raw:
                        sql = sql.replace("\0\1 ", "")
                        if sql.startswith("select") and "from" not in sql:
                            sql += " from t"
                    W.command(wire.COM_STMT_PREPARE, sql.encode(codec))
                    r = yield from W.read_prepare()
                    expect(r["kind"] == "prep" and r["nparams"] == n, "c17/prepare", "%r: %r" % (sql, r))
                    stmts.append({"id": r["id"], "n": n, "sql": sql, "long": {}})
                    continue
                if kind == "bad":
                    if not qa:
                        continue
                    body = W.query_body(b"select a from t", [(clean(cs, n).encode(codec), *enc(v, cs)[0]) for n, v in op["attrs"]] or [(b"n", 3, False, b"\1\0\0\0")])
                    yield from bad(W, c, body, op["what"], user)
                    continue
                sent = [(clean(cs, n), enc(v, cs)[1]) for n, v in op.get("attrs", [])] if qa else []
                wattrs = [(clean(cs, n).encode(codec),) + enc(v, cs)[0] for n, v in op.get("attrs", [])] if qa else []
                plan[user] = op
                n0 = len(calls.get(user, []))
                if kind == "query":
                    sql = clean(cs, op["sql"])
                    if not raw:
                        sql = "select a from t where b = 'x%s'" % sql.replace("\\", "").replace("'", "")
                        if op["multi"]:
                            sql = sql + ";" + sql + "; set wait_timeout = 5 ; select 2 from t"
                    W.command(wire.COM_QUERY, W.query_body(sql.encode(codec), wattrs))
                    r = yield from W.read_resultset()
                    what = "COM_QUERY %r with %d attributes" % (sql[:60], len(wattrs))
                    nst = 1 if raw or not op["multi"] else 3
                    full = sql
                    np = 0
                    longs = ()
                elif kind == "long":
                    if not stmts:
                        continue
                    s = stmts[op["k"] % len(stmts)]
                    d = clean(cs, op["data"]).encode(codec)
                    W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", s["id"], op["idx"]) + d)
                    if op["idx"] < s["n"]:
                        s["long"][op["idx"]] = s["long"].get(op["idx"], b"") + d
                    continue
                else:
                    if not stmts:
                        continue
                    s = stmts[op["k"] % len(stmts)]
                    np = s["n"]
                    vals = [v if v[0] != "float" or v[3] not in ("inf", "nan") else ["float", "DOUBLE", False, "1.5"] for v in op["vals"]]
                    vals = (vals + [["null", "NULL", False, None]] * np)[:np]
                    longs = tuple(s["long"])
                    params, values = [], []
                    # positional parameters may have names, too, which doesn't make them attributes
                    pnames = [(b"p%d" % j if k == 0 else b"" if k == 1 else b"a") if op.get("pnames") else b"" for j, k in zip(range(np), (op.get("pnames") or [0]) * np)]
                    for j, v in enumerate(vals):
                        if j in s["long"]:
                            params.append((pnames[j], wire.T["BLOB"], False, b""))
                            values.append(s["long"][j].decode(codec))
                        else:
                            e, x = enc(v, cs)
                            params.append((pnames[j],) + e)
                            values.append(x)
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(s["id"], params, wattrs, cursor=op["cursor"], long_idx=longs, force_count=op["count"]))
                    s["long"] = {}
                    r = yield from W.read_resultset(binary=True, cursor=op["cursor"])
                    what = "COM_STMT_EXECUTE %r with %d parameters, %d attributes" % (s["sql"][:60], np, len(wattrs))
                    nst = 1
                got = calls.get(user, [])[n0:]
                plan[user] = {}
                if r["kind"] == "err":
                    if cids.get(ci) in killed:
                        o.probes["killed"] += 1
                        for sql_, a in got:
                            compare(a, sent, what)
                        continue
                    raise Violation("c17/refused", "%s: %r" % (what, r))
                if len(got) != nst:
                    raise Violation("c17/statements", "%s: %d statements reached the application" % (what, len(got)))
                for sql_, a in got:
                    compare(a, sent, what)
                    if kind == "query":
                        if sql_ != full:
                            raise Violation("c17/sql-altered", "%s: sent %r, the application got %r" % (what, full, sql_))
                    else:
                        bound(sql_, s["sql"], values, what, read_literal)
                o.probes["statements"] += 1
                if sent:
                    o.nontrivial = True
                    o.probes["attributes"] += len(sent)
                if not qa:
                    o.probes["without-capability"] += 1
                o.states.add("%s %s %s %s N%d L%d %s qa%d" % (kind, klass(len(sent)), klass(np), sorted({v[1] for _, v in op.get("attrs", [])[:3]}) if sent else "",
                                                       any(v is None for _, v in sent), bool(longs), "raw" if raw else "sql", qa))
        return go

    cids = {}
    killed = set()

    def bad(W, c, body, what, user):
        """A damaged attribute block: one ERR, nothing reaches the application with made-up attributes, and the next command works."""
        n0 = len(calls.get(user, []))
        if what == "count":
            body = b"\xfe" + struct.pack("<Q", 2**62) + body[1:]
        elif what == "unbound":
            # the flag behind the NULL bitmap
            n = body[0] if body[0] < 251 else 0
            i = 2 + (n + 7) // 8
            if n == 0 or body[i] != 1:
                return
            body = body[:i] + b"\0" + body[i + 1:]
        elif what == "type":
            n = body[0] if body[0] < 251 else 0
            i = 2 + (n + 7) // 8 + 1
            if n == 0 or i >= len(body):
                return
            body = body[:i] + b"\x7b" + body[i + 1:]
        elif what == "name":
            body = body[:2 + (1 if body[0] else 0) + 1 + 2] + b"\xfd\xff\xff\x7f"
        else:
            body = body[:max(3, len(body) // 2)]
            if body[0] < 251 and body[0] <= 1:
                body = body[:6]
        W.command(wire.COM_QUERY, body)
        r = yield from W.read_resultset()
        o.probes["damaged-block"] += 1
        W.command(wire.COM_PING)
        r2 = yield from W.read_ok_err()
        expect(r2["kind"] == "ok", "c17/after-damage", repr(r2))

    for ci, cl in enumerate(sc["clients"]):
        clients.append(w.client(script(ci, cl), cl["net"]))
    kw = tls_kw(sc)
    if sc["srv"] == "noqa":
        kw["capabilities"] = Capabilities(DEFAULT_SERVER_CAPABILITIES & ~wire.QUERY_ATTRIBUTES)
    w.run(std_server(app, cls=RawSession if raw else AppSession, **kw))
    unfinished(w, "c17")
    return finish(o, w)


def bound(sql, template, values, what, read_literal):
    """sql is the template with these values at its placeholders (blanks may separate literals)."""
    pieces = split(template)
    p = 0
    for j, piece in enumerate(pieces):
        if not sql.startswith(piece, p):
            raise Violation("c17/sql-altered", "%s: piece %r not at offset %d of %r" % (what, piece, p, sql[:300]))
        p += len(piece)
        if j < len(values):
            while sql[p:p + 1] == " ":
                p += 1
            lit = read_literal(sql, p)
            v = values[j]
            ok = lit is not None and (
                lit[0] == "null" if v is None else
                lit[0] == "str" and lit[1] == v if isinstance(v, str) else
                lit[0] in ("int", "float") and float(lit[1]) == v if isinstance(v, float) else lit[0] == "int" and lit[1] == v)
            if not ok:
                raise Violation("c17/parameter-altered", "%s: parameter %d is %r, the application got %r" % (what, j, v, sql[p:p + 80]))
            p = lit[2]
    if sql[p:].strip():
        raise Violation("c17/sql-altered", "%s: extra text %r" % (what, sql[p:p + 60]))


def split(t):
    """Pieces of the few templates used here ('?' is the only quoted question mark)."""
    out, cur, i = [], "", 0
    while i < len(t):
        if t.startswith("'?'", i):
            cur += "'?'"
            i += 3
        elif t[i] == "?":
            out.append(cur)
            cur = ""
            i += 1
        else:
            cur += t[i]
            i += 1
    return out + [cur]
