"""C06: prepared-statement parameters are bound as data, never as SQL."""
from checks.common import *
from sqlglot.dialects import MySQL

ID = "C06"
LEVEL = "exploration"
QUICK_RUNS = 6000
THOROUGH_RUNS = 600000
RULE = ("A run is 1-3 clients that prepare statements assembled from pieces (so the positions of the placeholders are known "
        "by construction), send long data in chunks interleaved between parameters and statements, execute, re-execute, reset "
        "and close, while other clients do the same and deliveries are cut. The statement the application receives must be "
        "the pieces unchanged with, between them, one literal each; an independent reader of MySQL literals must get exactly "
        "the value sent, and tokenising the statement must give the template's tokens with only the placeholders replaced. "
        "Non-trivial: at least one execution with a hostile string (quotes, backslashes, question marks, pattern characters).")
STATE_RULE = "(value kind, wire type, piece before, piece after, long data)"

STARTS = ["select ", "select a, ", "insert into t values (", "update t set `a?b` = ", 'select "x?y", ', "select 'it''s ?', ",
          "select 'q\\'?', ", "select '\\\\', ", "select 'a\\\\\\'?', ", "call p(", "select * from t where a=", "select -", "select * from t where a in(",
          "select a -", "select/* c */", "select `we``ird?` , ", 'select "a\\"?", ', 'select "say ""?""", ', "select '\u2603?', ", "select '', ",
          "select", "select '\"?', ", "select \"'?\", ", "select `'?`, ", "select '`?', ", "select '/*?', ", "select '-- ?', ", "select '\n?', ",
          "select * from t where a = 'x' and b>", "select '%s {0} \\1', ", "replace into `t` set a =\t", "select `a\\`, ", "select /* ? */ ", "select 1 -- ?\n, ", "select 'a'", "select `a`.", "select a as `b`", "select \"it\"", "select N'x', ", "select 'a' 'b'", "select 'a' ; select ", "select 1 /* it's */ , "]
MIDS = [", ", ",", " and b = ", " and b=", "+", "-", " - ", "=", "), (", " or c like ", ", 'lit ? eral', ", ", `co?l`, ", ', "d?q", ',
        " /* x */ , ", "\n,\n", " , \"a''?b\" , ", ", '', ", ", '?', ", "and y=", "<>", "*", "/", "||", " , '\\\\', ", ", 'it''s', ", ", `b\\`, ", " /* ? */ , ", ", /*'*/ ", " -- ?\n, ", " # ?'\n, ", ", `c\"`, ", " in (", ",`?`,",
        ", '\\'?', ", " -- line\n, ", " # it's\n, ", ",'%d', ", "'al', ", "'', ", '"al", ', "`al`, ", " 'al', ", "as c, ", "'?', ", '"?", ']
ENDS = ["", "", ")", " limit 1", " -- done", " # tail it's", ";", " for update", " and z='?'", " order by `?`", ", '\\\\'", " /* end */", " -- `?", " # ?", " /* ? */", ", `d\\`", "and 1", " as \"?\"", "'al'", "''", '"al"', "`al`", "'?'",
        ", 'a''?'", "\n"]

NASTY = ["'", "''", "\\", "\\'", "\\\\", "\\\\'", "' or 1=1 -- ", "?", "??", "'?'", "\"", "`", "\\1", "\\g<0>", "\\g<1>", "%s", "{0}", "{}", "$1", "\0",
         "\n", "\r\n", "\x1a", "--", "-- x", "#", "/*", "*/", "/* ? */", ";", "; drop table t", "\\n", "\\x", "\\u0041", "\u2603", "\U0001F600", "\\0", "",
         " ", "a'b", "a\\", "\\''", "'\\", "NULL", "1", "-1", "x'41'", "\\N", "\t", "\\%", "\\_", "a" * 300, "\u02bc", "\uff07", "\u2019", "\\\u2019", "%", "_"]

# what the application does with an execution
APP = ["ok"] * 7 + ["park", "park", "raise", "raise", "rows", "none"]
INTS = {"TINY": ("b", "B"), "SHORT": ("h", "H"), "YEAR": ("h", "H"), "LONG": ("i", "I"), "INT24": ("i", "I"), "LONGLONG": ("q", "Q"), "BOOL": ("B", "B")}
# types a server may refuse; (wire bytes, text)
OTHER = {"DATE": [(b"\4\xe4\7\1\2", "2020-01-02"), (b"\0", "0000-00-00")], "DATETIME": [(b"\7\xe4\7\1\2\3\4\5", "2020-01-02 03:04:05"), (b"\4\xe4\7\1\2", "2020-01-02")],
         "TIMESTAMP": [(b"\x0b\xe4\7\1\2\3\4\5\1\0\0\0", "2020-01-02 03:04:05.000001")], "TIME": [(b"\x08\1\1\0\0\0\2\3\4", "-26:03:04"), (b"\0", "00:00:00")],
         "NEWDECIMAL": [(b"\0041.50", "1.50"), (b"\0041\x27--", "1\x27--")], "JSON": [(b"\5[1,2]", "[1,2]")], "BIT": [(b"\2\1\2", "\1\2")], "ENUM": [(b"\1a", "a")]}
STRS = ["VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]


def nasty(rng):
    n = rng.choice([1, 1, 1, 2, 3, 6])
    return "".join(rng.choice(NASTY) for _ in range(n))


def gen_val(rng):
    """[kind, wire type, unsigned, value]"""
    r = rng.random()
    if r < 0.6:
        if rng.random() < 0.05:
            return ["str", rng.choice(STRS), False, nasty(rng) * rng.choice([100, 400])]
        return ["str", rng.choice(STRS), False, nasty(rng)]
    if r < 0.8:
        t = rng.choice(sorted(INTS))
        uns = rng.random() < 0.5
        if t == "BOOL":
            return ["int", t, uns, rng.choice([0, 1, 1, 255])]
        bits = {"b": 8, "h": 16, "i": 32, "q": 64}[INTS[t][0]]
        lo, hi = (0, 2**bits - 1) if uns else (-2**(bits - 1), 2**(bits - 1) - 1)
        return ["int", t, uns, rng.choice([lo, hi, 0, max(lo, -1), 1, rng.randint(lo, hi)])]
    if r < 0.9:
        t = rng.choice(["FLOAT", "DOUBLE"])
        v = rng.choice([0.0, 1.0, -1.5, 0.1, 1e16, -1e-7, 1e300 if t == "DOUBLE" else 1e30, 5e-324 if t == "DOUBLE" else 1e-40, 123456.75,
                        rng.uniform(-1e5, 1e5), -0.0])
        return ["float", t, False, repr(v)]
    if r < 0.92:
        return ["float", rng.choice(["FLOAT", "DOUBLE"]), False, rng.choice(["inf", "-inf", "nan"])]
    if r < 0.93:
        t = rng.choice(sorted(OTHER))
        return ["other", t, rng.random() < 0.3, rng.randrange(len(OTHER[t]))]
    if r < 0.97:
        return ["null", rng.choice(["NULL", "VAR_STRING", "LONGLONG", "DOUBLE"]), rng.random() < 0.5, None]
    return ["null2", "NULL", False, None]  # NULL by type, not by bitmap


def quoted(rng):
    """A string, identifier or comment with question marks in it"""
    q = rng.choice("''\"\"``*")
    own = {"'": ["''", "\\'", "\\\\"], '"': ['""', '\\"', "\\\\"], "`": ["``", "\\a"], "*": ["'", '"', "`"]}[q]
    body = "".join(rng.choice(rng.choice([["?", " ?"], ["\n", "\r\n", "\t", " "], own, [c for c in "'\"`" if c != q], ["--", "-- ", "#", ";", "a", "\u2603", "%s", "{0}"],
                                          ["/*", "*/"] if q != "*" else ["/", "x*x"]])) for _ in range(rng.randint(0, 8)))
    return "/*" + body + "*/" if q == "*" else q + body + q


def gen_template(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 8, 9, 20])
    if rng.random() < 0.01:
        n = rng.choice([250, 251, 256, 300])
    if n == 0:
        return [rng.choice(STARTS) + "1 " + rng.choice(ENDS)]
    t = [rng.choice(STARTS)] + [rng.choice(MIDS) for _ in range(n - 1)] + [rng.choice(ENDS)]
    for i in range(len(t)):
        if rng.random() < 0.15:
            t[i] = (" , " if i else "select ") + quoted(rng) + (" , " if i < n else " ")
    return t


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "clients": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        prog = []
        tn = []
        for _ in range(rng.randint(3, 20)):
            r = rng.random()
            if not tn or r < 0.2:
                t = gen_template(rng)
                tn.append(len(t) - 1)
                prog.append({"op": "prepare", "pieces": t})
                continue
            k = rng.randrange(len(tn))
            if r < 0.75:
                prog.append({"op": "exec", "k": k, "vals": [gen_val(rng) for _ in range(tn[k])], "attrs": rng.choice([0, 0, 1, 2]), "keep": rng.random() < 0.06,
                             "cursor": rng.random() < 0.1, "app": rng.choice(APP)})
            elif r < 0.93 and tn[k]:
                data = nasty(rng).encode()
                if rng.random() < 0.02:
                    data = b"x" * rng.randrange(4) + (data + "\u2603\u00e9\U0001F600".encode()) * (rng.choice([40000, 66000, 140000]) // (len(data) + 9))
                cuts = sorted({rng.randrange(len(data) + 1) for _ in range(rng.randint(0, 3))})
                chunks = [data[a:b].hex() for a, b in zip([0] + cuts, cuts + [len(data)])]
                idx = rng.randrange(tn[k]) if rng.random() < 0.95 else tn[k] + rng.choice([0, 5, 60000])
                for c in chunks:
                    prog.append({"op": "long", "k": k, "idx": idx, "data": c})
                    if rng.random() < 0.2 and len(tn) > 1:
                        k2 = rng.randrange(len(tn))
                        if tn[k2]:
                            prog.append({"op": "long", "k": k2, "idx": rng.randrange(tn[k2]), "data": nasty(rng).encode().hex()})
            elif r < 0.94 and tn[k]:
                # every parameter as long data, in any order
                for idx in rng.sample(range(tn[k]), tn[k]):
                    prog.append({"op": "long", "k": k, "idx": idx, "data": nasty(rng).encode().hex()})
            elif r < 0.96:
                prog.append({"op": "reset", "k": k})
            elif r < 0.98:
                prog.append({"op": "close", "k": k})
            else:
                prog.append({"op": "ping"})
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "prog": prog})
    return sc


# ------------------------------------------------------------------ oracle
ESC = {"0": "\0", "'": "'", '"': '"', "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "\\": "\\"}


def read_literal(s, p):
    """One MySQL literal at s[p:].  -> (kind, value, end) or None"""
    if s[p:p + 1] in ("'", '"'):
        q = s[p]
        p += 1
        out = []
        while True:
            if p >= len(s):
                return None
            ch = s[p]
            if ch == "\\":
                if p + 1 >= len(s):
                    return None
                e = s[p + 1]
                if e in "%_":
                    out.append("\\" + e)
                else:
                    out.append(ESC.get(e, e))
                p += 2
            elif ch == q:
                if s[p + 1:p + 2] == q:
                    out.append(q)
                    p += 2
                else:
                    return "str", "".join(out), p + 1
            else:
                out.append(ch)
                p += 1
    for word, val in (("NULL", None), ("TRUE", 1), ("FALSE", 0)):
        if s[p:p + len(word)].upper() == word:
            return ("null" if val is None else "int"), val, p + len(word)
    q = p
    if s[q:q + 1] in ("-", "+"):
        q += 1
    d = q
    while q < len(s) and s[q].isascii() and s[q].isdigit():
        q += 1
    isfloat = False
    if s[q:q + 1] == "." and (q > d or s[q + 1:q + 2].isdigit()):
        isfloat = True
        q += 1
        while q < len(s) and s[q].isascii() and s[q].isdigit():
            q += 1
    if q == d:
        return None
    if s[q:q + 1] in ("e", "E"):
        r = q + 1
        if s[r:r + 1] in ("+", "-"):
            r += 1
        if s[r:r + 1].isdigit():
            while r < len(s) and s[r].isdigit():
                r += 1
            q = r
            isfloat = True
    if isfloat:
        return "float", float(s[p:q]), q
    return "int", int(s[p:q]), q


def denotes(kind, want, lk, lv):
    if kind == "str":
        return lk == "str" and lv == want
    if kind == "int":
        return lk == "int" and lv == want
    if kind == "other":
        return lk == "str" and lv == want or lk in ("float", "int") and str(lv) == want
    if kind == "float":
        return lk in ("float", "int") and float(lv) == want
    return lk == "null"


def sql_tokens(sql):
    try:
        return [(t.token_type.name, t.text) for t in MySQL().tokenize(sql)]
    except Exception:  # noqa: BLE001
        return None


def word(ch):
    return ch.isalnum() or ch in "_$"


def check_bound(sql, pieces, vals):
    """Raise a Violation unless sql is the template with exactly these values bound."""
    def bad(kind, msg):
        raise Violation("c06/" + kind, "%s\n  template pieces %r\n  values %r\n  application received %r" % (msg, pieces[:12], vals[:12], sql[:1500]))

    p = 0
    ends = []
    for j, piece in enumerate(pieces):
        if not sql.startswith(piece, p):
            # white space may have been added to keep a literal apart from its neighbours
            q = p
            while q < len(sql) and sql[q].isspace():
                q += 1
            if not sql.startswith(piece, q):
                bad("text-altered", "piece %d of the prepared text not found at offset %d: %r" % (j, p, sql[p:p + 60]))
            p = q
        p += len(piece)
        if j < len(vals):
            while p < len(sql) and sql[p] == " ":
                p += 1
            lit = read_literal(sql, p)
            if lit is None:
                bad("no-literal", "no literal for parameter %d at offset %d: %r" % (j, p, sql[p:p + 60]))
            kind, want = vals[j]
            if not denotes(kind, want, lit[0], lit[1]):
                bad("value-altered", "parameter %d is %r, the literal denotes %r" % (j, want if len(repr(want)) < 300 else "...", lit[1] if len(repr(lit[1])) < 300 else "..."))
            # a literal must not merge with what is next to it
            if p > 0 and (word(sql[p - 1]) and (word(sql[p]) or sql[p] in "'\"") or sql[p] in "'\"" and sql[p - 1] == sql[p]):
                bad("merged", "the literal of parameter %d merges with what precedes it: %r" % (j, sql[max(0, p - 10):p + 20]))
            e = lit[2]
            if e < len(sql) and (word(sql[e]) and lit[0] != "str" or lit[0] == "str" and sql[e] == sql[e - 1]):
                bad("merged", "the literal of parameter %d merges with what follows: %r" % (j, sql[p:e + 10]))
            p = e
    if sql[p:].strip():
        bad("text-altered", "extra text at the end: %r" % sql[p:p + 60])
    # tokens
    tt = sql_tokens("?".join(pieces))
    if tt is None or sum(1 for t in tt if t[0] == "PLACEHOLDER") != len(vals):
        return
    st = sql_tokens(sql)
    if st is None:
        bad("tokens", "the bound statement is no longer tokenisable")
    it = iter(vals)
    want = []
    for t in tt:
        if t[0] != "PLACEHOLDER":
            want.append(t)
            continue
        kind, v = next(it)
        if kind == "str":
            want.append(("STRING", v))
        elif kind == "other":
            return
        elif kind == "null":
            want.append(("NULL", None))
        else:
            if v < 0 or (kind == "float" and struct.pack(">d", v)[0] & 0x80):
                want.append(("DASH", "-"))
            want.append(("NUMBER", abs(v)))
    if len(st) != len(want):
        bad("tokens", "%d tokens, the template has %d: %r" % (len(st), len(want), [x for x in st if x not in want][:5]))
    for a, b in zip(st, want):
        if b[0] == "NUMBER" and not isinstance(b[1], str):
            ok = a[0] == "NUMBER" and (float(a[1]) == b[1] if isinstance(b[1], float) else a[1].isdigit() and int(a[1]) == b[1])
        elif b[0] == "NULL" and b[1] is None:
            ok = a[0] == "NULL"
        else:
            ok = a == b
        if not ok:
            bad("tokens", "token %r where the template has %r" % (a, b))


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {})

    todo = {}

    async def answer(sess, expression, sql, attrs):
        what = todo.get(sess.username)
        if what == "park":
            await w.gate("q", sess.cid)
        elif what == "raise":
            w.count("app_exc_query")
            raise ValueError("not now")
        elif what == "rows":
            def rows():
                w.count("app_row_error")
                yield (1,)
                raise ValueError("no more")
            return rows(), [ResultColumn("a", ColumnType.LONGLONG)]
        elif what == "none":
            return None
        return [(1,)], [ResultColumn("a", ColumnType.LONGLONG)]

    app.answer_fn = answer

    def enc(v, longdata):
        kind, t, uns, val = v
        code = wire.T[t]
        if kind == "null":
            return (b"", code, uns, None), ("null", None)
        if kind == "null2":
            return (b"", code, uns, b""), ("null", None)
        if kind == "other":
            return (b"", code, uns, OTHER[t][val][0]), ("other", OTHER[t][val][1])
        if kind == "str":
            return (b"", code, uns, wire.lstr(val.encode())), ("str", val)
        if kind == "int":
            return (b"", code, uns, struct.pack("<" + INTS[t][1 if uns else 0], val)), ("int", val)
        x = float(val)
        if t == "FLOAT":
            b = struct.pack("<f", x)
            x = struct.unpack("<f", b)[0]
        else:
            b = struct.pack("<d", x)
        return (b"", code, uns, b), ("float", x)

    def script(ci, cl):
        def go(c):
            W = Wire(c)
            yield GO
            r = yield from login(c, W, user=b"u%d" % ci, caps=cl["caps"])
            expect(r["kind"] == "ok", "c06/login", repr(r))
            stmts = []
            me = None
            for op in cl["prog"]:
                yield GO
                kind = op["op"]
                if kind == "prepare":
                    sql = "?".join(op["pieces"])
                    W.command(wire.COM_STMT_PREPARE, sql.encode())
                    r = yield from W.read_prepare()
                    if r["kind"] != "prep":
                        raise Violation("c06/prepare", "%r: %r" % (sql, r))
                    if r["nparams"] != len(op["pieces"]) - 1:
                        raise Violation("c06/param-count", "%r has %d placeholders, announced %d" % (sql, len(op["pieces"]) - 1, r["nparams"]))
                    stmts.append({"id": r["id"], "pieces": op["pieces"], "long": {}, "closed": False})
                    continue
                if kind == "ping":
                    W.command(wire.COM_PING)
                    yield from W.read_ok_err()
                    continue
                if not stmts:
                    continue
                s = stmts[op["k"] % len(stmts)]
                n = len(s["pieces"]) - 1
                if kind == "long":
                    data = bytes.fromhex(op["data"])
                    W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", s["id"], op["idx"] & 0xFFFF) + data)
                    if not s["closed"] and op["idx"] < n:
                        s["long"][op["idx"]] = s["long"].get(op["idx"], b"") + data
                elif kind == "reset":
                    W.command(wire.COM_STMT_RESET, struct.pack("<I", s["id"]))
                    yield from W.read_ok_err()
                    s["long"] = {}
                elif kind == "close":
                    W.command(wire.COM_STMT_CLOSE, struct.pack("<I", s["id"]))
                    s["closed"] = True
                else:
                    keep = bool(op.get("keep")) and n > 0 and "vals" in s and not s["long"]
                    if keep:
                        # new values of the types that the last execution declared
                        op = dict(op, vals=[[k, t, u, x if k != "str" else x + "'"] for k, t, u, x in s["vals"]])
                    vals = (op["vals"] + [["null", "NULL", False, None]] * n)[:n]
                    params, model = [], []
                    undecodable = False
                    for j, v in enumerate(vals):
                        if j in s["long"]:
                            params.append((b"", wire.T["BLOB"], False, b""))
                            try:
                                model.append(("str", s["long"][j].decode()))
                            except UnicodeDecodeError:
                                undecodable = True
                                model.append(("str", None))
                        else:
                            p, m = enc(v, False)
                            params.append(p)
                            model.append(m)
                    attrs = []
                    if cl["caps"] & wire.QUERY_ATTRIBUTES:
                        attrs = [(b"n%d" % a, wire.T["VAR_STRING"], False, wire.lstr(b"' ? \\")) for a in range(op["attrs"])]
                    li = tuple(s["long"])
                    n0 = len(app.log)
                    what = todo["u%d" % ci] = op.get("app", "ok")
                    if keep:
                        o.probes["types-not-sent"] += 1
                        attrs = []
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(s["id"], params, attrs, cursor=op["cursor"], long_idx=li, bound=not keep))
                    if not s["closed"]:
                        s["long"] = {}
                    r = yield from W.read_resultset(binary=True, cursor=op["cursor"])
                    mine = [e for e in app.log[n0:] if e[1] == "handle_query" and e[4] == "u%d" % ci]
                    odd = undecodable or any(m[0] == "float" and (m[1] != m[1] or m[1] in (float("inf"), float("-inf"))) for m in model)
                    if s["closed"]:
                        expect(r["kind"] == "err" and not mine, "c06/closed-statement", "%r %r" % (r, mine[:1]))
                        continue
                    if odd:
                        # no literal denotes such a value: refusing is fine, binding something else is not
                        o.probes["undenotable"] += 1
                        if r["kind"] != "err":
                            raise Violation("c06/undenotable", "%r bound as %r" % (model, mine[0][2] if mine else None))
                        # nothing says whether a refused execution consumed the long data
                        W.command(wire.COM_STMT_RESET, struct.pack("<I", s["id"]))
                        yield from W.read_ok_err()
                        continue
                    if keep or any(m[0] == "other" for m in model):
                        # such an execution may be refused, but not bind something else
                        if r["kind"] == "err" and not mine:
                            W.command(wire.COM_STMT_RESET, struct.pack("<I", s["id"]))
                            yield from W.read_ok_err()
                            continue
                        o.probes["optional-bound"] += 1
                    else:
                        s.pop("vals", None)
                        if not li:
                            s["vals"] = vals
                    fails = what == "raise" or what == "rows" and not op["cursor"]
                    if (r["kind"] == "err" or r["kind"] == "rs" and bool(r.get("err"))) != fails:
                        raise Violation("c06/refused", "%r with %r: %r" % ("?".join(s["pieces"]), model, r))
                    if len(mine) != 1:
                        raise Violation("c06/statements", "%d statements reached the application" % len(mine))
                    check_bound(mine[0][2], s["pieces"], model)
                    o.probes["bound"] += 1
                    o.probes["parameters"] += n
                    if li:
                        o.probes["long-data"] += 1
                    for j, m in enumerate(model[:20]):
                        o.states.add("%s %s L%d %s|%s" % (m[0], vals[j][1], j in li, s["pieces"][j][-6:], s["pieces"][j + 1][:6]))
                        if m[0] == "str" and any(x in m[1] for x in "'\\?%\""):
                            o.nontrivial = True
        return go

    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    w.run(std_server(app, cls=RawSession))
    unfinished(w, "c06")
    return finish(o, w)
