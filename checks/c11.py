"""C11: server-side cursors deliver every row exactly once, in order."""
import re

from checks.common import *

ID = "C11"
LEVEL = "exploration"
QUICK_RUNS = 3500
THOROUGH_RUNS = 900000
RULE = ("A run is 1-3 clients that prepare several statements and interleave, in a generated order, executions with and without a "
        "cursor (new parameters, long data, attributes), fetches of 0 to 2^32-1 rows from any of them, resets, closes, unknown "
        "statement ids and unrelated commands, over results of 0-8 rows mostly and up to 20001, from sync and async row sources that "
        "suspend or fail at any row, over slow connections, with KILL QUERY at any event-loop iteration in some runs. Every fetch is "
        "compared with a model of the cursor; rows carry their index and the execution they belong to. Non-trivial: at least two "
        "fetches of one cursor delivered rows.")
STATE_RULE = "(rows left before, rows asked for (clamped), other cursors open, source kind, last-row flag)"

SRC = ["list", "tuple", "lists", "gen", "iterable", "agen", "aiter", "aiterable"]
TYPES = ["LONGLONG", "LONG", "SHORT", "VARCHAR", "DOUBLE", "FLOAT", "INT24"]
ROWEXC = ["mysql", "value", "os", "timeout", "runtime", "incomplete", "key", "connreset", "eof", "stopiter"]


def gen_result(rng, tier):
    r = rng.random()
    if r < 0.72:
        n = rng.randint(0, 8)
    elif r < 0.93:
        n = rng.choice([9, 16, 50, 100, 255, 256, 257, 300])
    elif r < 0.985:
        n = rng.choice([1000, 3000])
    else:
        n = rng.choice([9999, 10000, 10001, 20000, 20001])
    d = {"n": n, "src": rng.choice(SRC), "pad": rng.choice([0, 0, 1, 10, 300]) if n <= 300 else 0}
    if rng.random() < 0.7:
        # statements whose cursors are open at the same time have different columns
        d["types"] = [rng.choice(TYPES), rng.choice(TYPES)]
        d["extra"] = [rng.choice([None, None, 7]) for _ in range(rng.choice([0, 1, 3, 4, 5, 6, 12, 13, 14]))] if n <= 300 else []
    if n <= 3 and rng.random() < 0.04:
        d["pad"] = rng.choice([32768, 70000])
    if rng.random() < 0.3:
        d["gates"] = sorted({rng.randrange(n + 1) for _ in range(3)})
    if rng.random() < 0.12:
        d["fail_at"] = rng.choice([0, n, rng.randrange(n + 1)])
        d["exc"] = rng.choice(ROWEXC)
    elif rng.random() < 0.12:
        d["raise"] = rng.choice(["mysql", "value", "timeout", "key"])
        # which of its executions fail: all, or some, so that one fails while the cursor of an earlier one is open
        d["when"] = rng.choice([[1], [0, 1], [0, 1], [0, 0, 1], [1, 0]])
    elif rng.random() < 0.05:
        d["none"] = True
    return d


def types_of(d):
    ts = d.get("types") or []
    return [t if t in TYPES else u for t, u in zip(list(ts) + [None, None], ("LONGLONG", "LONG"))]


def want_row(d, i, tag):
    row = []
    for t, v in zip(types_of(d), (i, tag)):
        row.append(str(v).encode() if t == "VARCHAR" and v is not None else v)
    return row + [b"x" * d["pad"]] + list(d.get("extra") or [])


def gen_size(rng, n):
    r = rng.random()
    if r < 0.25:
        return rng.choice([1, 1, 2, 3])
    if r < 0.6:
        return rng.randint(0, n + 1)
    if r < 0.75:
        return rng.choice([max(n - 1, 0), n, n + 1])
    if r < 0.85:
        return max(1, n // rng.choice([2, 3, 4]))
    return rng.choice([0, 7, 100, 255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 1])


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "clients": [], "results": [gen_result(rng, tier) for _ in range(rng.randint(1, 4))], "kills": 0}
    if rng.random() < 0.15:
        sc["kills"] = rng.randint(1, 4)
        sc["kill_p"] = rng.choice([0.02, 0.005, 0.001])
    nr = len(sc["results"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        prog = []
        ns = 0
        last = 0
        open_ = {}  # statement -> result whose cursor is open
        res = []
        for _ in range(rng.choice([8, 15, 30, 50])):
            r = rng.random()
            if not ns or (r < 0.08 and ns < 6):
                res.append(rng.randrange(nr))
                prog.append(["prep", res[-1], rng.random() < 0.5])
                ns += 1
                prog.append(["exec", ns - 1, True, 0])
                open_[ns - 1] = res[-1]
                continue
            k = last if rng.random() < 0.5 else rng.randrange(ns)
            last = k
            if r < 0.25:
                cursor = rng.random() < 0.85
                prog.append(["exec", k, cursor, rng.choice([0, 0, 0, 1, 2])])
                open_.pop(k, None)
                if cursor:
                    open_[k] = res[k]
            elif r < 0.82:
                if k not in open_ and open_ and rng.random() < 0.8:
                    k = last = rng.choice(sorted(open_))
                n = sc["results"][res[k]]["n"]
                prog.append(["fetch", k, gen_size(rng, n)])
            elif r < 0.86:
                prog.append(["reset", k])
                open_.pop(k, None)
            elif r < 0.89:
                prog.append(["close", k])
                open_.pop(k, None)
            elif r < 0.92:
                prog.append([rng.choice(["xfetch", "xexec", "xreset", "xclose"]), rng.choice([0, 1, 5, 77, 1000, 2**31, 2**32 - 1])])
            elif r < 0.95:
                prog.append(["long", k, "L" * rng.randint(0, 9)])
            elif r < 0.96:
                prog.append(["resetconn"])
            else:
                prog.append([rng.choice(["ping", "query", "bad"])])
        net = gen_net(rng)
        net["slow_until"] = 8000
        sc["clients"].append({"net": net, "caps": gen_caps(rng), "prog": prog})
    return sc


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {})
    execs = []  # (user, tag, sql)
    kstate = {"left": sc["kills"], "hit": {}}

    async def answer(sess, expression, sql, attrs):
        m = re.search(r"from r(\d+)", sql)
        d = sc["results"][int(m.group(1)) % len(sc["results"])]
        n = len(execs)
        when = d.get("when") or [1]
        nth = sum(1 for e in execs if e[3] is d)
        raises = bool(d.get("raise") and when[nth % len(when)])
        execs.append((sess.username, n, sql, d, raises))
        if raises:
            w.count("app_exc_query")
            raise EXC[d["raise"]]()
        if d.get("none"):
            return None
        ti, tt = types_of(d)
        spec = {"rows": [[0, n, "x" * d["pad"]] + list(d.get("extra") or [])], "repeat": d["n"], "seqcol": True, "src": d["src"], "gates": d.get("gates"),
                "fail_at": d.get("fail_at"), "exc": d.get("exc"),
                "cols": [{"name": "i", "type": ti}, {"name": "tag", "type": tt}, {"name": "s", "type": "VARCHAR"}] +
                        [{"name": "e%d" % j, "type": "LONGLONG"} for j in range(len(d.get("extra") or []))]}
        return app.build(sess, "r", spec)

    app.answer_fn = answer

    def script(ci, cl):
        user = "u%d" % ci

        def go(c):
            W = Wire(c)
            yield GO
            r = yield from login(c, W, user=user.encode(), caps=cl.get("caps", wire.BASE_CAPS))
            expect(r["kind"] == "ok", "c11/login", repr(r))
            stmts = []
            c.ready = True
            ids = set()

            def find(k):
                return stmts[k % len(stmts)]

            def killed():
                # did a kill arrive since the command was sent?
                return kstate["hit"].get(ci, 0) > c.kmark

            for op in cl["prog"]:
                yield GO
                c.kmark = kstate["hit"].get(ci, 0)
                k = op[0]
                if k == "prep":
                    res = op[1] % len(sc["results"])
                    sql = "select i from r%d" % res + (" where a = ?" if op[2] else "")
                    W.command(wire.COM_STMT_PREPARE, sql.encode())
                    r = yield from W.read_prepare()
                    if r["kind"] != "prep":
                        expect(killed(), "c11/prepare", "%r" % r)
                        continue
                    expect(r["nparams"] == int(op[2]), "c11/prepare-params", repr(r))
                    if r["id"] in ids:
                        raise Violation("c11/id-reused", "prepared statements %r, new one got %d" % (ids, r["id"]))
                    ids.add(r["id"])
                    stmts.append({"id": r["id"], "par": op[2], "d": sc["results"][res], "cur": None, "open": True, "long": None, "any": False})
                elif k in ("ping", "query", "bad"):
                    if k == "ping":
                        W.command(wire.COM_PING)
                        r = yield from W.read_ok_err()
                    else:
                        W.command(wire.COM_QUERY, W.query_body(b"select i from r0" if k == "query" else b"nonsense from r0"))
                        r = yield from W.read_resultset()
                elif k == "resetconn":
                    W.command(wire.COM_RESET_CONNECTION)
                    r = yield from W.read_ok_err()
                    for s in stmts:
                        s["any"] = True
                        s["long"] = None
                elif k[0] == "x":
                    sid = op[1]
                    if any(s["open"] and s["id"] == sid for s in stmts):
                        continue
                    o.probes["unknown-id"] += 1
                    if k == "xclose":
                        W.command(wire.COM_STMT_CLOSE, struct.pack("<I", sid))
                        continue
                    if k == "xfetch":
                        W.command(wire.COM_STMT_FETCH, struct.pack("<II", sid, 5))
                    elif k == "xreset":
                        W.command(wire.COM_STMT_RESET, struct.pack("<I", sid))
                    else:
                        W.command(wire.COM_STMT_EXECUTE, struct.pack("<IBI", sid, 1, 1))
                    n0 = len(execs)
                    p = yield from W.read_packet()
                    expect(p[:1] == b"\xff", "c11/unknown-id", "%s of statement %d: %r" % (k, sid, p[:40]))
                    wire.parse_err(p, W.caps)
                    expect(not any(e[0] == user for e in execs[n0:]), "c11/unknown-id-executed", repr(execs[n0:]))
                elif not stmts:
                    continue
                elif k == "exec":
                    yield from execute(c, W, op, find(op[1]), killed)
                elif k == "fetch":
                    yield from fetch(c, W, op, find(op[1]), stmts, killed)
                elif k == "reset":
                    s = find(op[1])
                    W.command(wire.COM_STMT_RESET, struct.pack("<I", s["id"]))
                    r = yield from W.read_ok_err()
                    if not s["open"]:
                        expect(r["kind"] == "err", "c11/closed-id", "reset of a closed statement: %r" % r)
                        continue
                    if r["kind"] == "err":
                        expect(killed() or s["any"], "c11/reset", repr(r))
                        s["any"] = True
                        continue
                    if s["cur"]:
                        o.probes["reset-open-cursor"] += 1
                    s["cur"] = None
                    s["long"] = None
                elif k == "close":
                    s = find(op[1])
                    W.command(wire.COM_STMT_CLOSE, struct.pack("<I", s["id"]))
                    if s["cur"]:
                        o.probes["close-open-cursor"] += 1
                    s["open"] = False
                    s["cur"] = None
                elif k == "long":
                    s = find(op[1])
                    if s["par"] and s["open"]:
                        W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", s["id"], 0) + op[2].encode())
                        s["long"] = (s["long"] or "") + op[2]
        return go


    def execute(c, W, op, s, killed):
        user = "u%d" % c.idx
        params, li = [], ()
        if s["par"]:
            if s["long"] is not None:
                params, li = [(b"", wire.T["BLOB"], False, b"")], (0,)
            else:
                params = [(b"", wire.T["LONGLONG"], False, struct.pack("<q", 5))]
        attrs = []
        if W.caps & wire.QUERY_ATTRIBUTES:
            attrs = [(b"n%d" % j, wire.T["VAR_STRING"], False, wire.lstr(b"v")) for j in range(op[3])]
        n0 = len(execs)
        cursor = op[2]
        W.command(wire.COM_STMT_EXECUTE, W.execute_body(s["id"], params, attrs, cursor=cursor, long_idx=li))
        r = yield from W.read_resultset(binary=True, cursor=cursor)
        mine = [e for e in execs[n0:] if e[0] == user]
        if not s["open"]:
            expect(r["kind"] == "err" and not mine, "c11/closed-id", "execute of a closed statement: %r" % r)
            return
        had = s["cur"]
        s["long"] = None
        s["cur"] = None
        if had:
            o.probes["reexecute-open-cursor"] += 1
        d = s["d"]
        err = r if r["kind"] == "err" else r.get("err")
        if err:
            odd = killed() or s["any"]
            fails = (mine and mine[-1][4]) or (not cursor and d.get("fail_at") is not None)
            expect(odd or fails, "c11/execute", "%r (result %r)" % (err, d))
            if odd:
                # it may have been executed, or not: whatever is fetched next is from this execution or refused
                s["cur"] = {"tag": mine[-1][1] if mine else None, "pos": 0, "d": d, "broken": True}
            return
        expect(len(mine) == 1, "c11/executed", "%d statements reached the application" % len(mine))
        expect(not mine[0][4], "c11/execute", "the application raised, the client got %r" % r)
        if d.get("none"):
            expect(r["kind"] == "ok", "c11/execute", "no result set: %r" % r)
            return
        expect(r["kind"] == "rs", "c11/execute", repr(r))
        tag = mine[0][1]
        if cursor:
            expect(r["term"]["status"] & 0x40, "c11/no-cursor-flag", "the answer to an execution with a cursor lacks CURSOR_EXISTS: %r" % r["term"])
            s["cur"] = {"tag": tag, "pos": 0, "d": d, "broken": False, "cols": r["cols"], "last": False, "n": 0}
        else:
            want = [want_row(d, i, tag) for i in range(d["n"])]
            expect(d.get("fail_at") is None, "c11/execute", "row %r raised, the client got a complete result" % d.get("fail_at"))
            expect(r["rows"] == want, "c11/rows-without-cursor", "%d rows, %d expected: %r" % (len(r["rows"]), len(want), r["rows"][:3]))
            expect(not r["term"]["status"] & 0x40, "c11/cursor-flag", "CURSOR_EXISTS after an execution without one")

    def fallback(d):
        return [{"type": wire.T[t]} for t in types_of(d) + ["VARCHAR"] + ["LONGLONG"] * len(d.get("extra") or [])]

    def fetch(c, W, op, s, stmts, killed):
        n = op[2]
        cur = s["cur"]
        W.command(wire.COM_STMT_FETCH, struct.pack("<II", s["id"], n))
        c.busy = True
        r = yield from W.read_fetch(cur["cols"] if cur and "cols" in cur else fallback(s["d"]))
        c.busy = False
        rows, err = r["rows"], r["err"]
        last = bool(r["status"] & 0x80)
        what = "statement %d, fetch of %d" % (s["id"], n)
        if cur is None:
            o.probes["fetch-without-cursor"] += 1
            expect(err and not rows, "c11/no-cursor", "%s without an open cursor: %d rows, error %r" % (what, len(rows), err))
            return
        d = cur["d"]
        total = d["n"]
        fail = d.get("fail_at")
        if cur["broken"] or s["any"]:
            if err and not rows:
                return
        avail = total if fail is None else min(total, fail)
        # whatever happens, what arrives continues where the cursor was
        for j, row in enumerate(rows):
            want = want_row(d, cur["pos"] + j, cur["tag"])
            if row != want:
                raise Violation("c11/rows", "%s, cursor at row %d of %d: row %d is %r" % (what, cur["pos"], total, j, [x if len(repr(x)) < 80 else "..." for x in row]))
        left = avail - cur["pos"]
        expect(len(rows) <= n, "c11/too-many", "%s: %d rows" % (what, len(rows)))
        expect(len(rows) <= left, "c11/beyond-end", "%s: %d rows, %d left" % (what, len(rows), left))
        cur["pos"] += len(rows)
        if rows:
            cur["n"] = cur.get("n", 0) + 1
            if cur["n"] > 1:
                o.nontrivial = True
        if err:
            hits_fail = fail is not None and n > left
            if cur.get("last") and not rows:
                return  # refused after the last row was announced
            expect(killed() or hits_fail or s["any"], "c11/fetch-error", "%s, cursor at row %d of %d: %r" % (what, cur["pos"], total, err))
            if hits_fail:
                o.probes["source-failed"] += 1
            else:
                o.probes["killed"] += 1
            cur["broken"] = True
            if hits_fail and not killed() and not s["any"]:
                s["cur"] = None  # the rest of the result is lost for good
            return
        expect(not (fail is not None and n > left), "c11/failure-hidden", "%s: the row source failed at row %r, the client saw %d rows and no error" % (what, fail, len(rows)))
        expect(len(rows) == min(n, left), "c11/too-few", "%s: %d rows, %d left" % (what, len(rows), left))
        if fail is not None and fail <= total and cur["pos"] == avail:
            expect(not last, "c11/last-early", "%s: last-row-sent, the row source has not ended" % what)
        elif cur["pos"] < total:
            expect(not last, "c11/last-early", "%s: last-row-sent with %d rows left" % (what, total - cur["pos"]))
        if n > left:
            expect(last, "c11/last-missing", "%s: %d rows, the result is exhausted, no last-row-sent" % (what, len(rows)))
        cur["last"] = cur["last"] or last if "last" in cur else last
        o.probes["fetched"] += 1
        o.probes["rows"] += len(rows)
        others = sum(1 for x in stmts if x is not s and x["cur"])
        o.states.add("left%d n%d others%d %s last%d" % (min(left, 10), min(n, 12), min(others, 3), d["src"], last))

    def kill_now():
        if kstate["left"] and not w.violations and w.started and app.control is not None:
            parked = [g[2] for g in w.gates]
            if parked and ch.flip(0.1) or ch.flip(sc["kill_p"]):
                live = parked if parked and ch.flip(0.8) else sorted(app.control.live)
                if not live:
                    return
                cid = live[ch.pick(len(live))]
                s = [x for x in app.sessions if x.cid == cid]
                if not s or s[0].username is None or not s[0].inits:
                    return
                x = w.clients[int(s[0].username[1:])]
                if not getattr(x, "ready", False) or not (getattr(x, "busy", False) or ch.flip(0.1)):
                    return
                kstate["left"] -= 1
                ci = int(s[0].username[1:])
                kstate["hit"][ci] = kstate["hit"].get(ci, 0) + 1
                w.note("kill", ci)
                w.count("kill_query")
                app.control.live[cid].kill(KillKind.QUERY)

    if sc["kills"]:
        w.on_iteration = kill_now
    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    app.control = None
    w.run(std_server(app, cls=RawSession))
    unfinished(w, "c11")
    return finish(o, w)
