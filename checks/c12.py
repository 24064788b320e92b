"""C12: results stream lazily with back-pressure and without starving other clients."""
from checks.c04 import client_ctx
from checks.c07 import server_tls
from checks.common import *
from dst.wire import TLS

ID = "C12"
LEVEL = "exploration"
QUICK_RUNS = 1000
THOROUGH_RUNS = 200000
RULE = ("A run streams 1-3 results (endless or finite; rows of 1 byte to 100 kB; sync and async generators, iterators and iterables "
        "that never suspend or suspend anywhere; explicit columns and inferred ones whose first rows are NULL) through the text "
        "protocol, the binary protocol and cursor fetches of up to 2^32-1 rows, in the clear and over TLS. Clients stop reading at "
        "generated byte offsets until nothing can happen any more, resume, and in the end read everything or vanish; witnesses send "
        "PINGs and queries at moments picked by the scheduler. At every row pulled: (rows pulled) x (their exact wire size) minus the "
        "bytes the simulated socket accepted stays under 1 MiB plus 4 rows (plus 5000 rows if types must be inferred); at most 30000 "
        "rows are pulled in one event-loop iteration, and at most 50000 between the arrival of a witness's command and its answer. "
        "Non-trivial: a client stalled with rows left, or a witness was answered in the middle of a stream.")
STATE_RULE = "(protocol, source, row width class, endless, TLS, rows in flight when the stream stalled)"
ASSUMPTIONS = ["the fixed bounds of the property are taken as 1 MiB + 4 rows of look-ahead, 30000 rows per event-loop iteration, 50000 rows per answer"]

BOUND = 1 << 20
ITER_ROWS = 30000
ANSWER_ROWS = 50000
SRC = ["gen", "gen", "iterable", "agen", "agen", "aiter", "aiterable"]


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "streams": [], "witnesses": [], "tls": rng.random() < 0.12, "mode": "stall"}
    if rng.random() < 0.14:
        sc["mode"] = "fair"
    fair = sc["mode"] == "fair"
    if fair:
        sc["sched"]["busy"] = 0.95
        sc["sched"].pop("w", None)
    for _ in range(1 if rng.random() < (0.9 if fair else 0.75) else 2):
        st = {"proto": rng.choice(["text", "binary", "cursor"]), "src": rng.choice(SRC), "inferred": rng.random() < 0.15, "nulls": rng.choice([0, 0, 0, 3, 2000, -1]),
              "width": rng.choice([0, 1, 3, 10, 50, 300, 1000]) if not fair else rng.choice([0, 1, 10, 60]), "ncols": rng.choice([1, 1, 2, 5])}
        if fair:
            st["total"] = rng.choice([35000, 60000, 90000])
            st["ncols"] = 1
            st["nulls"] = 0
            st["fetch"] = 2**32 - 1
            net = {"c2s": "all"}
            if rng.random() < 0.3:
                net["sndbuf"] = rng.choice([65536, 1 << 18, 1 << 22])
                net["slow_until"] = 1 << 40
            st["stalls"] = []
            st["end"] = "all"
        else:
            if rng.random() < 0.12:
                st["width"] = rng.choice([4000, 40000, 100000])
            st["total"] = -1 if rng.random() < 0.6 else rng.choice([0, 1, 5, 100, 3000])
            if st["width"] > 1000 and st["total"] > 100:
                st["total"] = 100
            st["fetch"] = rng.choice([1, 7, 1000, 10**6, 2**31, 2**32 - 1])
            net = gen_net(rng, faults=False)
            big = st["width"] >= 300
            net["sndbuf"] = rng.choice([64, 512, 4096, 65536] if not big else [4096, 65536, 1 << 18])
            if rng.random() < 0.3:
                net["partial"] = rng.choice([100, 1000, 10000])
            if rng.random() < 0.2:
                net["read_max"] = rng.choice([500, 4000, 70000])
            net["slow_until"] = 1 << 40
            st["stalls"] = [rng.choice([0, 1, rng.randint(0, 300), rng.randint(0, 5000), rng.randint(0, 60000), rng.choice([50000, 200000])])
                            for _ in range(rng.choice([1, 1, 2, 4]))]
            st["end"] = rng.choice(["all", "fin", "rst"]) if st["total"] >= 0 else rng.choice(["fin", "fin", "rst"])
        if rng.random() < 0.3 and "gen" not in st["src"][:3] and not fair:
            st["gates"] = sorted({rng.randrange(200) for _ in range(3)})
        if rng.random() < 0.15 and st["src"] in ("agen", "aiter", "aiterable") and not fair:
            st["yield_every"] = rng.choice([1, 10, 100])
        sc["streams"].append({"net": net, "caps": gen_caps(rng), "st": st})
    for _ in range(rng.choice([1, 2, 3]) if fair else rng.choice([0, 1, 1, 2])):
        sc["witnesses"].append({"net": {"c2s": rng.choice(["all", "all", "byte"]) if not fair else "all", "weight": rng.choice([0.1, 1.0, 10.0]) if not fair else 100.0},
                                "cmds": [rng.choice(["ping", "ping", "query", "set", "prep"]) for _ in range(rng.randint(1, 6))]})
    return sc


def row_size(st, proto):
    """Bytes on the wire of one row: the constant row below, by protocol."""
    cell = len(wire.lstr(b"x" * st["width"]))
    if proto == "text":
        return 4 + cell * st["ncols"] + (1 if st["nulls"] else 0)
    n = st["ncols"] + (1 if st["nulls"] else 0)
    return 4 + 1 + (n + 9) // 8 + cell * st["ncols"]


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace, step_cap=1_500_000)
    app = App(w, {})
    live = {}  # source name -> stream state
    it = {"steps": -1}

    async def answer(sess, expression, sql, attrs):
        if "stream" not in sql:
            return [(1,)], [ResultColumn("a", ColumnType.LONGLONG)]
        k = int(sql.rsplit(" ", 1)[1])
        S = live[k]
        st = S["st"]
        cols = [{"name": "c%d" % j, "type": None if st["inferred"] else "VARCHAR"} for j in range(st["ncols"])]
        row = ["x" * st["width"]] * st["ncols"]
        if st["nulls"]:
            # a column of NULLs: its type can only be guessed
            cols.append({"name": "n", "type": None if st["inferred"] else "VARCHAR"})
            row.append(None)
        spec = {"rows": [row], "total": st["total"], "src": st["src"], "cols": cols, "gates": st.get("gates"), "yield_every": st.get("yield_every", 0),
                "cap": 400_000 if st["total"] < 0 else 2_000_000}
        src = Source(app, sess, "s%d" % k, spec)
        S["src"] = src
        src.stream = S
        S["at"] = (w.steps, 0)
        return src.make(), make_cols(cols)

    app.answer_fn = answer

    def stop(src):
        src.total = src.pulled - 1 if src.pulled else 0

    def on_pull(src):
        S = src.stream
        n = src.pulled
        # rows of one event-loop iteration
        if S["at"][0] != w.steps:
            S["at"] = (w.steps, n)
        elif n - S["at"][1] > ITER_ROWS and not S["bad"]:
            S["bad"] = True
            w.violate("c12/starved", "%d rows pulled in one event-loop iteration (%r): no other client can be answered meanwhile" % (n - S["at"][1], S["st"]))
            stop(src)
        if n & 15 == 0 or S["size"] > 2000:
            p = S["c"].pipe
            ahead = n * S["size"] - (p.total_sent - S["base"])
            if ahead > S["max"]:
                S["max"] = ahead
            if ahead > BOUND + (4 + S["slack"]) * S["size"] and not sc["tls"] and not S["bad"] and not S["c"].closed:
                S["bad"] = True
                w.violate("c12/look-ahead", "%d rows of %d bytes pulled, the socket accepted %d bytes: %d bytes ahead (%r)" % (
                    n, S["size"], p.total_sent - S["base"], ahead, S["st"]))
                stop(src)
            elif S["stalled"] is not None:
                # over TLS, what was accepted cannot be told exactly; while the client does not read it hardly matters
                n0, room = S["stalled"]
                if (n - n0) * S["size"] > BOUND + room + (4 + S["slack"]) * S["size"] and not S["bad"]:
                    S["bad"] = True
                    w.violate("c12/look-ahead", "%d rows of %d bytes pulled while the client was not reading (%r)" % (n - n0, S["size"], S["st"]))
                    stop(src)
        if S["pending"]:
            for wt in S["pending"]:
                if n - wt["marks"].get(S["k"], n) > ANSWER_ROWS and not S["bad"]:
                    S["bad"] = True
                    w.violate("c12/starved", "a %s waits for %d rows of another connection's stream (%r)" % (wt["cmd"], n - wt["marks"][S["k"]], S["st"]))
                    stop(src)

    app.on_pull = on_pull

    def stream(k, cl):
        st = cl["st"]

        def go(c):
            W = Wire(c)
            yield GO
            caps = cl["caps"]
            if sc["tls"]:
                c.connect()
                h = yield from W.read_handshake()
                W.seq = 1
                b, W.seq = wire.frame(W.ssl_request(caps), W.seq)
                c.send_raw(b)
                c.tls = TLS(c, client_ctx())
                c.tls.start()
                yield Cond(lambda: c.tls.up or c.tls.failed or c.eof or c.rst)
                if not c.tls.up:
                    # a connection slow enough exceeds the time asyncio gives TLS handshakes
                    o.probes["no-tls"] += 1
                    return
                W.send_packet(W.response41(user=b"u", auth=b"", caps=caps | wire.SSL))
                r = yield from W.finish_auth(lambda *a: b"")
            else:
                r = yield from login(c, W, user=b"u", caps=caps)
            expect(r["kind"] == "ok", "c12/login", repr(r))
            S = {"st": st, "c": c, "k": k, "size": row_size(st, st["proto"]), "base": c.pipe.total_sent, "max": 0, "bad": False, "stalled": None,
                 "pending": pending, "slack": 5000 if st["inferred"] else 0, "src": None, "at": None}
            live[k] = S
            sql = b"select stream %d" % k
            yield GO
            nrows = [0]

            def on_row(row):
                nrows[0] += 1

            if st["proto"] == "text":
                W.command(wire.COM_QUERY, W.query_body(sql))
            else:
                W.command(wire.COM_STMT_PREPARE, sql)
                r = yield from W.read_prepare()
                S["base"] = c.pipe.total_sent
                W.command(wire.COM_STMT_EXECUTE, W.execute_body(r["id"], cursor=st["proto"] == "cursor"))
                if st["proto"] == "cursor":
                    sid = r["id"]
                    rs = yield from W.read_resultset(binary=True, cursor=True)
                    expect(rs["kind"] == "rs" and not rs["err"], "c12/execute", repr(rs))
                    S["base"] = c.pipe.total_sent
                    yield GO
                    W.command(wire.COM_STMT_FETCH, struct.pack("<II", sid, st["fetch"]))
            S["base"] = c.pipe.total_sent
            start = c.raw_in
            for off in st["stalls"]:
                fin = S["src"] is not None and st["total"] >= 0
                yield Cond(lambda: c.raw_in - start >= off or c.eof or c.rst or (0 <= st["total"] and S["src"] is not None and S["src"].closed and not c.pipe.s2c)
                           or (st["proto"] == "cursor" and len(c.inbuf) > 8 and not c.pipe.s2c and S["src"].pulled >= st["fetch"]))
                c.reading = False
                S["stalled"] = (S["src"].pulled if S["src"] is not None else 0, cl["net"].get("sndbuf", 1 << 40))
                yield QUIESCE
                src = S["src"]
                expect(src is not None, "c12/never-asked", "the statement never reached the application")
                o.probes["stalled"] += 1
                left = src.total < 0 or src.pulled < src.total
                if left:
                    o.nontrivial = True
                    ahead = src.pulled * S["size"] - (c.pipe.total_sent - S["base"])
                    o.probes["stalled-with-rows-left"] += 1
                    o.states.add("%s %s w%d %s tls%d ahead%d" % (st["proto"], st["src"], st["width"], "endless" if st["total"] < 0 else "finite",
                                                                 sc["tls"], max(ahead, 0) >> 14))
                S["stalled"] = None
                c.reading = True
            if sc["mode"] == "fair":
                yield Cond(lambda: S["src"] is not None and S["src"].closed or len(c.inbuf) > 8 and c.inbuf[4] == 0xFF or c.eof or c.rst)
                yield QUIESCE
                n = 0
                p = 0
                want = S["size"] - 4
                b = c.inbuf
                while p < len(b):
                    size = b[p] | b[p + 1] << 8 | b[p + 2] << 16
                    n += size == want
                    p += 4 + size
                # the column definition or the terminator may have this size as well
                if not S["bad"]:
                    expect(S["src"].pulled <= n <= S["src"].pulled + 3, "c12/rows", "%d rows pulled, %d received" % (S["src"].pulled, n))
                o.probes["completed"] += 1
            elif st["end"] == "all":
                if st["proto"] == "cursor":
                    r = yield from W.read_fetch(rs["cols"])
                    expect(not r["err"], "c12/error", repr(r["err"]))
                    expect(len(r["rows"]) == min(st["total"], st["fetch"]), "c12/rows", "%d rows" % len(r["rows"]))
                else:
                    r = yield from W.read_resultset(binary=st["proto"] != "text", on_row=on_row)
                    if r["kind"] == "rs":
                        expect(not r["err"], "c12/error", repr(r["err"]))
                    if not S["bad"]:
                        expect(r["kind"] == "rs" and nrows[0] == st["total"], "c12/rows", "%d rows of %d" % (nrows[0], st["total"]))
                o.probes["completed"] += 1
            else:
                n0 = S["src"].pulled
                S["c"].close(st["end"])
                yield QUIESCE
                S["after"] = S["src"].pulled - n0
                if S["after"] * S["size"] > 2 * BOUND + (ANSWER_ROWS + S["slack"]) * S["size"]:
                    raise Violation("c12/pulled-after-close", "%d rows pulled after the client was gone" % S["after"])
        return go

    pending = []
    done = []

    def witness(cl):
        def go(c):
            W = Wire(c)
            yield GO
            r = yield from login(c, W, user=b"w")
            expect(r["kind"] == "ok", "c12/login", repr(r))
            for cmd in cl["cmds"]:
                yield GO
                if sc["mode"] == "fair":
                    # in the middle of a stream
                    yield Cond(lambda: any(S["src"] is not None and not S["src"].closed and S["src"].pulled > 0 for S in live.values())
                               or all(x.done for x in w.clients[:len(sc["streams"])]))
                mid = [S for S in live.values() if S["src"] is not None and not S["src"].closed]
                if cmd == "ping":
                    W.command(wire.COM_PING)
                elif cmd == "prep":
                    W.command(wire.COM_STMT_PREPARE, b"select 1")
                else:
                    W.command(wire.COM_QUERY, W.query_body(b"select 1" if cmd == "query" else b"set autocommit = 1"))
                me = {"cmd": cmd, "marks": {}, "c": c, "sent": c.pipe.total_sent, "arrived": False}
                pending.append(me)
                yield Cond(lambda: c.pipe.total_sent > me["sent"] or c.eof or c.rst)
                pending.remove(me)
                for S in mid:
                    if S["src"].pulled > me["marks"].get(S["k"], S["src"].pulled):
                        o.nontrivial = True
                        o.probes["answered-mid-stream"] += 1
                if cmd == "ping":
                    r = yield from W.read_ok_err()
                elif cmd == "prep":
                    r = yield from W.read_prepare()
                else:
                    r = yield from W.read_resultset()
                expect(r["kind"] != "err", "c12/witness", repr(r))
            done.append(c)
            if sc["mode"] == "fair" and len(done) == len(sc["witnesses"]):
                for S in live.values():
                    if S["src"] is not None and not S["src"].closed:
                        S["src"].total = S["src"].pulled
        return go

    def watch():
        # a command has arrived once all of it is in the server's receive buffer
        for me in pending:
            p = me["c"].pipe
            if not me["arrived"] and not p.wire:
                me["arrived"] = True
                for k, S in live.items():
                    if S["src"] is not None:
                        me["marks"][k] = S["src"].pulled
            elif me["arrived"]:
                for k, S in live.items():
                    if S["src"] is not None and k not in me["marks"]:
                        me["marks"][k] = 0

    w.on_iteration = watch
    for k, cl in enumerate(sc["streams"]):
        w.client(stream(k, cl), cl["net"])
    for cl in sc["witnesses"]:
        w.client(witness(cl), cl["net"])
    kw = {"ssl": server_tls()} if sc["tls"] else {}
    w.run(std_server(app, cls=RawSession, **kw), cpu_limit=60)
    unfinished(w, "c12")
    return finish(o, w)
