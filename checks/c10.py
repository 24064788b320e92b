"""C10: every initialised session is closed exactly once; every connection is released."""
import errno

from checks.common import *
from checks.c07 import mutate, gen_muts, server_tls
from checks.c04 import client_ctx
from dst.wire import TLS

ID = "C10"
LEVEL = "exploration"
QUICK_RUNS = 14000
THOROUGH_RUNS = 1200000
RULE = ("A run is 1-4 connections that end in generated ways: COM_QUIT, disconnect or reset after any byte sent or received, "
        "half-close, send or receive errors at any byte, refused logins, malformed packets and wrong sequence numbers, kills at "
        "any event-loop iteration, TLS handshakes cut short, and exceptions of every kind raised by any application callback "
        "(session factory, registry, user lookup, init, query, use, schema, reset, row source, close), with init and close "
        "parked by the scheduler. When nothing is left to happen, each session was closed once if its init returned and not at "
        "all otherwise, no callback came after close, survivors were not closed, and no registration, socket or task is left. "
        "Non-trivial: a fault ended a connection whose session was initialised.")
STATE_RULE = "(last thing the connection did, how it ended, inits/closes of its session)"

CBS = ["factory", "control_add", "get_user", "init", "handle_query", "query", "use", "reset", "schema", "close", "control_kill"]
EXCS = ["mysql", "value", "os", "timeout", "runtime", "eof", "incomplete", "connreset", "memory", "assert", "stopiter", "cancelled"]


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "clients": [], "gates": [], "faults": [], "tls": rng.random() < 0.12, "async_factory": rng.random() < 0.3,
          "kills": []}
    if rng.random() < 0.5:
        sc["gates"] = rng.sample(["init", "close", "get_user", "query", "use", "schema", "reset", "control_add"], rng.randint(1, 3))
    if sc["async_factory"] and rng.random() < 0.4:
        sc["gates"].append("factory")
    if rng.random() < 0.55:
        for _ in range(rng.randint(1, 3)):
            sc["faults"].append([rng.choice(CBS), rng.choice([0, 0, 0, 1, 2]), rng.choice(EXCS)])
    if rng.random() < 0.35:
        sc["kills"] = [[rng.choice(["QUERY", "CONNECTION", "CONNECTION"]), rng.randrange(4), rng.choice([0.3, 0.1, 0.05, 0.02])] for _ in range(rng.randint(1, 4))]
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        net = gen_net(rng)
        cl = {"net": net, "caps": gen_caps(rng), "user": rng.choice(["root"] * 8 + ["nosuch", "locked"]), "prog": [], "end": "stay", "fault": None}
        for _ in range(rng.randint(0, 7)):
            r = rng.random()
            if r < 0.4:
                cl["prog"].append(["q", rng.choice(["list", "agen", "gen", "big", "rowfail", "bad"]), rng.choice([0, 1, 8, 40]), rng.choice(EXCS[:-1])])
            elif r < 0.55:
                cl["prog"].append(["cursor", rng.choice(["agen", "gen", "rowfail"]), rng.choice([1, 8, 40]), rng.choice(EXCS[:-1])])
            elif r < 0.65:
                cl["prog"].append(["chuser", rng.choice(["root", "root", "nosuch", "locked"])])
            elif r < 0.72:
                cl["prog"].append(["mut", rng.randrange(6), gen_muts(rng)])
            elif r < 0.76:
                cl["prog"].append(["badseq", rng.choice([1, 2, 200])])
            elif r < 0.80:
                cl["prog"].append(["killself", rng.choice(["", "query "])])
            elif r < 0.84:
                cl["prog"].append(["partial", rng.randint(1, 8)])
            else:
                cl["prog"].append([rng.choice(["ping", "use", "tables", "fields", "reset", "unknown"])])
        cl["end"] = rng.choice(["stay", "stay", "quit", "fin", "rst", "half", "quitfin", "stall"])
        r = rng.random()
        if r < 0.25:
            cl["fault"] = ["after_sent", rng.randint(0, 400), rng.choice(["fin", "rst", "half"])]
        elif r < 0.45:
            cl["fault"] = ["after_recv", rng.choice([rng.randint(0, 120), rng.randint(0, 1500)]), rng.choice(["fin", "rst"])]
        elif r < 0.6:
            net["send_fail"] = [rng.choice([0, rng.randint(0, 200), rng.randint(0, 3000)]), rng.choice([errno.EPIPE, errno.ECONNRESET, errno.ETIMEDOUT, errno.ENOBUFS, errno.EIO])]
        elif r < 0.7:
            cl["fault"] = ["recv_errno", rng.choice([errno.ECONNRESET, errno.ETIMEDOUT, errno.EHOSTUNREACH, errno.EIO]), rng.choice([0.2, 0.05, 0.02])]
        if rng.random() < 0.2:
            net["dead_sends"] = rng.choice([1, 3])
        sc["clients"].append(cl)
    return sc


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"gates": sc["gates"], "faults": sc["faults"], "schema": {"db1": {"t1": {"a": "INT"}}}, "async_factory": sc["async_factory"]})
    identity = SimIdentity(app, {"root": {"plugin": "mysql_native_password"}, "locked": {"plugin": "mysql_native_password", "password": "pw"}},
                           [NativePasswordAuthPlugin()])
    ids = {}
    killed = set()
    killed_up = set()  # killed while their session was in service

    async def answer(sess, expression, sql, attrs):
        m = sql.split("/*m", 1)[1].split("*/", 1)[0].split(",")
        mode, n, exc = m[0], int(m[1]), m[2]
        cols = [{"name": "i", "type": "LONGLONG"}, {"name": "s", "type": "VARCHAR"}]
        if mode == "bad":
            w.count("app_bad_result")
            return {"not": "a result"}
        spec = {"rows": [[1, "x" * (600 if mode == "big" else 3)]], "cols": cols, "repeat": n, "seqcol": True,
                "src": {"list": "list", "gen": "gen", "big": "agen", "agen": "agen", "rowfail": "agen"}[mode], "gates": [2, 5] if mode in ("agen", "rowfail") else []}
        if mode == "rowfail":
            spec.update(fail_at=max(0, n - 1), exc=exc)
        return app.build(sess, "t", spec)

    app.answer_fn = answer

    def script(ci, cl):
        def go(c):
            W = Wire(c)
            W.lax = True
            c.what = "connect"
            c.quit = False
            c.cid = None
            try:
                yield from body(c, W, cl)
            except Closed:
                o.probes["closed-by-server"] += 1
            except Violation as e:
                # other checks judge what is said; faults make anything possible here
                o.probes["odd:" + e.kind] += 1
        return go

    def body(c, W, cl):
        f = cl["fault"]
        yield GO
        c.connect()
        if f and f[0] == "after_sent":
            c.fail_after = (f[1], f[2])
        if f and f[0] == "after_recv":
            c.after_recv = (f[1], f[2])
        h = yield from W.read_handshake()
        if h["kind"] == "err":
            c.what = "refused"
            yield Cond(lambda: c.eof or c.rst)
            return
        c.cid = h["id"]
        ids[h["id"]] = c.idx
        caps = cl["caps"]
        c.what = "login"
        if sc["tls"] and h["caps"] & wire.SSL and caps & wire.CONNECT_ATTRS:
            W.seq = 1
            b, W.seq = wire.frame(W.ssl_request(caps), W.seq)
            c.send_raw(b)
            c.tls = TLS(c, client_ctx())
            c.tls.start()
            yield Cond(lambda: c.tls.up or c.tls.failed or c.eof or c.rst)
            if not c.tls.up:
                return
            o.probes["tls"] += 1
            caps |= wire.SSL
        W.send_packet(W.response41(user=cl["user"].encode(), auth=b"", caps=caps))
        r = yield from W.finish_auth(lambda *a: b"")
        if r["kind"] != "ok":
            c.what = "login-refused"
            yield Cond(lambda: c.eof or c.rst)
            return
        for cmd in cl["prog"]:
            yield GO
            k = cmd[0]
            c.what = k
            W.seq = 0
            if k in ("q", "cursor"):
                sql = "select i, s /*m%s,%d,%s*/ from t" % (cmd[1], cmd[2], cmd[3])
                if k == "q":
                    W.command(wire.COM_QUERY, W.query_body(sql.encode()))
                    yield from W.read_resultset()
                else:
                    W.command(wire.COM_STMT_PREPARE, sql.encode())
                    r = yield from W.read_prepare()
                    if r["kind"] != "prep":
                        continue
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(r["id"], cursor=True))
                    rs = yield from W.read_resultset(binary=True, cursor=True)
                    if rs["kind"] == "rs" and not rs["err"]:
                        c.what = "fetch"
                        yield GO
                        W.command(wire.COM_STMT_FETCH, struct.pack("<II", r["id"], 7))
                        yield from W.read_fetch(rs["cols"])
            elif k == "chuser":
                W.command(wire.COM_CHANGE_USER, W.change_user_body(cmd[1].encode(), b"", b"", 255, b"mysql_native_password"))
                r = yield from W.finish_auth(lambda *a: b"")
                if r["kind"] != "ok":
                    c.what = "chuser-refused"
                    c.quit = True
                    yield Cond(lambda: c.eof or c.rst)
                    return
            elif k == "killself":
                W.command(wire.COM_QUERY, W.query_body(b"kill %s%d" % (cmd[1].encode(), c.cid)))
                if cmd[1] == "":
                    killed.add(c.cid)
                yield from W.read_ok_err()
            elif k == "mut":
                base = [b"\x03" + W.query_body(b"set autocommit = 1"), b"\x17" + struct.pack("<IBI", 1, 0, 1), b"\x04t1\0", b"\x1c" + b"\0" * 8,
                        b"\x11root\0\0\0", b"\x02db1"][cmd[1]]
                p = mutate(base, cmd[2])
                if not p or p[0] in (1, 0x18, 0x19, 3, 17):
                    p = b"\xfe"
                W.send_packet(p)
                yield from W.read_packet(check_seq=False)
                yield QUIESCE
                c.inbuf.clear()
            elif k == "badseq":
                W.send_packet(b"\x0e", seq=cmd[1])
                c.quit = True
                yield from W.read_packet(check_seq=False)
                yield QUIESCE
                c.inbuf.clear()
            elif k == "partial":
                c.quit = True
                c.send((b"\x20\0\0\0" + b"\x03select 1")[:cmd[1]])
                break
            else:
                if k == "tables":
                    W.command(wire.COM_QUERY, W.query_body(b"show tables from db1"))
                    yield from W.read_resultset()
                elif k == "fields":
                    W.command(wire.COM_FIELD_LIST, b"t1\0")
                    yield from W.read_field_list()
                else:
                    W.command({"ping": wire.COM_PING, "use": wire.COM_INIT_DB, "reset": wire.COM_RESET_CONNECTION, "unknown": 99}[k],
                              b"db1" if k == "use" else b"")
                    yield from W.read_ok_err()
        c.what += "/" + cl["end"]
        yield GO
        end = cl["end"]
        if end in ("quit", "quitfin"):
            c.quit = True
            W.command(wire.COM_QUIT)
            if end == "quitfin":
                c.close("fin")
            else:
                yield Cond(lambda: c.eof or c.rst)
        elif end in ("fin", "rst", "half"):
            c.close(end)
        elif end == "stall":
            c.reading = False
            W.command(wire.COM_QUERY, W.query_body(b"select i, s /*mbig,300,value*/ from t"))

    def recv_faults():
        acts = []
        for c, cl in zip(w.clients, sc["clients"]):
            f = cl["fault"]
            if f and f[0] == "recv_errno" and c.pipe is not None and c.pipe.accepted and not c.pipe.srv_closed and not getattr(c, "rfault", False):
                def fire(c=c, f=f):
                    c.rfault = True
                    c.pipe.recv_errno = f[1]
                    w.note("recv_errno", c.idx)
                acts.append((f[2], "rfault", c.idx, fire))
        return acts

    w.ext_actions.append(recv_faults)
    todo = [list(k) for k in sc["kills"]]

    def kill_now():
        if todo and not w.violations and w.started:
            kind, ti, p = todo[0]
            c = w.clients[ti % len(sc["clients"])]
            conn = app.control.live.get(getattr(c, "cid", None))
            if conn is not None and ch.flip(p):
                todo.pop(0)
                w.note("kill", kind, c.idx)
                w.count("kill_" + kind.lower())
                if kind == "CONNECTION":
                    killed.add(c.cid)
                    if any(s.cid == c.cid and s.inits and not s.closes for s in app.sessions) and not c.quit and not c.closed:
                        killed_up.add(c.cid)
                        o.probes["kill needs no help"] += not c.reading
                o.probes["kill at " + c.what] += 1
                conn.kill(KillKind[kind])

    w.on_iteration = kill_now

    def by_client():
        out = {}
        for s in app.sessions:
            if s.cid != -1:
                out[ids.get(s.cid)] = s
        return out

    def reaper(c):
        yield SETTLE
        # who is left must have been left alone
        m = by_client()
        for x in w.clients:
            # a kill doesn't need the help of the client
            if getattr(x, "cid", None) in killed_up and x.cid in app.control.live:
                raise Violation("c10/killed-not-released", "client %d (%s) was killed and is still registered" % (x.idx, x.what))
        for x, cl in zip(w.clients, sc["clients"]):
            s = m.get(x.idx)
            if x.pipe is None or not x.pipe.accepted or s is None:
                continue
            untouched = (not x.closed and not x.pipe.fin_sent and not x.pipe.rst and not x.quit and x.cid not in killed and not x.pipe.srv_closed
                         and cl["fault"] is None and "send_fail" not in cl["net"])
            if untouched and s.inits:
                o.probes["survivor"] += 1
                if s.closes:
                    raise Violation("c10/closed-early", "session of client %d was closed while its connection is alive (%s)" % (x.idx, x.what))
                if x.cid not in app.control.live:
                    raise Violation("c10/unregistered-early", "client %d is connected and not registered" % x.idx)
        for x in w.clients:
            if x is not c:
                if x.pipe is not None and not x.closed:
                    x.close("fin")
                    o.probes["reaped"] += 1
                x.done = True
        yield SETTLE
        if w.gates:
            raise Violation("c10/parked", repr([g[1] for g in w.gates]))

    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    w.client(reaper, {})
    kw = {"identity": identity}
    if sc["tls"]:
        kw["ssl"] = server_tls()
    w.run(std_server(app, **kw))
    if not w.violations:
        judge(w, app, o, sc, ids, killed)
    return finish(o, w)


def judge(w, app, o, sc, ids, killed):
    for s in app.sessions:
        ev = app.events(s.sid)
        began = any(e[0] == "init" for e in ev)
        x = w.clients[ids[s.cid]] if s.cid in ids else None
        what = x.what if x is not None else "?"
        o.states.add("%s init:%d closes:%d began:%d" % (what, s.inits, s.closes, began))
        if s.inits > 1:
            w.violate("c10/init-twice", "session initialised %d times" % s.inits)
        if s.inits and x is not None and (x.closed or x.pipe.rst):
            o.nontrivial = True
        if s.closes > 1:
            w.violate("c10/closed-twice", "session of client %s (%s) closed %d times" % (ids.get(s.cid), what, s.closes))
        elif s.inits and not s.closes:
            w.violate("c10/not-closed", "session of client %s (%s) was initialised and never closed" % (ids.get(s.cid), what))
        elif s.closes and not s.inits:
            # init was interrupted half-way by a kill: either is fine
            if not (began and s.cid in killed):
                w.violate("c10/closed-uninitialised", "session of client %s (%s) closed, its init %s" % (ids.get(s.cid), what, "failed" if began else "never ran"))
        if s.closes == 1 and not any(e[0] == "close-done" or e[:2] == ("raise", "close") for e in ev):
            w.violate("c10/close-interrupted", "close() of the session of client %s (%s) was cut short" % (ids.get(s.cid), what))
        seen = False
        for e in ev:
            if e[0] == "close":
                seen = True
            elif seen and e[0] not in ("raise", "close", "close-done"):
                w.violate("c10/called-after-close", "%s after close (%s)" % (e[0], what))
    if app.control.live:
        w.violate("c10/registered", "still registered: %r" % [(k, ids.get(k)) for k in app.control.live])
    left = getattr(app.control, "_connections", None)
    if left:
        w.violate("c10/registered", "still in the registry: %r" % list(left))
    for c in w.clients:
        if c.pipe is not None and c.pipe.accepted and not c.pipe.srv_closed:
            w.violate("c10/socket-open", "client %d (%s) is gone, the server's socket is open" % (c.idx, getattr(c, "what", "?")))
    tasks = w.live_tasks()
    if tasks:
        w.violate("c10/task-left", "%d tasks still run: %r" % (len(tasks), [t.get_coro().__qualname__ for t in tasks][:4]))
