"""C09: KILL QUERY spares the connection; KILL CONNECTION ends exactly the target."""
from checks.common import *

ID = "C09"
LEVEL = "exploration"
QUICK_RUNS = 5000
THOROUGH_RUNS = 900000
RULE = ("A run is 1-2 targets (programs of statements that are parked in the application, stream, fetch from cursors, fail, "
        "swallow or convert the cancellation, or clean up slowly; some stop reading), 1-2 killers issuing KILL statements "
        "(targets, themselves, unknown and look-alike ids), a bystander, and kills made directly through Connection.kill at "
        "event-loop iterations the scheduler picks, from the first byte of the handshake to the close of the session. A command "
        "may end with ERR only if a kill fell into its own window; everything else must be answered as if there were no kill. "
        "Non-trivial: at least one kill fell into a command's window.")
STATE_RULE = "(command, kind of kill, where the target was, outcome)"

MODES = ["list", "agen", "agen", "gen", "hold", "hold", "swallow", "convert", "slowclean", "err", "rowhold", "big", "group", "deadline", "err0", "suicide"]


def gen_cmd(rng):
    r = rng.random()
    if r < 0.5:
        return ["q", rng.choice(MODES), rng.choice([0, 1, 5, 30])]
    if r < 0.58:
        return ["exec", rng.choice(MODES), rng.choice([1, 5, 30])]
    if r < 0.68:
        return ["cursor", rng.choice(["agen", "gen", "rowhold", "list"]), rng.choice([0, 3, 30])]
    if r < 0.78:
        return ["fetch", rng.choice([1, 4, 100])]
    if r < 0.83:
        return ["ping"]
    if r < 0.87:
        return ["initdb"]
    if r < 0.90:
        return ["fields"]
    if r < 0.93:
        return ["chuser"]
    if r < 0.96:
        return ["set"]
    if r < 0.98:
        return ["tables"]
    return ["prep", rng.choice([1, 1, 300, 5000])]


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "targets": [], "killers": [], "direct": [], "gates": [], "stall": None}
    if rng.random() < 0.4:
        sc["gates"] = rng.sample(["init", "close", "use", "schema", "reset", "get_user", "query", "handle_query"], rng.randint(1, 3))
    for _ in range(rng.choice([1, 1, 2])):
        sc["targets"].append({"net": gen_net(rng), "caps": gen_caps(rng), "prog": [gen_cmd(rng) for _ in range(rng.randint(2, 9))],
                              "quit": rng.random() < 0.5})
        if rng.random() < 0.15:
            sc["targets"][-1]["net"].update({"sndbuf": rng.choice([512, 4096]), "slow_until": 1 << 30})
            sc["targets"][-1]["stall"] = rng.randint(0, 6)
    huge = rng.random() < 0.008
    if huge:
        # an answer of several packets: what is left of it after a kill must not be taken for a part of it
        t = sc["targets"][-1]
        t["prog"].insert(rng.choice([0, 0, 1]), [rng.choice(["q", "q", "exec"]), "huge", 1])
        t["net"] = {"c2s": "all", "sndbuf": rng.choice([1 << 20, 1 << 22, 1 << 23])}
    for _ in range(rng.choice([0, 1, 1, 2])):
        prog = []
        for _ in range(rng.randint(1, 6)):
            prog.append([rng.choice(["query", "query", "connection", ""]), rng.choice(["target"] * 8 + ["self", "unknown", "alike", "bystander-like", "gone"]),
                         rng.randrange(2), rng.choice(["plain", "plain", "plain", "multi", "prep", "upper", "then"]), rng.randint(0, 3)])
        sc["killers"].append({"net": gen_net(rng, faults=False), "prog": prog})
    if rng.random() < 0.7 or not sc["killers"]:
        kinds = ["QUERY", "QUERY", "QUERY", "CONNECTION"] if rng.random() < 0.7 else ["QUERY"]
        sc["direct"] = [[rng.choice(kinds), rng.randrange(2), rng.choice([0.3, 0.1, 0.05, 0.02, 0.01])] for _ in range(rng.randint(1, 5))]
    if huge:
        sc["direct"] = [["QUERY", len(sc["targets"]) - 1, rng.choice([0.3, 0.1, 0.05])] for _ in range(rng.randint(2, 6))]
    else:
        gen_tls(rng, sc, "targets")
    return sc


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"gates": sc["gates"], "schema": {"db1": {"t1": {"a": "INT"}}}})
    kills = []  # (event number, connection id, kind)
    holds = []  # (future, connection id, mode)
    ids = {}  # connection id -> client
    state = {"over": False, "targets": 0, "killers": 0}
    rank = {}

    issued = set()  # every id that a KILL was issued for

    def on_kill(cid, kind):
        if cid not in issued:
            w.violate("c09/stray-kill", "connection %r is killed, the kills issued are for %r" % (cid, sorted(issued)))
        kills.append((w.nevents, cid, kind))
        w.note("kill", kind, ids.get(cid, "?"))
        w.count("kill_" + kind.lower())
        if cid in ids:
            if kind == "CONNECTION":
                w.clients[ids[cid]].W.lax = True  # the farewell may come at any time
            where = w.clients[ids[cid]].where
            o.states.add("%s at %s" % (kind, where))
            o.probes["%s at %s" % (kind, where)] += 1

    app.on_kill = on_kill

    async def park(sess, mode):
        fut = w.loop.create_future()
        h = [fut, sess.cid, mode, w.nevents]
        holds.append(h)
        try:
            await fut
        finally:
            if h in holds:
                holds.remove(h)

    async def answer(sess, expression, sql, attrs):
        m = sql.split("/*m", 1)[1].split("*/", 1)[0].split(",")
        mode, n = m[0], int(m[1])
        cols = [ResultColumn("i", ColumnType.LONGLONG), ResultColumn("s", ColumnType.VARCHAR)]
        if mode == "hold":
            await park(sess, mode)
        elif mode == "swallow":
            try:
                await w.gate("swallow", sess.cid)
            except asyncio_cancelled():
                w.count("app_swallowed_cancel")
                await w.gate("swallowed", sess.cid)
        elif mode == "convert":
            try:
                await w.gate("convert", sess.cid)
            except asyncio_cancelled():
                w.count("app_converted_cancel")
                raise MysqlError("backend gave up", ErrorCode.UNKNOWN_ERROR)
        elif mode == "slowclean":
            try:
                await w.gate("work", sess.cid)
            except asyncio_cancelled():
                w.count("app_slow_cleanup")
                await w.gate("cleanup", sess.cid)
                raise
        elif mode == "group":
            # structured concurrency counts the cancellations of the task it runs in
            async def child():
                await w.gate("child", sess.cid)
                raise ValueError("a part of it failed")
            try:
                async with asyncio.TaskGroup() as g:
                    g.create_task(child())
                    await w.gate("parent", sess.cid)
            except ExceptionGroup:
                w.count("app_task_group_failed")
        elif mode == "deadline":
            try:
                async with asyncio.timeout(0.2):
                    await w.gate("slow", sess.cid)
            except asyncio.TimeoutError:
                w.count("app_deadline")
        elif mode == "err0":
            if n % 2:
                raise ValueError("the application fails at once")
            raise MysqlError("the application refuses at once", ErrorCode.UNKNOWN_ERROR)
        elif mode == "suicide":
            # the application kills the statement it is running, and fails or goes on without waiting for anything
            issued.add(sess.cid)
            await app.control.kill(sess.cid, KillKind.QUERY)
            w.count("app_killed_its_own_statement")
            if n == 1:
                raise MysqlError("and refuses", ErrorCode.UNKNOWN_ERROR)
            if n == 5:
                raise ValueError("and fails")
        elif mode == "err":
            await w.gate("err", sess.cid)
            raise MysqlError("the application refuses", ErrorCode.UNKNOWN_ERROR)
        elif mode == "huge":
            w.count("huge_row")
            return [(k, "x" * ((1 << 24) + 99)) for k in range(n)], cols
        elif mode == "gen":
            return ((k, "row %d" % k) for k in range(n)), cols
        elif mode == "big":
            return ((k, "row %d" % k + "x" * 500) for k in range(n * 10)), cols
        elif mode in ("agen", "rowhold"):
            async def ag():
                for k in range(n):
                    if k % 5 == 2:
                        if mode == "rowhold":
                            await park(sess, mode)
                        else:
                            await w.gate("row", sess.cid)
                    yield (k, "row %d" % k)
            return ag(), cols
        return [(k, "row %d" % k) for k in range(n)], cols

    app.answer_fn = answer

    def in_window(cid, a, kind=None):
        return [k for k in kills if k[1] == cid and k[0] >= a and (kind is None or k[2] == kind)]

    def login_to(c, W, caps, tls=None):
        c.where = "handshake"
        c.W = W
        c.connect()
        h = yield from W.read_handshake()
        if h["kind"] == "err":
            raise Violation("c09/refused", repr(h))
        ids[h["id"]] = c.idx
        c.cid = h["id"]
        if tls and h["caps"] & wire.SSL:
            caps |= wire.SSL
            if not (yield from tls_up(c, W, caps)):
                raise Closed("during the TLS handshake")
        W.send_packet(W.response41(user=b"root", auth=b"", caps=caps))
        r = yield from W.finish_auth(lambda *a: b"")
        if r["kind"] != "ok" and not in_window(c.cid, 0, "CONNECTION"):
            raise Violation("c09/login", repr(r))
        return r

    def target(ti, t):
        def go(c):
            W = Wire(c)
            c.cid = None
            c.where = "new"
            yield GO
            try:
                yield from body(c, W, t)
            except Closed:
                # only a KILL CONNECTION may end a target
                if not in_window(c.cid, 0, "CONNECTION"):
                    raise Violation("c09/closed", "target %d lost its connection in %r, kills %r" % (ti, c.where, kills))
                o.probes["closed-by-kill"] += 1
                yield Cond(lambda: c.eof or c.rst)
            finally:
                c.where = "gone"
                state["targets"] += 1
        return go

    def body(c, W, t):
        r = yield from login_to(c, W, t["caps"], t.get("tls"))
        if r["kind"] != "ok":
            W.lax = True
            yield from drain(c, W, "login")
            return
        cursor = None  # [statement id, columns, rows total, rows read, intact]
        nprep = 0
        for j, cmd in enumerate(t["prog"]):
            c.where = "idle"
            yield GO
            if t.get("stall") == j:
                c.reading = False
                w.count("target_stops_reading")
            if not in_window(c.cid, 0, "CONNECTION"):
                # nothing unsolicited while idle
                W.clean("idle before %r" % (cmd,))
            elif c.inbuf:
                yield from drain(c, W, "idle")
                return
            k = cmd[0]
            t0 = w.nevents
            c.where = k if len(cmd) < 2 or k in ("fetch", "prep") else "%s-%s" % (k, cmd[1])
            want = ("ok", 0)
            rows = None
            err = None
            got = None
            dead = False
            try:
                if k in ("q", "exec", "cursor"):
                    sql = "select i, s /*m%s,%d*/ from t" % (cmd[1], cmd[2])
                    want = ("err", 0) if cmd[1] in ("err", "err0") else ("rs", cmd[2] * (10 if cmd[1] == "big" else 1))
                    if k == "q":
                        W.command(wire.COM_QUERY, W.query_body(sql.encode()))
                        r = yield from W.read_resultset()
                    else:
                        nprep += 1
                        W.command(wire.COM_STMT_PREPARE, sql.encode())
                        r = yield from W.read_prepare()
                        if r["kind"] == "err":
                            if not in_window(c.cid, t0) and not in_window(c.cid, 0, "CONNECTION"):
                                raise Violation("c09/spurious", "COM_STMT_PREPARE failed without a kill: %r" % r)
                            continue
                        sid = r["id"]
                        t0 = w.nevents
                        W.clean("after the prepare")
                        W.command(wire.COM_STMT_EXECUTE, W.execute_body(sid, cursor=k == "cursor"))
                        r = yield from W.read_resultset(binary=True, cursor=k == "cursor")
                        if k == "cursor":
                            cursor = None
                            if r["kind"] == "rs" and not r["err"]:
                                cursor = [sid, r["cols"], want[1], 0]
                    got = r["kind"]
                    if r["kind"] == "rs":
                        rows = r["rows"]
                        err = r["err"]
                    elif r["kind"] == "err":
                        err = r
                elif k == "fetch":
                    if cursor is None:
                        continue
                    W.command(wire.COM_STMT_FETCH, struct.pack("<II", cursor[0], cmd[1]))
                    r = yield from W.read_fetch(cursor[1])
                    got, err, rows = "fetch", r["err"], r["rows"]
                    for row in rows:
                        if row[0] != cursor[3]:
                            raise Violation("c09/rows", "fetch returned row %r where row %d is next" % (row, cursor[3]))
                        cursor[3] += 1
                    if not err and len(rows) != min(cmd[1], cursor[2] - cursor[3] + len(rows)):
                        raise Violation("c09/rows", "fetch(%d) returned %d rows at %d of %d" % (cmd[1], len(rows), cursor[3], cursor[2]))
                    want = ("fetch", None)
                    if err:
                        cursor = None
                elif k == "chuser":
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(b"root", b"", b"", 255, b"mysql_native_password"))
                    r = yield from W.finish_auth(lambda *a: b"")
                    got, err = r["kind"], r if r["kind"] == "err" else None
                    if err and not in_window(c.cid, 0, "CONNECTION"):
                        raise Violation("c09/change-user", "COM_CHANGE_USER refused: %r, kills %r" % (r, kills))
                elif k == "fields":
                    W.command(wire.COM_FIELD_LIST, b"t1\0")
                    r = yield from W.read_field_list()
                    got, err, want = "fields", r["err"], ("fields", None)
                elif k == "prep":
                    W.command(wire.COM_STMT_PREPARE, b"select " + b",".join([b"?"] * (cmd[1] if len(cmd) > 1 else 1)))
                    r = yield from W.read_prepare()
                    got, want = r["kind"], ("prep", None)
                    err = r if r["kind"] == "err" else None
                else:
                    if k == "tables":
                        W.command(wire.COM_QUERY, W.query_body(b"show tables from db1"))
                        want = ("rs", 1)
                    elif k == "set":
                        W.command(wire.COM_QUERY, W.query_body(b"set autocommit = 1"))
                    elif k == "initdb":
                        W.command(wire.COM_INIT_DB, b"db1")
                    else:
                        W.command(wire.COM_PING)
                    r = yield from W.read_resultset()
                    got = r["kind"]
                    err = r if got == "err" else r.get("err")
                    rows = r.get("rows")
            except Closed:
                dead = True
            hit = in_window(c.cid, t0)
            if hit:
                o.nontrivial = True
            if dead:
                raise Closed("during " + c.where)
            o.states.add("%s %s %s" % (c.where, "+".join(sorted({x[2] for x in hit})), "err" if err else got))
            if k in ("q", "exec") and rows is not None and cmd[1] not in ("err", "err0"):
                for n, row in enumerate(rows):
                    if (row[0] if k == "exec" else int(row[0])) != n:
                        raise Violation("c09/rows", "row %r at position %d" % (row, n))
            if err:
                if want[0] == "err":
                    pass
                elif not hit and not in_window(c.cid, 0, "CONNECTION"):
                    raise Violation("c09/spurious", "%s ended with %r; the kills %r arrived before it was sent (event %d)" % (c.where, err, kills, t0))
            else:
                if got != want[0]:
                    if not (want[0] == "err" and hit):
                        raise Violation("c09/kind", "%s answered with %s" % (c.where, got))
                elif want[0] == "rs" and k in ("q", "exec") and len(rows) != want[1]:
                    raise Violation("c09/row-count", "%s: %d of %d rows and no ERR" % (c.where, len(rows), want[1]))
            if k in ("q", "exec", "cursor") and cmd[1] == "hold" and not err:
                if any(x[2] == "QUERY" for x in hit) and not state["over"]:
                    raise Violation("c09/kill-ignored", "the parked statement completed")
        c.where = "idle"
        yield SETTLE if not t["quit"] else GO
        if in_window(c.cid, 0, "CONNECTION"):
            yield from drain(c, W, "end")
            return
        W.clean("at the end")
        W.command(wire.COM_PING)
        r = yield from W.read_ok_err()
        if r["kind"] != "ok" and not in_window(c.cid, 0):
            raise Violation("c09/not-usable", repr(r))
        if in_window(c.cid, 0, "CONNECTION"):
            yield from drain(c, W, "end")
            return
        if t["quit"]:
            c.where = "quit"
            W.command(wire.COM_QUIT)
            yield Cond(lambda: c.eof or c.rst or c.inbuf)
            if c.inbuf:
                yield from drain(c, W, "quit")
            yield Cond(lambda: c.eof or c.rst)
        else:
            c.where = "idle"

    def drain(c, W, where):
        """After KILL CONNECTION: at most one ERR, then the end."""
        yield Cond(lambda: c.eof or c.rst)
        n = 0
        while len(c.inbuf) >= 4:
            p = yield from W.read_packet(check_seq=False)
            n += 1
            if p[:1] != b"\xff" and n > 1:
                raise Violation("c09/unsolicited", "%s: packet %r" % (where, p[:60]))
        if n > 2:
            raise Violation("c09/unsolicited", "%s: %d packets before the close" % (where, n))

    def killer(ki, kl):
        def go(c):
            W = Wire(c)
            c.cid = None
            c.where = "killer"
            yield GO
            try:
                r = yield from login_to(c, W, wire.BASE_CAPS | wire.QUERY_ATTRIBUTES)
                c.where = "killer"
                for kind, whom, k, form, delay in kl["prog"]:
                    for _ in range(delay):
                        yield GO
                    yield GO
                    tgt = [x for x in w.clients[:len(sc["targets"])] if getattr(x, "cid", None) is not None]
                    if whom in ("target", "gone"):
                        if not tgt:
                            continue
                        t = tgt[k % len(tgt)]
                        if whom == "gone" and t.where != "gone":
                            continue
                        cid = t.cid
                    elif whom == "self":
                        cid = c.cid
                    elif whom == "unknown":
                        cid = [99999999, 4294967295][k]
                    elif whom == "alike":
                        if not tgt:
                            continue
                        cid = tgt[0].cid
                        cid = [cid + (1 << 32), cid + (1 << 16), cid & 0xFFFF, cid & 0xFFFF, cid >> 16, cid ^ (1 << 16)][(2 * delay + k) % 6]
                    else:
                        cid = c.cid ^ (1 << 31)
                    sql = "kill %s %d" % (kind, cid)
                    issued.add(cid)
                    if form == "upper":
                        sql = sql.upper()
                    if form == "multi":
                        sql = "set autocommit = 1; " + sql
                    if form == "then":
                        # another statement right behind it, which fails without suspending
                        sql += "; select i, s /*merr0,%d*/ from t" % delay
                    W.clean("before " + sql)
                    t0 = w.nevents
                    alive = cid in app.control.live and kind != "query"
                    if form == "prep":
                        W.command(wire.COM_STMT_PREPARE, sql.encode())
                        r = yield from W.read_prepare()
                        if r["kind"] == "prep":
                            t0 = w.nevents
                            W.command(wire.COM_STMT_EXECUTE, W.execute_body(r["id"]))
                            r = yield from W.read_ok_err()
                    else:
                        W.command(wire.COM_QUERY, W.query_body(sql.encode()))
                        r = yield from W.read_ok_err()
                    o.probes["kill-answered"] += 1
                    hit = in_window(c.cid, t0)
                    if r["kind"] == "err" and not hit and whom in ("target", "self") and form != "then":
                        raise Violation("c09/kill-refused", "%s: %r" % (sql, r))
                    if not hit and whom in ("target",) and not in_window(cid, t0):
                        raise Violation("c09/kill-not-delivered", "%s was answered %r, the registry saw no kill of %d: %r" % (sql, r, cid, kills[-3:]))
                    if whom == "self" and kind != "query":
                        yield from drain(c, W, "after killing itself")
                        if len(c.inbuf):
                            raise Violation("c09/unsolicited", "after KILL of itself: %r" % bytes(c.inbuf[:60]))
                        return
                yield GO
                W.command(wire.COM_PING)
                r = yield from W.read_ok_err()
                expect(r["kind"] == "ok" or in_window(c.cid, t0), "c09/killer-not-usable", repr(r))
            except Closed:
                if not in_window(c.cid, 0, "CONNECTION"):
                    raise Violation("c09/closed", "the killer lost its connection: %r" % kills)
            finally:
                state["killers"] += 1
        return go

    def bystander(c):
        W = Wire(c)
        c.cid = None
        c.where = "bystander"
        yield GO
        yield from login_to(c, W, wire.BASE_CAPS)
        c.where = "bystander"
        for j in range(30):
            if state["targets"] >= len(sc["targets"]):
                break
            yield GO
            W.command(wire.COM_QUERY, W.query_body(b"select i, s /*mlist,2*/ from t"))
            r = yield from W.read_resultset()
            expect(r["kind"] == "rs" and not r["err"] and r["nrows"] == 2, "c09/bystander", "%r, kills %r" % (r, kills))
        rounds = 0
        while state["targets"] < len(sc["targets"]) or state["killers"] < len(sc["killers"]):
            yield SETTLE
            rounds += 1
            if rounds > 60:
                # everything has settled, nothing is parked, the clients read:
                # the unfinished ones wait for an answer or a close that a
                # kill should have brought (judged after the run)
                left = [(t.idx, getattr(t, "where", None)) for t in w.clients if not t.done and t is not c]
                raise Violation("c09/no-progress", "clients still waiting: %r, kills %r" % (left, kills[-6:]))
            for t in w.clients[:len(sc["targets"])]:
                if not t.reading and t.where not in ("new", "handshake", "quit") and in_window(t.cid, 0, "CONNECTION") and t.cid in app.control.live:
                    raise Violation("c09/survived", "client %d was killed and stays connected for as long as it doesn't read (%s)" % (t.idx, t.where))
                t.reading = True
            # whatever is still parked although a kill arrived was spared
            for fut, cid, mode, since in list(holds):
                if in_window(cid, since):
                    raise Violation("c09/kill-ignored", "a statement stays parked in the application although it was killed: %r" % in_window(cid, since))
            yield QUIESCE
            if state["targets"] < len(sc["targets"]):
                for h in list(holds):
                    state["over"] = True
                    if not h[0].done():
                        h[0].set_result(None)
            yield SETTLE
            stuck = [t for t in w.clients if not t.done and t is not c and t.wait is RECV and t.reading and not holds and not w.gates]
            if stuck:
                return
        yield GO
        W.clean("at the end")
        W.command(wire.COM_PING)
        r = yield from W.read_ok_err()
        expect(r["kind"] == "ok", "c09/bystander", repr(r))

    direct = [list(d) for d in sc["direct"]]

    def hit_now():
        if direct and not w.violations and w.started:
            kind, ti, p = direct[0]
            if ti < len(sc["targets"]):
                t = w.clients[ti]
                cid = getattr(t, "cid", None)
                conn = app.control.live.get(cid) if cid is not None else None
                if conn is not None:
                    if ch.flip(p):
                        direct.pop(0)
                        w.count("direct_kill")
                        issued.add(cid)
                        on_kill(cid, kind)
                        conn.kill(KillKind[kind])
                    return
            direct.append(direct.pop(0)) if ti >= len(sc["targets"]) and any(d[1] < len(sc["targets"]) for d in direct) else None

    w.on_iteration = hit_now
    for ti, t in enumerate(sc["targets"]):
        w.client(target(ti, t), t["net"])
    for ki, kl in enumerate(sc["killers"]):
        w.client(killer(ki, kl), kl["net"])
    w.client(bystander, {})
    w.run(std_server(app, **tls_kw(sc)))
    if not w.violations:
        for c in w.clients:
            dead = in_window(getattr(c, "cid", None), 0, "CONNECTION")
            if dead and c.pipe is not None and c.pipe.accepted and not c.pipe.srv_closed and not c.pipe.s2c:
                w.violate("c09/survived", "client %d was killed (%r) and its socket is still open" % (c.idx, dead))
            if dead and getattr(c, "cid", None) in app.control.live:
                w.violate("c09/survived", "client %d was killed and is still registered" % c.idx)
        for s in app.sessions:
            if s.cid == -1:
                if s.closes:
                    w.violate("c09/session-close", "a session that was never initialised was closed")
                continue
            c = w.clients[ids[s.cid]] if s.cid in ids else None
            if s.closes and not any(e[0] == "close-done" for e in app.events(s.sid)):
                w.violate("c09/session-close", "close() of the session of client %s was cut short" % ids.get(s.cid))
            if s.closes > 1:
                w.violate("c09/session-close", "session of client %s closed %d times" % (ids.get(s.cid), s.closes))
            ended = c is not None and c.pipe.srv_closed
            if ended and s.inits and s.closes != 1:
                w.violate("c09/session-close", "client %d: connection ended, session closed %d times" % (c.idx, s.closes))
            if not ended and s.closes and c is not None and not c.pipe.s2c:
                w.violate("c09/session-close", "client %d: session closed, connection alive" % c.idx)
    unfinished(w, "c09")
    return finish(o, w)


def asyncio_cancelled():
    import asyncio
    return asyncio.CancelledError
