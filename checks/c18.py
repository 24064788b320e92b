"""C18: connection ids are unique among live connections and address the right one."""
from checks.common import *
from dst.app import RecordingControl
from mysql_mimic.control import LocalControl, TooManyConnections

ID = "C18"
LEVEL = "exploration"
QUICK_RUNS = 800
THOROUGH_RUNS = 150000
RULE = ("A run is 2-8 real connections that log in, ask for their id, park statements, kill each other and end in every way "
        "(COM_QUIT, FIN, reset, refused login, death inside the handshake), beside up to 65536 stand-in connections registered "
        "through the public Control interface; in between the id sequence is driven onto ids still in use, over the wrap, and the "
        "table is filled. Ids are compared at registration, at session start and by the clients; KILL must hit exactly the "
        "connection with that id; refusals (ERR 1040) are allowed only while 65536 are registered and at the end the freed "
        "capacity is measured. Non-trivial: the sequence met a live id, or the table was full, or a KILL was answered.")
STATE_RULE = "(server id class, offset of the sequence from a live id, connections alive, refusals, kinds of ending)"
STUB = ["kernel sockets and selector (simulated)", "clock (virtual)", "os.urandom / random (seeded)",
        "MySQL clients (independent strict protocol implementation)", "application session (table-driven, recording)",
        "stand-in connections, which only hold an id and record kills"]
FULL = 65536


def gen(rng, i, tier):
    fill = None
    r = rng.random()
    if r < 0.3:
        fill = rng.choice([0, 1, 1, 2, 3])
    n = rng.choice([2, 3, 4, 5, 6, 8])
    sc = {"sched": gen_sched(rng), "server_id": rng.choice([0, 1, 7, 255, 256, 32768, 65535, 65536, 65537, 70000, 2**32 + 5, 2**31, None]), "fill": fill,
          "pre": rng.choice([0, 0, 1, 255, 256, 300, 65530, 65535, 65536 + 3]) if fill is None else rng.choice([0, 3, 65535]), "async_factory": rng.random() < 0.2, "clients": []}
    if rng.random() < 0.7:
        sc["sched"].setdefault("w", {})["gate"] = rng.choice([0.01, 0.05])
    sc["gates"] = rng.choice([[], [], ["control_add"], ["factory"], ["get_user"], ["init"], ["close"]])
    for _ in range(n):
        prog = []
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            q = rng.random()
            if q < 0.25:
                prog.append(["id", rng.choice(["CONNECTION_ID()", "connection_id()", "connection_id ()", "Connection_Id() as x"]), rng.choice(["text", "prep", "app"])])
            elif q < 0.45:
                prog.append(["park"])
            elif q < 0.7:
                prog.append(["kill", rng.choice(["query", "connection", ""]), rng.choice(["client", "client", "client", "stand", "gone", "plus32", "low16", "other-server", "self"]), rng.randrange(8)])
            elif q < 0.9 and fill is None:
                prog.append(["advance", rng.choice(["live", "live", "wrap"]), rng.randrange(8), rng.choice([-2, -1, -1, 0, 0, 0, 1])])
            elif q < 0.95:
                prog.append([rng.choice(["hold", "release"]), rng.choice([1, 1, 2, 3])])
            else:
                prog.append(["ping"])
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "delay": rng.choice([0, 0, 1, 3, 10, 30]), "prog": prog,
                              "end": rng.choice(["quit", "quit", "fin", "rst", "badauth", "die-rst", "die-fin", "mute-fin", "mute-rst", "seq", "stay"])})
    return sc


class Stand:
    """A connection that only holds an id."""

    def __init__(self):
        self.kills = []

    def kill(self, kind=KillKind.CONNECTION):
        self.kills.append(kind.name)


def now(coro):
    """Run a coroutine at once; it may pass the turn (sleep(0)) but has nothing to wait for."""
    try:
        for _ in range(100):
            fut = coro.send(None)
            if fut is not None and not fut.done():
                break
    except StopIteration as e:
        return e.value
    raise RuntimeError("a Control method suspended")


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"gates": sc.get("gates", []), "async_factory": sc.get("async_factory")})
    stands = {}    # id -> Stand
    cid_of = {}    # client index -> id from the handshake
    alive = {}     # id -> client index, as the clients see it
    suspects = []  # (client index, other client index, id): saw the same id while both seemed alive
    parked = {}    # id -> number of the parked statement
    hit = set()    # (id, number) of parked statements that a KILL QUERY reached
    kills = []     # (id, kind)
    ended = set()
    wires = {}
    since = {}     # id -> number of kills before it was given out, each time

    def killed(c, kind=None):
        """Kills aimed at this client's connection."""
        cid = cid_of.get(c.idx)
        return [k for k in kills[c.since:] if k[0] == cid and kind in (None, k[1])] if cid is not None else []

    standkills = []
    refused = [0]

    class Ctl(RecordingControl):
        async def add(self, connection):
            await app.enter(None, "control_add")
            try:
                cid = await LocalControl.add(self, connection)
            except TooManyConnections:
                refused[0] += 1
                o.probes["table-full"] += 1
                if len(self.live) + len(stands) < FULL:
                    w.violate("c18/refused", "a client was refused while %d of 65536 ids are in use" % (len(self.live) + len(stands)))
                raise
            check_id(cid, self.live, "registration")
            since.setdefault(cid, []).append(len(kills))
            self.history.append(("add", cid))
            w.note("control.add", len(self.live))
            self.live[cid] = connection
            return cid

    def check_id(cid, live, where):
        pre = (app.control.server_id if sc["server_id"] is None else sc["server_id"]) % FULL
        if not (isinstance(cid, int) and 0 <= cid < 2**32 and cid >> 16 == pre):
            w.violate("c18/server-id", "%s: id %r does not carry the server id %d" % (where, cid, pre))
        if cid in live or (cid in stands and where != "stand"):
            w.violate("c18/duplicate", "%s: id %d (sequence %d) is in use by another live connection" % (where, cid, cid & 0xFFFF))

    def stand(n):
        for _ in range(n):
            s = Stand()
            try:
                cid = now(LocalControl.add(app.control, s))
            except TooManyConnections:
                if len(app.control.live) + len(stands) < FULL:
                    w.violate("c18/refused", "registration refused while %d of 65536 ids are in use" % (len(app.control.live) + len(stands)))
                return
            check_id(cid, app.control.live, "registration of a stand-in")
            stands[cid] = s

    def unstand(ids):
        for cid in ids:
            stands.pop(cid, None)
            now(LocalControl.remove(app.control, cid))

    def advance(n):
        """Let n connections come and go."""
        c = app.control
        for _ in range(n):
            s = Stand()
            try:
                cid = now(LocalControl.add(c, s))
            except TooManyConnections:
                return
            if cid in c.live or cid in stands:
                w.violate("c18/duplicate", "the id %d given to a connection that comes and goes is in use" % cid)
                return
            now(LocalControl.remove(c, cid))

    def server():
        app.control = Ctl(app, sc["server_id"])
        advance(sc["pre"])
        if sc["fill"] is not None:
            stand(FULL - sc["fill"])
        return MysqlServer(session_factory=app.factory(), control=app.control)

    inits = {}
    orig_rec = app.rec

    def rec(sess, what, *a):
        if what == "init":
            cid = a[0]
            for other in app.sessions:
                if other is not sess and other.cid == cid and other.inits and not other.closes:
                    w.violate("c18/duplicate", "session %d starts with id %d, which session %d still has" % (sess.sid, cid, other.sid))
            inits[cid] = sess
        orig_rec(sess, what, *a)

    app.rec = rec

    async def answer(sess, expression, sql, attrs):
        if "/*park" in sql:
            k = int(sql.split("/*park", 1)[1].split("*/", 1)[0])
            parked[sess.cid] = k
            try:
                await w.gate("park", sess.cid)
            finally:
                if parked.get(sess.cid) == k:
                    del parked[sess.cid]
            return [(1,)], ["a"]
        lit = [e for e in expression.find_all(exp.Literal) if not e.is_string]
        return [(int(lit[0].name) if lit else -1,)], ["a"]

    app.answer_fn = answer

    def on_kill(cid, kind):
        kills.append((cid, kind))
        if kind == "CONNECTION" and cid in wires:
            wires[cid].lax = True  # an ERR may precede the close at any point
        if cid in parked and kind == "QUERY":
            hit.add((cid, parked[cid]))

    app.on_kill = on_kill

    def login_as(c, W, caps, must=None):
        """-> True if served, False if refused with 1040"""
        before = len(kills)
        c.connect()
        h = yield from W.read_handshake()
        if h["kind"] == "err":
            if h["code"] != 1040:
                raise Violation("c18/refusal", "refused with %r instead of ERR 1040" % (h,))
            if must:
                raise Violation("c18/refused", "%s: refused with ERR 1040" % must)
            if sc["fill"] is None:
                raise Violation("c18/refused", "refused with ERR 1040 while the table is nearly empty")
            o.nontrivial = True
            yield Cond(lambda: c.eof or c.rst)
            if c.inbuf:
                raise Violation("c18/refusal", "%d bytes after the refusal" % len(c.inbuf))
            return False
        cid = h["id"]
        check_id(cid, {}, "handshake")
        if cid in alive and alive[cid] not in ended:
            suspects.append((alive[cid], c.idx, cid))
        alive[cid] = c.idx
        cid_of[c.idx] = cid
        given = [e for e in since.get(cid, []) if e >= before] or [before]
        c.since = min(given)
        c.certain = len(set(given)) == 1  # else a KILL may have been for an earlier holder of the id
        wires[cid] = W
        return True

    def auth(c, W, caps):
        W.send_packet(W.response41(user=b"root", auth=b"", caps=caps))
        r = yield from W.finish_auth(lambda *a: b"")
        if r["kind"] != "ok":
            if killed(c, "CONNECTION"):
                raise Closed("killed")
            raise Violation("c18/login", repr(r))

    def answered(c):
        """The client's connection just answered: it is certainly alive."""
        for a, b, cid in suspects:
            if c.idx in (a, b) and (b if c.idx == a else a) not in ended:
                other = w.clients[b if c.idx == a else a]
                if not (other.eof or other.rst):
                    c.last = True
                    if getattr(other, "last", False):
                        raise Violation("c18/duplicate", "clients %d and %d both have id %d" % (a, b, cid))

    def life(ci, cl):
        def go(c):
            W = Wire(c)
            for _ in range(cl["delay"]):
                yield GO
            yield GO
            try:
                if cl["end"].startswith("mute"):
                    c.connect()
                    yield GO
                    c.close(cl["end"][5:])
                    return
                ok = yield from login_as(c, W, cl["caps"])
                if not ok:
                    return
                if cl["end"].startswith("die"):
                    yield GO
                    ended.add(c.idx)
                    c.close(cl["end"][4:])
                    return
                if cl["end"] == "badauth":
                    W.send_packet(W.response41(user=b"root", auth=b"wrong" * 4, caps=cl["caps"]))
                    r = yield from W.finish_auth(lambda *a: b"x" * 20)
                    expect(r["kind"] == "err", "c18/login", repr(r))
                    ended.add(c.idx)
                    yield Cond(lambda: c.eof or c.rst)
                    return
                yield from auth(c, W, cl["caps"])
                yield from body(c, W, cl)
            except Closed:
                cid = cid_of.get(c.idx)
                if not killed(c, "CONNECTION"):
                    raise Violation("c18/wrong-target", "client %d (id %r) lost its connection; the kills were %r" % (ci, cid, kills[-5:]))
                o.probes["closed-by-kill"] += 1
            finally:
                ended.add(c.idx)
        return go

    nparks = [0]

    def me(c, W, form, how):
        form = form if "connection_id" in form.lower() else "connection_id()"
        sql = "select " + form
        if how == "app":
            sql = "select %s from t" % form
        if how == "prep":
            W.command(wire.COM_STMT_PREPARE, sql.encode())
            p = yield from W.read_prepare()
            if p["kind"] == "err":
                return p
            W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"]))
            r = yield from W.read_resultset(binary=True)
        else:
            W.command(wire.COM_QUERY, W.query_body(sql.encode()))
            r = yield from W.read_resultset()
        if r["kind"] == "rs" and not r["err"]:
            got = int(r["rows"][0][0])
            if got != cid_of[c.idx]:
                raise Violation("c18/connection-id", "handshake announced %d, %s says %d" % (cid_of[c.idx], sql, got))
            o.probes["connection-id"] += 1
        return r

    def target(c, whom, k):
        """-> id to kill (None: nothing suitable)"""
        mine = cid_of[c.idx]
        live = sorted((ci, cid) for ci, cid in cid_of.items() if ci != c.idx and ci not in ended)
        if whom == "self":
            return mine
        if whom == "client":
            return live[k % len(live)][1] if live else None
        if whom == "stand":
            ids = list(stands)
            return ids[(k * 7919) % len(ids)] if ids else None
        if whom == "gone":
            gone = [cid for ci, cid in sorted(cid_of.items()) if ci in ended]
            return gone[k % len(gone)] if gone else None
        if not live:
            return None
        base = live[k % len(live)][1]
        return base + 2**32 if whom == "plus32" else base & 0xFFFF if whom == "low16" else base ^ (1 << (16 + k))

    def body(c, W, cl):
        for op in cl["prog"]:
            yield GO
            kind = op[0]
            r = None
            cid = cid_of[c.idx]
            k0 = len(kills)
            if kind == "id":
                r = yield from me(c, W, op[1], op[2])
            elif kind == "park":
                nparks[0] += 1
                n = nparks[0]
                W.command(wire.COM_QUERY, W.query_body(b"select a /*park%d*/ from t" % n))
                r = yield from W.read_resultset()
                o.probes["parked"] += 1
                if r["kind"] != "err" and (cid, n) in hit:
                    raise Violation("c18/kill-missed", "KILL QUERY %d was issued while client %d had its statement in the application, which completed" % (cid, c.idx))
                if r["kind"] == "err" and (cid, n) in hit:
                    o.probes["parked-killed"] += 1
            elif kind == "kill":
                t = target(c, op[2], op[3])
                if t is None:
                    continue
                standkills.append(t)
                before = {x: len(s.kills) for x, s in stands.items() if s.kills}
                W.command(wire.COM_QUERY, W.query_body(("kill %s %d" % (op[1], t)).encode()))
                r = yield from W.read_ok_err()
                o.nontrivial = True
                o.probes["kill-" + op[2]] += 1
                what = (op[1] or "connection").upper()
                s = stands.get(t)
                if s is not None and r["kind"] == "ok":
                    if len(s.kills) <= before.get(t, 0) or s.kills[-1] != what:
                        raise Violation("c18/kill-missed", "KILL %s %d answered OK, the connection with that id got %r" % (what, t, s.kills))
                strange = [x for x, st in stands.items() if st.kills and x not in standkills]
                if strange:
                    raise Violation("c18/wrong-target", "KILL %s %d hit stand-in %d" % (what, t, strange[0]))
                if t in app.control.live and what == "CONNECTION" and t != cid:
                    # the right session must end; looked at when everything has settled
                    pass
            elif kind == "advance":
                live = sorted((ci, x) for ci, x in cid_of.items() if ci not in ended)
                s = Stand()
                try:
                    last = now(LocalControl.add(app.control, s))
                except TooManyConnections:
                    continue
                now(LocalControl.remove(app.control, last))
                goal = live[op[2] % len(live)][1] if op[1] == "live" and live else 0
                n = (goal + op[3] - (last + 1)) % FULL
                advance(n)
                o.nontrivial = True
                o.probes["sequence-driven-" + op[1]] += 1
                o.states.add("advance %s %d alive%d" % (op[1], op[3], len(live)))
                continue
            elif kind == "hold":
                stand(op[1])
                continue
            elif kind == "release":
                unstand(list(stands)[:op[1]])
                continue
            else:
                W.command(wire.COM_PING)
                r = yield from W.read_ok_err()
            err = r.get("err") if r["kind"] != "err" else r
            if err and not killed(c):
                raise Violation("c18/wrong-target", "client %d (id %d): %s ended with %r; kills so far %r" % (c.idx, cid, op, err, kills[-5:]))
            if killed(c, "CONNECTION") and c.certain:
                yield Cond(lambda: c.eof or c.rst)
                raise Closed("killed")
            answered(c)
        e = cl["end"]
        cid = cid_of[c.idx]
        if e == "stay":
            yield SETTLE
            if killed(c, "CONNECTION") and c.certain:
                yield Cond(lambda: c.eof or c.rst)
                raise Closed("killed")
            r = yield from me(c, W, "connection_id()", "text")
            if r["kind"] == "err" and not killed(c):
                raise Violation("c18/wrong-target", repr(r))
            answered(c)
            e = "quit"
        yield GO
        ended.add(c.idx)
        if e == "quit":
            W.command(wire.COM_QUIT)
            yield Cond(lambda: c.eof or c.rst)
        elif e == "seq":
            c.send_raw(b"\1\0\0\x37\x0e")
            yield Cond(lambda: c.eof or c.rst or c.inbuf)
            c.close("rst")
        else:
            c.close(e)
        o.states.add("sid%s full%s end-%s refused%d" % (sc["server_id"], sc["fill"], e, min(refused[0], 3)))

    mains = []
    for ci, cl in enumerate(sc["clients"]):
        mains.append(w.client(life(ci, cl), cl["net"]))

    # --- afterwards the capacity must be what it was
    ph = {"next": 0, "free": None, "given": False, "over": False}

    def prober(pi):
        def go(c):
            W = Wire(c)
            yield Cond(lambda: ph["over"] or (all(m.done for m in mains) and ph["next"] == pi))
            if ph["over"] or w.violations:
                ph["over"] = True
                return
            yield SETTLE
            if ph["free"] is None:
                if FULL - len(stands) > last - 1:  # more places than probes: fill up some
                    stand(FULL - len(stands) - (last - 1))
                ph["free"] = FULL - len(stands)
            free = ph["free"]
            if pi == free + 1:
                yield Cond(lambda: ph["given"])
                yield SETTLE
            c.connect()
            h = yield from W.read_handshake()
            if pi == free:
                if h["kind"] != "err" or h["code"] != 1040:
                    raise Violation("c18/over-capacity", "client beyond 65536 connections got %r" % (h,))
                o.probes["refused-when-full"] += 1
                o.nontrivial = True
                if free == 0:
                    unstand(list(stands)[5:6])
                    ph["given"] = True
                ph["give"] = True
                ph["next"] = pi + 1
                return
            if h["kind"] == "err":
                raise Violation("c18/no-recovery", "places are free, a new client is refused: %r" % (h,))
            check_id(h["id"], app.control.live.keys() - {h["id"]}, "handshake")
            if h["id"] in ph.setdefault("ids", set()):
                raise Violation("c18/duplicate", "two live connections have id %d" % h["id"])
            ph["ids"].add(h["id"])
            W.send_packet(W.response41(user=b"root", auth=b"", caps=wire.BASE_CAPS))
            r = yield from W.finish_auth(lambda *a: b"")
            expect(r["kind"] == "ok", "c18/login", repr(r))
            o.probes["capacity-probe"] += 1
            if pi == free + 1 or pi == last:
                ph["over"] = True
            ph["next"] = pi + 1
            yield Cond(lambda: ph["over"] or (pi == 0 and ph.get("give")))
            W.command(wire.COM_QUIT)
            yield Cond(lambda: c.eof or c.rst)
            ph["ids"].discard(h["id"])
            if pi == 0:
                ph["given"] = True
        return go

    last = 11
    if sc["fill"] is not None:
        for pi in range(last + 1):
            w.client(prober(pi), {})
    w.run(server)
    unfinished(w, "c18")
    if not w.violations:
        left = list(app.control.live)
        if left:
            w.violate("c18/leaked", "every client is gone and %d ids are still registered" % len(left))
    return finish(o, w)
