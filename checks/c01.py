"""C01: no command is served on a connection that has not authenticated."""
from checks.authlib import *

ID = "C01"
LEVEL = "exploration"
QUICK_RUNS = 24000
THOROUGH_RUNS = 1500000
RULE = ("A run is a set of 1-4 clients making login and COM_CHANGE_USER attempts (valid and invalid, 15 accounts, 5 plugin "
        "orders, optimistic/continue/switch/more-data paths), each followed by commands sent eagerly or in lockstep, with "
        "application delays and exceptions inside get_user/plugins, KILLs and disconnects. Non-trivial: at least one exchange "
        "failed and at least one command was sent after it.")
STATE_RULE = "(auth path, verdict, result, what was sent afterwards, what came back)"

POST = ["query", "ping", "initdb", "prepare", "reset", "change_user", "fieldlist", "retry_login", "long", "stmt", "quit?"]


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    sc = {"sched": gen_sched(rng), "order": rng.choice(ORDERS), "clients": [], "app": {"gates": [], "faults": []}}
    for _ in range(n):
        cl = {"net": gen_net(rng), "att": gen_attempt(rng, 0.35), "caps": gen_caps(rng), "eager": [], "post": [],
              "change": []}
        if rng.random() < 0.1:
            cl["caps"] &= ~wire.PLUGIN_AUTH
        if rng.random() < 0.4:
            cl["eager"] = [rng.choice(POST[:-1]) for _ in range(rng.randint(1, 3))]
        cl["post"] = [rng.choice(POST[:-1]) for _ in range(rng.randint(1, 4))]
        k = rng.choice([0, 0, 1, 1, 2, 3])
        cl["change"] = [gen_attempt(rng, 0.5) for _ in range(k)]
        for a in cl["change"]:
            a["eager"] = [rng.choice(POST[:-1]) for _ in range(rng.choice([0, 0, 1, 2]))]
        if k and rng.random() < 0.7:
            cl["att"] = {"user": rng.choice(["alice", "henk", "nopw", "erin", "carol"]), "how": "good", "declare": "match"}
        if rng.random() < 0.15:
            cl["malform"] = rng.choice(["trunc", "seq", "extra", "nonutf", "empty", "badcharset"])
        if rng.random() < 0.1:
            cl["cut"] = [rng.randint(1, 150), rng.choice(["fin", "rst", "half"])]
        sc["clients"].append(cl)
    if rng.random() < 0.3:
        sc["app"]["gates"] = rng.sample(["get_user", "auth_check", "init", "factory", "control_add"], rng.randint(1, 2))
    if rng.random() < 0.3:
        sc["app"]["faults"] = [[rng.choice(["get_user", "auth_check", "init", "reset"]), rng.randint(0, 3),
                                rng.choice(["mysql", "value", "os", "assert", "timeout", "incomplete", "key"])]]
    if rng.random() < 0.15:
        sc["app"]["async_factory"] = True
    if any(a["user"] == "erin" for cl in sc["clients"] for a in [cl["att"]] + cl["change"]):
        sc["multi"] = [rng.choice([1, 2, 2, 3, 4, 6, 11, 11, 130]), rng.random() < 0.5]
    if rng.random() < 0.2 and n > 1:
        sc["killer"] = {"kind": rng.choice(["QUERY", "CONNECTION"]), "target": rng.randrange(n), "n": rng.randint(1, 2)}
    return gen_tls(rng, sc)


def send_post(c, W, what, att):
    """A command with a fresh sequence number, whatever state the connection is in."""
    W.seq = 0
    q = W.query_body
    if what == "query":
        W.send_packet(b"\x03" + q(b"select a from t1"))
    elif what == "ping":
        W.send_packet(b"\x0e")
    elif what == "initdb":
        W.send_packet(b"\x02evil_db")
    elif what == "prepare":
        W.send_packet(b"\x16select a from t1")
    elif what == "reset":
        W.send_packet(b"\x1f")
    elif what == "fieldlist":
        W.send_packet(b"\x04t1\0")
    elif what == "long":
        W.send_packet(b"\x18" + b"\0\0\0\0\0\0abc")
    elif what == "stmt":
        W.send_packet(b"\x17" + b"\0\0\0\0\0\1\0\0\0")
    elif what == "change_user":
        an = Answerer(Prover("alice", "good", ["native"]))
        d = an.initial("mysql_native_password", W.hs["data"][:20], True)
        W.send_packet(b"\x11" + W.change_user_body(b"alice", d, charset=255, plugin=b"mysql_native_password"))
    elif what == "retry_login":
        an = Answerer(Prover("alice", "good", ["native"]))
        d = an.initial("mysql_native_password", W.hs["data"][:20], True)
        W.send_packet(W.response41(user=b"alice", auth=d), seq=None)


SENSITIVE = ("handle_query", "query", "use", "reset", "schema")


def run(sc, ch, trace=False):
    o = Outcome()
    w = World(ch, sc.get("sched"), trace)
    app = App(w, dict(sc["app"], default={"kind": "rows", "cols": [{"name": "a", "type": None}], "rows": [[1]]}))
    order = sc["order"]
    st = {}  # connection id -> state dict
    cids = {}

    def state_of(cid):
        return st.get(cid)

    orig_rec = app.rec

    def rec(sess, what, *a):
        orig_rec(sess, what, *a)
        if sess is None:
            return
        if what == "init":
            sess.cid = a[0]
            s = st.get(a[0])
            if s is None or not s["may"]:
                w.violate("c01/session-started", "session.init on a connection that proved nothing (%s)" % (s and s["why"]))
            return
        if what in SENSITIVE:
            s = st.get(sess.cid)
            if s is None or not s["may"]:
                w.violate("c01/command-served", "application received %s on an unauthenticated connection (%s): %r" % (
                    what, s and s["why"], a[:1]))
                return
            if s["dead"]:
                w.violate("c01/served-after-failed-change-user", "application received %s after a failed COM_CHANGE_USER: %r" % (what, a[:1]))
                return
            if what in ("handle_query", "query"):
                user = a[2]
                if user not in s["ids"]:
                    w.violate("c01/wrong-user", "statement runs as %r, authenticated: %r" % (user, s["ids"]))

    app.rec = rec

    def names():
        """The name a session runs under passed authentication, at every moment of its life."""
        for sess in app.sessions:
            s = st.get(sess.cid)
            if s is not None and sess.inits and s["may"] and sess.username not in s["ids"]:
                w.violate("c01/wrong-user", "the session runs as %r, authenticated: %r" % (sess.username, s["ids"]))

    w.on_iteration = names

    def drain_all(c, W, s, why):
        """Everything from here on must be ERR or close."""
        yield QUIESCE
        while True:
            if len(c.inbuf) < 4:
                if c.inbuf and (c.eof or c.rst):
                    pass
                break
            n = int.from_bytes(c.inbuf[:3], "little")
            if len(c.inbuf) < 4 + n:
                break
            p = bytes(c.inbuf[4:4 + n])
            del c.inbuf[:4 + n]
            o.probes["after-failure:" + ("err" if p[:1] == b"\xff" else "other")] += 1
            if p[:1] != b"\xff":
                raise Violation("c01/answered", "%s, then the server answered %r" % (why, p[:60]))
        if c.eof or c.rst:
            o.probes["closed-after-failure"] += 1

    def script(cl):
        def go(c):
            W = Wire(c)
            W.lax = bool(sc.get("killer"))  # a killed connection may be told so at any time
            yield GO
            att = dict(cl["att"], caps=cl["caps"])
            s = {"may": False, "dead": False, "ids": set(), "why": "no exchange"}

            def hook(payload):
                s["sent"] = True

            # the handshake names the connection before anything is sent
            c.connect()
            h = yield from W.read_handshake()
            if h["kind"] == "err":
                o.probes["refused"] += 1
                return
            st[h["id"]] = s
            cids[c.idx] = h["id"]
            pr = Prover(att["user"], att["how"], order)
            an = Answerer(pr)
            dn = h["plugin"] == "mysql_native_password" or (h["plugin"] is None and order[0] == "native")
            declared = att["declare"]
            if declared == "match":
                declared = CLIENT_PLUGIN[order[0]] or "mysql_native_password"
            d = an.initial(declared, h["data"][:20], dn)
            if cl.get("tls") and h["caps"] & wire.SSL:
                att["caps"] = cl["caps"] | wire.SSL
                if not (yield from tls_up(c, W, att["caps"])):
                    raise Closed("during the TLS handshake")
            payload = W.response41(user=att["user"].encode(), auth=d, caps=att["caps"],
                                   db=att["db"].encode() if att.get("db") else None, plugin=declared.encode())
            mal = cl.get("malform")
            if mal == "trunc":
                payload = payload[:max(33, len(payload) - 1 - (len(payload) * 7) % 30)]
            elif mal == "extra":
                payload += b"\0\0xx"
            elif mal == "nonutf":
                payload = payload[:32] + b"\xff\xfe" + payload[32:]
            elif mal == "empty":
                payload = b""
            elif mal == "badcharset":
                payload = payload[:8] + b"\0" + payload[9:]
            if mal:
                W.lax = True
                an.verdict = None if mal in ("extra", "trunc") and an.verdict is not False else an.verdict

            def allow():
                if an.verdict is not False:
                    s["may"] = True
                    v = pr.vouched()
                    s["ids"].add(v)
                    s["why"] = "ok"

            allow()
            if "change_user" in cl["eager"]:
                s["ids"].add("alice")  # a pipelined COM_CHANGE_USER with her own proof
            if not s["may"]:
                s["why"] = "login as %r with %s" % (att["user"], att["how"])
            if cl.get("cut"):
                W.lax = True
                c.fail_after = list(cl["cut"])
            W.send_packet(payload, seq=(W.seq + 1) & 255 if mal == "seq" else None)
            if cl["eager"]:
                keep = W.seq
                for what in cl["eager"]:
                    send_post(c, W, what, att)
                    o.probes["eager-command"] += 1
                W.seq = keep

            def respond(kind, name, data):
                if cl["eager"]:
                    # our eager bytes were consumed as the answer to the challenge
                    an.path.append(kind)
                    an.verdict = False
                    return b"?"
                r = an(kind, name, data)
                allow()
                return r

            try:
                res = yield from W.finish_auth(respond)
            except Closed:
                o.probes["closed-without-err"] += 1
                return
            o.states.add("%s/%s/%s" % ("+".join(an.path), an.verdict, res["kind"]))
            o.probes["login-" + res["kind"]] += 1
            if res["kind"] == "ok" and not s["may"]:
                raise Violation("c01/ok-without-proof", "OK for %r with %s" % (att["user"], att["how"]))
            if res["kind"] != "ok":
                s["may"] = False
                s["why"] = "the server rejected %r/%s" % (att["user"], att["how"])
                o.probes["failed-exchange"] += 1
                for what in cl["post"]:
                    yield GO
                    send_post(c, W, what, att)
                    o.probes["post-" + what] += 1
                yield from drain_all(c, W, s, s["why"])
                return
            if cl["eager"]:
                # pipelined commands after a successful login are ordinary commands
                yield QUIESCE
                c.inbuf.clear()
                return
            s["ids"] = {pr.vouched()}
            for a in cl["change"]:
                yield GO
                if c.eof or c.rst:
                    return
                # an ordinary statement as the current user
                W.command(wire.COM_QUERY, W.query_body(b"select a from t1"))
                r = yield from W.read_resultset()
                o.probes["query-" + r["kind"]] += 1
                if r["kind"] == "err":
                    return  # killed, or an injected fault
                yield GO
                pr2 = Prover(a["user"], a["how"], order)
                an2 = Answerer(pr2)
                decl = a["declare"]
                if decl == "match":
                    decl = CLIENT_PLUGIN[order[0]] or "mysql_native_password"
                d = an2.initial(decl, h["data"][:20], dn)
                ids = s["ids"]

                def allow2():
                    if an2.verdict is not False:
                        s["ids"] = ids | {pr2.vouched()}

                allow2()
                if "change_user" in a["eager"]:
                    s["ids"].add("alice")
                body = W.change_user_body(a["user"].encode(), d, db=(a.get("db") or "").encode(), charset=255,
                                          plugin=decl.encode())
                W.command(wire.COM_CHANGE_USER, body)
                if a["eager"]:
                    keep = W.seq
                    for what in a["eager"]:
                        send_post(c, W, what, a)
                    W.seq = keep
                    if an2.verdict is False:
                        s["dead"] = True

                def respond2(kind, name, data):
                    if a["eager"]:
                        an2.verdict = False
                        return b"?"
                    r = an2(kind, name, data)
                    allow2()
                    return r

                res = yield from W.finish_auth(respond2)
                o.probes["change-user-" + res["kind"]] += 1
                o.states.add("cu/%s/%s/%s" % ("+".join(an2.path), an2.verdict, res["kind"]))
                if res["kind"] == "ok":
                    if an2.verdict is False:
                        raise Violation("c01/ok-without-proof", "COM_CHANGE_USER OK for %r with %s" % (a["user"], a["how"]))
                    if a["eager"]:
                        yield QUIESCE
                        c.inbuf.clear()
                        return
                    s["ids"] = {pr2.vouched()}
                    continue
                s["dead"] = True
                o.probes["failed-exchange"] += 1
                for what in cl["post"]:
                    yield GO
                    send_post(c, W, what, a)
                    o.probes["post-" + what] += 1
                yield from drain_all(c, W, s, "COM_CHANGE_USER to %r with %s failed" % (a["user"], a["how"]))
                return
            yield GO
            W.command(wire.COM_QUERY, W.query_body(b"select a from t1"))
            r = yield from W.read_resultset()
            o.probes["query-" + r["kind"]] += 1
        return go

    cl_objs = []
    for cl in sc["clients"]:
        cl_objs.append(w.client(script(cl), cl["net"]))

    k = sc.get("killer")
    if k:
        def killer(c):
            for _ in range(k["n"]):
                yield GO
                cid = cids.get(k["target"])
                if cid is not None:
                    w.count("kill_" + k["kind"])
                    t = w.loop.create_task(app.control.kill(cid, KillKind[k["kind"]]))
                    w.keep = t
        w.client(killer, {"weight": 0.3})

    ident = SimIdentity(app, USERS, plugins(app, order, multi=sc.get("multi", (2, False))))
    w.run(std_server(app, identity=ident, **tls_kw(sc)))
    o.nontrivial = o.probes["failed-exchange"] > 0
    return finish(o, w)
