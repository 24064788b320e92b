"""C07: malformed or hostile packets cannot hang, crash or wedge the server."""
import resource

from checks.common import *
from checks.authlib import plugins, SimIdentity
from dst import bootstrap

ID = "C07"
LEVEL = "exploration"
QUICK_RUNS = 4000
THOROUGH_RUNS = 600000
RULE = ("A run is 1-4 attackers, a witness and a newcomer. Attackers send mutated packets (truncated at any byte, bytes flipped, "
        "terminators removed, absurd length-encoded counts, unknown commands and types, wrong sequence numbers, random bytes, "
        "hostile SQL), before authenticating (handshake response, SSL request, TLS hello, auth-switch response) or after, with "
        "deliveries cut anywhere, then go on, disconnect or fall silent. After each well-framed packet the attacker must be "
        "answered and in step (PING) or be disconnected; the witness is served throughout; the newcomer is served afterwards; "
        "every ended connection is unregistered and its socket closed; CPU between two iterations of the event loop and memory "
        "growth are bounded. Non-trivial: at least one packet answered with ERR or a close.")
STATE_RULE = "(packet kind, mutation kinds, reaction)"
ASSUMPTIONS = ["Work is bounded if no two iterations of the event loop are more than %d s of CPU apart for packets of at most 20 kB",
               "SQL whose evaluation by sqlglot's Python executor is itself expensive is a known finding and not generated"]
CPU_BOUND = 8.0
ASSUMPTIONS[0] = ASSUMPTIONS[0] % CPU_BOUND
RSS_BOUND_KB = 700_000

ABSURD = ["fc0000", "fcffff", "fdffffff", "fd000000", "feffffffffffffffff", "fe0000000000000080", "feffffffffffffff7f", "fe0000000001000000",
          "fb", "ff", "fe", "fe00000001000000", "fc", "fafa", "fe0000000000000000", "fdff", "fe00e1f50500000000"]
SQLS = ["select 1", "select * from t where a = 'x'", "set names utf8mb4", "show tables", "use db", "kill 5", "select @@version", "begin",
        "select /*+ set_var(autocommit=1) */ 1", "show variables like 'a%'", "describe t", "select * from information_schema.tables"]
BOMBS = [["select ", "(", 1500, "1", ")"], ["select ", "not ", 3000, "1", ""], ["select ", "- ", 3000, "1", ""], ["select ", "case when 1 then ", 300, "1", " end"],
         ["select ", "if(1,", 600, "1", ")"], ["set autocommit=1", ",autocommit=1", 1000, "", ""], ["", ";", 15000, "", ""], ["", "select 1;", 300, "", ""],
         ["select /*+ set_var(", "a=1 ", 3000, ") */ 1", ""], ["select ", "a.", 4000, "a", ""], ["select 1 ", "union select 1 ", 600, "", ""],
         ["select ", "/*", 5000, "", ""], ["select '", "\\", 9999, "", ""], ["", "with a as (", 300, "select 1", ")"], ["show tables like '", "%_", 2000, "'", ""],
         ["show variables like '", "%", 200, "x'", ""], ["show variables like '", "%_", 25, "x'", ""], ["show databases like '", "%", 60, "q'", ""],
         ["select ", "(select ", 300, "1", ")"], ["use ", "a", 19000, "", ""], ["kill ", "9", 5000, "", ""], ["kill query ", "9", 4200, "", ""],
         ["select ", "9", 15000, "", ""], ["select 1e", "9", 400, "", ""], ["select ", "`a`", 5000, "", ""], ["select ", "{d '", 2500, "", ""],
         ["select ", "0x", 1, "f", ""], ["set names ", "x", 9000, "", ""], ["set time_zone = '", "+", 9000, "'", ""], ["set time_zone='", "\u2603", 10, "'", ""],
         ["select * from ", "(select * from ", 100, "information_schema.tables", ") a"], ["begin", ";begin", 1000, "", ""], ["describe ", "a.", 3000, "b", ""],
         ["select ", "!", 9000, "1", ""], ["select ", "~", 9000, "1", ""], ["explain ", "explain ", 2000, "select 1", ""], ["create table a (", "a int,", 1500, "b int)", ""],
         ["select * from t where ", "a=(select ", 500, "", ""], ["select ", "\0", 3000, "1", ""], ["", "\0", 19000, "", ""], ["", "'", 9999, "", ""], ["", "`", 9999, "", ""],
         ["select @@", "@", 3000, "x", ""], ["set @@session.", "a.", 2000, "b=1", ""], ["select ", "@a:=", 1000, "1", ""], ["show ", "full ", 3000, "columns from t", ""],
         ["select ", "interval ", 2500, "1 day", ""], ["select ", "date_add(", 300, "now()", ", interval 1 day)"], ["call p(", "?,", 5000, "?)", ""],
         ["select 1 limit ", "9", 4000, "", ""], ["select ", "1,", 3000, "1", ""], ["select * from t ", "join t ", 1500, "", ""],
         # a subject with many places for every piece of the pattern to match, and none for the last
         ["select '" + "a" * 80 + "' like '", "%a", 14, "%b'", ""], ["select '" + "ab" * 60 + "' like '", "%_b", 12, "c'", ""],
         ["select table_name from information_schema.tables where '" + "a" * 70 + "' like '", "%a", 14, "b'", ""],
         ["show variables where '" + "a" * 70 + "' like '", "%_a", 14, "_b'", ""], ["select '" + "a" * 2000 + "' like '", "%a", 900, "b'", ""]]

COMMANDS = ["query", "query", "query", "query_attr", "prepare", "execute", "execute", "execute", "execute_attr", "fetch", "long", "close", "reset",
            "initdb", "fields", "change_user", "change_user", "ping", "debug", "resetconn", "unknown", "random", "empty", "quit", "bomb", "bombprep", "bombinit",
            "bombfields"]


def gen_mut(rng):
    k = rng.choice(["trunc", "trunc", "trunc", "flip", "set", "ins", "del", "app", "lenenc", "lenenc", "lenenc", "nonul", "dup"])
    if k == "trunc":
        return [k, rng.random()]
    if k == "flip":
        return [k, rng.random(), 1 << rng.randrange(8)]
    if k == "set":
        return [k, rng.random(), rng.choice([0, 1, 0x7F, 0x80, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, rng.randrange(256)])]
    if k in ("ins", "lenenc"):
        return [k, rng.random(), rng.choice(ABSURD) if k == "lenenc" else rng.randbytes(rng.choice([1, 2, 4, 20])).hex()]
    if k == "del":
        return [k, rng.random(), rng.choice([1, 1, 2, 4, 9])]
    if k == "app":
        return [k, rng.randbytes(rng.choice([1, 4, 30, 300])).hex()]
    return [k, rng.random()]


def mutate(b, muts):
    for m in muts:
        b = bytearray(b)
        n = len(b)
        k = m[0]
        p = int(m[1] * n) if k not in ("app",) and n else 0
        if k == "trunc":
            b = b[:p]
        elif k == "flip" and n:
            b[p] ^= m[2]
        elif k == "set" and n:
            b[p] = m[2]
        elif k == "ins":
            b[p:p] = bytes.fromhex(m[2])
        elif k == "lenenc":
            b[p:p + 1] = bytes.fromhex(m[2])
        elif k == "del":
            del b[p:p + m[2]]
        elif k == "app":
            b += bytes.fromhex(m[1])
        elif k == "nonul":
            b = b[:p] + b[p:].replace(b"\0", b"A")
        elif k == "dup":
            b = b + b[p:]
        b = bytes(b)
    return bytes(b)


def gen_muts(rng):
    return [gen_mut(rng) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))]


def absurd_len(rng):
    return rng.choice(ABSURD + ["fe0000000001000000"] * 3 + ["fe00000080" + "00" * 4] * 2) if rng.random() < 0.6 else "%02x" % rng.choice([0, 0, 1, 2, 3, 7, 8, 9, 64, 250])


def craft(rng, what):
    """Fields of a packet in their order, any of which may lie about what follows, cut at a field"""
    f = []
    if what == "attrs":
        f.append(absurd_len(rng))
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            for _ in range(2):
                f.append(rng.choice(["00", "00", "0161", "0362c3a9", absurd_len(rng), "02c3"]))
    else:
        # a block of parameters
        f.append(absurd_len(rng))
        if what == "query":
            f.append(rng.choice(["01", "01", "00", "02", absurd_len(rng)]))
        n = rng.choice([0, 1, 1, 2, 3, 9])
        f.append("00" * ((n + 7) // 8) if rng.random() < 0.7 else rng.randbytes(rng.choice([0, 1, 2, 30])).hex())
        f.append(rng.choice(["01", "01", "01", "00", "02", "ff"]))
        for _ in range(n):
            f.append(rng.choice(["fd", "03", "08", "05", "0f", "06", "07", "0b", "f6", "ff", "f5", "%02x" % rng.randrange(256)]) + rng.choice(["00", "80", "ff"]))
            f.append(rng.choice(["00", "0161", "02c3", absurd_len(rng)]))
        for _ in range(n):
            f.append(rng.choice([absurd_len(rng), "0161", "00" * 8, "ffffffff", "00", "0107", "04e4070102", "0c01", "02c328"]))
        f.append(rng.choice(["", "", b"select 1".hex(), "00", "c3"]))
    if rng.random() < 0.4:
        f = f[:rng.randint(1, len(f))]
    return "".join(f)


def gen_step(rng, pre):
    if not pre:
        r = rng.random()
        if r < 0.18:
            st = {"kind": rng.choice(["xquery", "xquery", "xexec", "xexec", "xuser"]), "a": rng.randrange(1 << 16), "muts": []}
            st["hex"] = craft(rng, {"xquery": "query", "xexec": "exec", "xuser": "attrs"}[st["kind"]])
            if st["kind"] == "xexec":
                st["flags"] = rng.choice([0, 0, 1, 8, 8, 9, 2, 4, 255])
            return st
        if r < 0.88:
            st = {"kind": rng.choice(COMMANDS), "a": rng.randrange(1 << 16), "muts": gen_muts(rng)}
            if st["kind"] in ("random",):
                st["hex"] = rng.randbytes(rng.choice([1, 2, 5, 20, 300])).hex()
            if st["kind"].startswith("bomb"):
                st["bomb"] = rng.randrange(len(BOMBS))
                if rng.random() < 0.7:
                    st["muts"] = []
            if rng.random() < 0.06:
                st["seq"] = rng.choice([1, 2, 3, 127, 128, 254, 255])
            return st
    # byte level: nothing is in step afterwards
    return gen_raw(rng)


def gen_raw(rng):
    r = rng.random()
    if r < 0.35:
        return {"kind": "raw", "hex": rng.randbytes(rng.choice([1, 2, 3, 4, 5, 8, 40, 400])).hex()}
    if r < 0.7:  # a header that promises more than comes
        n = rng.choice([1, 5, 100, 65536, 0xFFFFFE, 0xFFFFFF])
        return {"kind": "raw", "hex": (struct.pack("<I", n)[:3] + bytes([rng.choice([0, 0, 1, 5])]) + rng.randbytes(rng.choice([0, 1, 4]))).hex()}
    if r < 0.85:  # a long run of empty / tiny packets
        return {"kind": "raw", "hex": ("000000" + rng.choice(["00", "01", "ff"])) * rng.choice([1, 10, 200])}
    return {"kind": "raw", "hex": ("01000000" + rng.choice(["0e", "01", "ff", "1c", "17", "03", "19"])) * rng.choice([1, 3, 30])}


def gen(rng, i, tier):
    if i == 0:
        return {"known": True, "sched": {}, "attacks": [], "tls": False}
    sc = {"sched": gen_sched(rng), "attacks": [], "tls": rng.random() < 0.1,
          "order": rng.choice([["native", "clear", "multi", "nologin", "broken"], ["multi", "native", "clear", "nologin", "broken"],
                               ["clear", "native", "multi", "nologin", "broken"]])}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        pre = rng.random() < 0.35
        at = {"net": gen_net(rng), "caps": gen_caps(rng) | (rng.choice([0, 0, 0, wire.SSL]) if pre else 0), "pre": pre, "steps": [],
              "end": rng.choice(["fin", "fin", "rst", "half", "silent", "quit"]), "when": rng.choice(["login", "login", "any"])}
        if pre:
            at["user"] = rng.choice(["alice", "carol", "erin", "nosuch", "dave", "xplug", "nopw", "badhash", "frank", "", "\u00e9" * 100])
            at["muts"] = gen_muts(rng)
            at["attrs"] = rng.choice([0, 0, 1, 5])
            if rng.random() < 0.2:
                at["tail"] = craft(rng, "attrs")
                at["caps"] |= wire.CONNECT_ATTRS
                at["muts"] = []
            at["charset"] = rng.choice([255, 255, 33, 8, 45, 0, 1, 63, 54, 250, 253])
            at["seq"] = rng.choice([1] * 8 + [0, 2, 255])
            at["switch"] = [{"hex": rng.randbytes(rng.choice([0, 1, 20, 21, 300])).hex(), "muts": gen_muts(rng)} for _ in range(rng.choice([1, 1, 2, 4]))]
            at["first"] = rng.choice(["response", "response", "response", "response", "ssl", "raw", "none", "command", "short"])
            at["rawstep"] = gen_raw(rng)
            at["tlsjunk"] = rng.choice(["", "16030100", rng.randbytes(40).hex(), "1603010200010001fc0303" + rng.randbytes(60).hex(), "00" * 50, "1503010002022f"])
            if sc["tls"] and rng.random() < 0.6:
                at["first"] = "ssl"
        else:
            for _ in range(rng.randint(1, 8)):
                at["steps"].append(gen_step(rng, False))
            if rng.random() < 0.3:
                at["steps"].append(gen_raw(rng))
        sc["attacks"].append(at)
    return sc


def bomb(k):
    a, mid, n, tail, close = BOMBS[k % len(BOMBS)]
    return a + mid * n + tail + close * n


def generic(W, code, payload):
    """Read the answer to a command, following whatever a client would have to follow."""
    def rs():
        p = yield from W.read_packet()
        if p[:1] in (b"\0",):
            wire.parse_ok(p, W.caps)
            return "ok"
        if p[:1] == b"\xff":
            wire.parse_err(p, W.caps)
            return "err"
        r = wire.R(p, "column count")
        n = r.len()
        r.end()
        cols, err = yield from W.read_coldefs(n)
        if err:
            return "rs-err"
        if not W.caps & wire.DEPRECATE_EOF:
            p = yield from W.read_packet()
            if p[:1] == b"\xff":
                return "rs-err"
            t = wire.parse_eof(p, W.caps)
            if t["status"] & wire.ST_CURSOR_EXISTS:
                return "cursor"
        while True:
            p = yield from W.read_packet()
            if p[:1] == b"\xff":
                return "rs-err"
            t = W._term(p, W.caps)
            if t is not None:
                return "rs"

    if code in (wire.COM_QUERY, wire.COM_STMT_EXECUTE):
        return (yield from rs())
    if code == wire.COM_STMT_PREPARE:
        return (yield from W.read_prepare())["kind"]
    if code == wire.COM_FIELD_LIST:
        r = yield from W.read_field_list()
        return "err" if r["err"] else "fields"
    if code == wire.COM_STMT_FETCH:
        while True:
            p = yield from W.read_packet()
            if p[:1] == b"\xff":
                return "err"
            if W._term(p, W.caps) is not None:
                return "fetch"
            if p[:1] != b"\0":
                raise Violation("c07/fetch-row", repr(p[:40]))
    if code == wire.COM_CHANGE_USER:
        n = [0]

        def respond(kind, name, data):
            n[0] += 1
            return b"" if n[0] < 6 else None

        r = yield from W.finish_auth(respond)
        return "auth-" + r["kind"]
    if code == wire.COM_DEBUG:
        p = yield from W.read_packet()
        return "err" if p[:1] == b"\xff" else "ok"
    r = yield from W.read_ok_err()
    known = (wire.COM_INIT_DB, wire.COM_PING, wire.COM_STMT_RESET, wire.COM_RESET_CONNECTION)
    if code not in known and r["kind"] == "ok":
        raise Violation("c07/accepted", "unknown command %r answered with OK" % (code,))
    return r["kind"]


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"schema": {"db": {"t": {"a": "INT", "b\u00e9": "TEXT"}}}})
    rows = [(1, "x"), (2, None), (3, "z" * 300)]
    dog = {"t": bootstrap.real_process_time(), "max": 0.0}

    async def answer(sess, expression, sql, attrs):
        return list(rows), [ResultColumn("a", ColumnType.LONGLONG), ResultColumn("b", ColumnType.VARCHAR)]

    app.answer_fn = answer
    users = {"root": {"plugin": "mysql_native_password"}}
    from checks.authlib import USERS
    users.update(USERS)
    idp = SimIdentity(app, users, plugins(app, sc.get("order") or ["native", "clear", "multi", "nologin", "broken"]))

    def watch():
        t = bootstrap.real_process_time()
        d = t - dog["t"]
        dog["t"] = t
        if d > dog["max"]:
            dog["max"] = d
            if d > CPU_BOUND:
                w.violate("c07/blocked", "the event loop was blocked for more than %.0f s of CPU" % CPU_BOUND)

    w.on_iteration = watch
    rss0 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    order = sc.get("order") or ["native"]

    def sane_login(c, W, caps=wire.BASE_CAPS):
        """root has no password; the default plugin may not be the native one"""
        c.connect()
        h = yield from W.read_handshake()
        if h["kind"] == "err":
            return h
        W.send_packet(W.response41(user=b"root", auth=b"", caps=caps))
        return (yield from W.finish_auth(lambda *a: b""))

    state = {"attackers": 0}

    def attack(at):
        def go(c):
            W = Wire(c)
            W.lax = True
            yield GO
            try:
                if at["pre"]:
                    yield from pre(c, W)
                else:
                    yield from post(c, W)
            except Closed:
                o.probes["closed"] += 1
                o.nontrivial = True
                yield Cond(lambda: c.eof or c.rst)
            finally:
                state["attackers"] += 1
                if not w.tearing:
                    end = at["end"]
                    if end == "silent":
                        c.reading = ch.flip(0.5)
                        w.count("attacker_silent")
                    elif end == "quit" and not c.closed:
                        if c.pipe is not None:
                            c.send_raw(b"\1\0\0\0\1")
                            c.close("fin")
                    elif c.pipe is not None:
                        c.close(end)

        def note(kind, muts, reaction):
            o.states.add("%s %s %s" % (kind, "+".join(m[0] for m in muts), reaction))
            o.probes["reaction-" + reaction] += 1
            if "err" in reaction:
                o.nontrivial = True

        def pre(c, W):
            c.connect()
            h = yield from W.read_handshake()
            if h["kind"] == "err":
                raise Violation("c07/refused", repr(h))
            first = at["first"]
            attrs = {b"k%d" % j: b"v" * (j * 70) for j in range(0 if at.get("tail") is not None else at["attrs"])}
            body = W.response41(user=at["user"].encode(), auth=bytes.fromhex(at["switch"][0]["hex"])[:250], db=b"db" if at["attrs"] % 2 else None,
                                caps=at["caps"] & ~wire.SSL, charset=at["charset"], attrs=attrs)
            if at.get("tail") is not None and W.caps & wire.CONNECT_ATTRS and not attrs:
                body = body[:-1] + bytes.fromhex(at["tail"])
            if first == "none":
                return
            if first == "raw":
                c.send_raw(bytes.fromhex(at["rawstep"]["hex"]))
                w.count("hostile_raw_bytes")
                yield QUIESCE
                note("pre-raw", [], "closed" if c.eof or c.rst else "answer" if c.inbuf else "waits")
                return
            if first == "ssl":
                w.count("hostile_ssl_request")
                W.send_packet(mutate(W.ssl_request(at["caps"], charset=at["charset"]), at["muts"]), seq=at["seq"])
                c.send_raw(bytes.fromhex(at["tlsjunk"]))
                yield QUIESCE
                note("ssl", at["muts"], "closed" if c.eof or c.rst else "answer" if c.inbuf else "waits")
                return
            if first == "command":
                body = b"\x03select 1"
            elif first == "short":
                body = body[:at["charset"] % 40]
            body = mutate(body, at["muts"])
            w.count("hostile_handshake")
            W.send_packet(body, seq=at["seq"])
            k = 0
            while True:
                p = yield from W.read_packet(check_seq=False)
                if p[:1] == b"\xff":
                    note("handshake " + first, at["muts"], "err")
                    return
                if p[:1] == b"\0":
                    note("handshake " + first, at["muts"], "ok")
                    W.seq = 0
                    W.send_packet(b"\x0e")
                    p = yield from W.read_packet(check_seq=False)
                    if p[:1] != b"\0":
                        raise Violation("c07/not-in-step", "PING after a login with an odd handshake response: %r" % p[:60])
                    return
                if p[:1] not in (b"\xfe", b"\x01"):
                    raise Violation("c07/handshake-answer", repr(p[:60]))
                if k >= len(at["switch"]):
                    note("switch", [], "gave-up")
                    return
                s = at["switch"][k]
                k += 1
                w.count("hostile_auth_response")
                W.send_packet(mutate(bytes.fromhex(s["hex"]), s["muts"]))

        def post(c, W):
            r = yield from sane_login(c, W, at["caps"])
            if r["kind"] != "ok":
                raise Violation("c07/login", "a well-formed login was refused next to an attack: %r" % r)
            W.lax = False
            ids = []
            for sql in (b"select * from t", b"select * from t where a in (?, ?, ?)"):
                W.command(wire.COM_STMT_PREPARE, sql)
                r = yield from W.read_prepare()
                expect(r["kind"] == "prep", "c07/prepare", repr(r))
                ids.append(r["id"])
            W.command(wire.COM_STMT_EXECUTE, W.execute_body(ids[0], cursor=True))
            r = yield from W.read_resultset(binary=True, cursor=True)
            for st in at["steps"]:
                yield GO
                if st["kind"] == "raw":
                    w.count("hostile_raw_bytes")
                    c.send_raw(bytes.fromhex(st["hex"]))
                    W.lax = True
                    yield QUIESCE
                    note("raw", [], "closed" if c.eof or c.rst else "answer" if c.inbuf else "waits")
                    return
                payload = mutate(build(W, st, ids), st["muts"])
                if len(payload) > 20000:
                    payload = payload[:20000]
                w.count("hostile_packet")
                for m in st["muts"]:
                    w.count("mutation_" + m[0])
                W.clean("before a hostile packet")
                seq = st.get("seq", 0)
                W.seq = seq
                W.send_packet(payload)
                if seq:
                    W.lax = True
                code = payload[0] if payload else None
                if code == wire.COM_QUIT and not seq:
                    yield Cond(lambda: c.eof or c.rst or len(c.inbuf) >= 4)
                    if not c.inbuf:
                        note("quit", st["muts"], "closed")
                        return
                    r = yield from W.read_ok_err()
                    expect(r["kind"] == "err", "c07/quit", repr(r))
                    return
                if code == wire.COM_STMT_SEND_LONG_DATA and not seq:
                    yield QUIESCE
                    W.clean("after COM_STMT_SEND_LONG_DATA")
                    reaction = "silent"
                elif code == wire.COM_STMT_CLOSE and not seq:
                    yield QUIESCE
                    reaction = "silent"
                    if c.inbuf:
                        r = yield from W.read_ok_err()
                        expect(r["kind"] == "err", "c07/close-answer", repr(r))
                        reaction = "err"
                else:
                    reaction = yield from generic(W, code, payload)
                note("%s %s" % (st["kind"], code if st["kind"] == "random" else ""), st["muts"], reaction)
                if reaction == "auth-err" or reaction == "auth-gave-up":
                    # a refused COM_CHANGE_USER ends the connection
                    yield Cond(lambda: c.eof or c.rst)
                    return
                if seq:
                    W.lax = True
                W.command(wire.COM_PING) if not seq else W.send_packet(b"\x0e", seq=0)
                r = yield from W.read_ok_err()
                if r["kind"] != "ok":
                    raise Violation("c07/not-in-step", "PING after %r: %r" % (payload[:80], r))
                W.lax = False
            yield QUIESCE
            W.clean("after the attack")
        return go

    def build(W, st, ids):
        k, a = st["kind"], st["a"]
        sid = struct.pack("<I", ids[a % 2] if a % 7 else a)
        sql = SQLS[a % len(SQLS)].encode()
        attr = [(b"k%d" % j, wire.T[t], bool(j % 2), v) for j, (t, v) in enumerate(
            [("VAR_STRING", wire.lstr(b"v")), ("LONGLONG", b"\1" * 8), ("DOUBLE", b"\0" * 8), ("TINY", b"\1"), ("DATETIME", b"\x04\xe4\x07\x01\x02"), ("NULL", None)][:a % 7])]
        prm = [(b"", wire.T["VAR_STRING"], False, wire.lstr(b"it's")), (b"", wire.T["LONG"], True, b"\1\2\3\4"), (b"", wire.T["TIME"], False, b"\0")]
        if k == "query":
            return b"\x03" + W.query_body(sql)
        if k == "query_attr":
            return b"\x03" + W.query_body(sql, attr)
        if k == "prepare":
            return b"\x16" + sql + b" ?"
        if k in ("execute", "execute_attr"):
            two = a % 3 != 0
            return b"\x17" + W.execute_body(ids[1] if two else ids[0], prm if two else [], attr if k == "execute_attr" and W.caps & wire.QUERY_ATTRIBUTES else (),
                                            cursor=a % 5 == 0)
        if k == "fetch":
            return b"\x1c" + struct.pack("<II", ids[0], [0, 1, 2, 1000, 0xFFFFFFFF][a % 5])
        if k == "long":
            return b"\x18" + sid + struct.pack("<H", [0, 1, 65535][a % 3]) + b"data" * (a % 50)
        if k == "close":
            return b"\x19" + (sid if a % 3 else struct.pack("<I", 99999))
        if k == "reset":
            return b"\x1a" + sid
        if k == "initdb":
            return b"\x02db"
        if k == "fields":
            return b"\x04t\0" + b"%" * (a % 40)
        if k == "change_user":
            return b"\x11" + W.change_user_body(b"root", b"", b"db", 255, b"mysql_native_password", {b"a": b"b"})
        if k == "xquery":
            return b"\x03" + bytes.fromhex(st["hex"])
        if k == "xexec":
            return b"\x17" + (struct.pack("<I", ids[1]) if a % 9 else sid) + bytes([st["flags"]]) + b"\1\0\0\0" + bytes.fromhex(st["hex"])
        if k == "xuser":
            b = b"\x11" + W.change_user_body(b"root", b"", b"db", 255, b"mysql_native_password", {})
            return (b[:-1] if W.caps & wire.CONNECT_ATTRS else b) + bytes.fromhex(st["hex"])
        if k == "unknown":
            return bytes([a % 256]) + b"abc"
        if k == "random":
            return bytes.fromhex(st["hex"])
        if k == "empty":
            return b""
        if k == "bomb":
            return b"\x03" + W.query_body(bomb(st["bomb"]).encode())
        if k == "bombprep":
            return b"\x16" + bomb(st["bomb"]).encode()
        if k == "bombinit":
            return b"\x02" + bomb(st["bomb"]).encode()
        if k == "bombfields":
            return b"\x04t\0" + ("%_" * (10 + a % 60) + "x").encode()
        return {"ping": b"\x0e", "debug": b"\x0d", "resetconn": b"\x1f", "quit": b"\x01"}[k]

    def witness(c):
        W = Wire(c)
        yield GO
        r = yield from sane_login(c, W)
        expect(r["kind"] == "ok", "c07/witness-login", repr(r))
        n = 0
        while state["attackers"] < len(sc["attacks"]) and n < 60:
            yield GO
            W.command(wire.COM_PING if n % 2 else wire.COM_QUERY, b"" if n % 2 else b"select * from t")
            if n % 2:
                r = yield from W.read_ok_err()
                expect(r["kind"] == "ok", "c07/witness", repr(r))
            else:
                r = yield from W.read_resultset()
                expect(r["kind"] == "rs" and r["nrows"] == 3 and not r["err"], "c07/witness", repr(r))
            n += 1
            o.probes["witness-served"] += 1
        yield Cond(lambda: state["attackers"] >= len(sc["attacks"]))
        yield GO
        W.command(wire.COM_QUERY, b"select * from t")
        r = yield from W.read_resultset()
        expect(r["kind"] == "rs" and r["nrows"] == 3 and not r["err"], "c07/witness", repr(r))

    def newcomer(c):
        yield Cond(lambda: state["attackers"] >= len(sc["attacks"]))
        yield SETTLE
        # whatever ended has been let go
        for a in w.clients:
            if a is c or a.pipe is None:
                continue
            over = a.eof or a.rst or a.pipe.srv_closed or (a.closed and a.reading)
            if over and not a.pipe.srv_closed:
                raise Violation("c07/socket-left", "attacker %d is gone, its socket is still open on the server" % a.idx)
        open_ = sum(1 for a in w.clients if a.pipe is not None and a.pipe.accepted and not a.pipe.srv_closed)
        if len(app.control.live) > open_:
            raise Violation("c07/still-registered", "%d registrations for %d open sockets" % (len(app.control.live), open_))
        yield GO
        W = Wire(c)
        r = yield from sane_login(c, W)
        expect(r["kind"] == "ok", "c07/newcomer-login", repr(r))
        W.command(wire.COM_QUERY, b"select * from t")
        r = yield from W.read_resultset()
        expect(r["kind"] == "rs" and r["nrows"] == 3 and not r["err"], "c07/newcomer", repr(r))
        W.command(wire.COM_STMT_PREPARE, b"select ?")
        r = yield from W.read_prepare()
        expect(r["kind"] == "prep" and r["nparams"] == 1, "c07/newcomer", repr(r))
        o.probes["newcomer-served"] += 1
        W.command(wire.COM_QUIT)
        yield Cond(lambda: c.eof or c.rst)

    if sc.get("known"):
        known_probe(w)
    for at in sc["attacks"]:
        w.client(attack(at), at["net"])
    if not sc.get("known"):
        w.client(witness, {})
        w.client(newcomer, {})
    kw = {"identity": idp}
    if sc.get("tls"):
        kw["ssl"] = server_tls()
    w.run(std_server(app, **kw), cpu_limit=4.0 if sc.get("known") else 30.0)
    if not w.violations:
        watch()
        grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - rss0
        if grown > RSS_BOUND_KB:
            w.violate("c07/memory", "memory grew by %d MB" % (grown // 1024))
    unfinished(w, "c07")
    return finish(o, w)


_TLS = []


def server_tls():
    if not _TLS:
        import os
        import ssl
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dst", "tls")
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(os.path.join(d, "cert.pem"), os.path.join(d, "key.pem"))
        _TLS.append(ctx)
    return _TLS[0]


def known_probe(w):
    """The recorded finding, shown against the real code: a statement of a few bytes the library evaluates itself."""
    def script(c):
        W = Wire(c)
        yield GO
        yield from login(c, W)
        W.command(wire.COM_QUERY, b"select count(*) from " + b", ".join(b"information_schema.columns c%d" % j for j in range(6)))
        yield from W.read_resultset()

    w.known_client = w.client(script, {})


def is_known(fid, violation, sc):
    return fid == "C07-expensive-sql" and bool(sc.get("known")) and violation[0] in ("hang", "c07/blocked", "c07/no-answer")
