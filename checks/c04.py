"""C04: packet framing is lossless for every payload size and every stream segmentation."""
import os
import random
import ssl
import zlib

from checks.common import *
from dst.world import seed_world
from mysql_mimic.stream import MysqlStream

ID = "C04"
LEVEL = "exploration"
QUICK_RUNS = 1500
THOROUGH_RUNS = 120000
RULE = ("A run plays one generated conversation (optionally over TLS, with the ClientHello in the same delivery as the SSL "
        "request) against the real server once in lockstep with whole-packet deliveries, then again under 2-4 other "
        "segmentations: byte at a time, cuts inside and around every packet header, random cuts, several packets per read, "
        "everything pipelined, short writes, tiny send buffers. The plaintext bytes the client receives, the statements the "
        "application receives and the way the connection ends must be identical. Other runs send and receive payloads of 0, "
        "1 and k*(2^24-1)+d bytes (d = -2..2, k = 0..2) through COM_QUERY, parameters, text and binary rows, and through the "
        "stream object alone. Non-trivial: at least two segmentations that delivered different chunks, or a multi-packet payload.")
STATE_RULE = "(kind, segmentation mode, pipelining, TLS, size class)"

MAXP = wire.MAXP
HERE = os.path.dirname(os.path.abspath(wire.__file__))
_ctx = {}


def server_ctx():
    if "s" not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(os.path.join(HERE, "tls", "cert.pem"), os.path.join(HERE, "tls", "key.pem"))
        _ctx["s"] = c
    return _ctx["s"]


def client_ctx(v12=False):
    k = "c12" if v12 else "c"
    if k not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if v12:
            c.maximum_version = ssl.TLSVersion.TLSv1_2
        _ctx[k] = c
    return _ctx[k]


# ------------------------------------------------------------------ generation
def gen_seg(rng):
    s = {"mode": rng.choice(["all", "byte", "small", "rand", "mtu", "edges", "edges", "edges"]),
         "pipe": rng.choice([0, 0, 1, 1, 2]), "net": {}, "busy": rng.choice([0.0, 0.1, 0.5, 0.9])}
    s["pat"] = [rng.choice([0, 1, 2, 3, 4, 5, -1]) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.4:
        s["net"]["sndbuf"] = rng.choice([1, 7, 100, 4096])
    if rng.random() < 0.3:
        s["net"]["partial"] = rng.choice([1, 3, 50])
    if rng.random() < 0.3:
        s["net"]["read_max"] = rng.choice([1, 3, 4, 5, 100])
    if rng.random() < 0.15:
        s["net"]["slow_until"] = 1 << 30
    return s


def size(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 10, 100, 249, 250, 251, 252, 255, 256, 257, 1000, 4096, 8000])


def gen_op(rng, stmts):
    r = rng.random()
    if r < 0.35:
        n = size(rng)
        rows = [size(rng) for _ in range(rng.choice([0, 1, 2, 5, 20]))]
        if rng.random() < 0.1:
            rows = [rng.choice([32760, 32768, 33000, 65535, 65536, 66000])]
        return {"op": "query", "pad": n, "rows": rows, "gate": rng.random() < 0.1}
    if r < 0.45:
        return {"op": "ping"}
    if r < 0.52:
        return {"op": "initdb", "n": size(rng)}
    if r < 0.6:
        return {"op": "empty"}
    if r < 0.66:
        return {"op": "unknown"}
    if r < 0.75:
        return {"op": "prepare", "pad": size(rng)}
    if r < 0.88:
        return {"op": "execute", "rows": [size(rng) for _ in range(rng.choice([0, 1, 3]))], "param": size(rng), "cursor": rng.random() < 0.3}
    if r < 0.92:
        return {"op": "long", "n": size(rng)}
    if r < 0.95:
        return {"op": "fetch", "n": rng.choice([1, 2, 100])}
    if r < 0.97:
        return {"op": "change_user"}
    return {"op": "badseq"}


_BLOCK = "".join(random.Random(1).choices("abcdefghijklmnopqrstuvwxyz", k=65521))


def filler(n):
    """Text in which a moved or repeated piece shows"""
    return (_BLOCK * (n // len(_BLOCK) + 1))[:n]


def gen_big(rng):
    k = rng.choice([0, 1, 1, 1, 2]) if rng.random() < 0.9 else rng.choice([3, 4])
    d = rng.choice([-2, -1, 0, 0, 0, 1, 2])
    return max(1, k * MAXP + d) if k else rng.choice([1, 2, 300, 70000])


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.02:
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"dir": rng.choice(["up", "down", "down_bin", "long"]), "n": gen_big(rng)})
        return {"kind": "big", "ops": ops, "net": {"c2s": rng.choice(["all", "big", "big"])},
                "cut": rng.choice([0, 1, 2, 3, 4, 5]), "sndbuf": rng.choice([0, 0, 1 << 16, 1 << 20]), "sched": {"busy": 0.2},
                "tls": rng.random() < 0.15}
    if r < 0.20:
        n = rng.randint(1, 12)
        echo = []
        for _ in range(n):
            z = rng.choice([0, 0, 1, 2, 255, 256, 5000, 32764, 32765, 32768, 40000])
            if rng.random() < 0.008:
                z = rng.choice([MAXP, MAXP - 1, MAXP + 1, 2 * MAXP])
            echo.append({"n": z, "drain": rng.random() < 0.5, "reset": rng.random() < 0.4})
        return {"kind": "echo", "echo": echo, "seg": gen_seg(rng), "burst": rng.random() < 0.5, "sched": gen_sched(rng)}
    tls = rng.random() < 0.3
    sc = {"kind": "conv", "tls": tls, "v12": rng.random() < 0.3, "caps": [c for c in OPT_CAPS if rng.random() < 0.5],
          "ops": [gen_op(rng, None) for _ in range(rng.randint(2, 14))], "quit": rng.random() < 0.6,
          "tail": rng.choice([0, 0, 0, 1, 3, 4, 7]), "switch": rng.random() < 0.2,
          "segs": [gen_seg(rng) for _ in range(rng.randint(2, 4))]}
    if tls:
        for s in sc["segs"]:
            s["net"].pop("slow_until", None)
    return sc


# ------------------------------------------------------------------ running
class BlobApp(App):
    """Row sizes come from the statement itself: /*12,5,7*/ """

    async def answer_raw(self, sess, expression, sql, attrs):
        i = sql.find("/*")
        j = sql.find("*/", i)
        spec = sql[i + 2:j]
        if "G" in spec:
            spec = spec.replace("G", "")
            await self.world.gate("query", sess.cid)
        if spec == "none":
            return None
        if spec.startswith("len"):
            h = str(zlib.crc32(sql.encode()))
            return [(str(len(sql)), h)], ["n", "crc"]
        sizes = [int(x) for x in spec.split(",") if x]
        rows = [(bytes([65 + k % 26]) * n if n < 1000000 else filler(n).encode(),) for k, n in enumerate(sizes)]
        return rows, [ResultColumn("v", ColumnType.BLOB)]


class EchoServer:
    def __init__(self, world, sc):
        self.world = world
        self.sc = sc
        self.got = []
        self.error = None

    async def start_server(self, sock, port):
        import asyncio
        await asyncio.start_server(self.client, sock=sock)

    async def client(self, reader, writer):
        try:
            st = MysqlStream(reader=reader, writer=writer)
            for e in self.sc["echo"]:
                if e["reset"]:
                    st.reset_seq()
                data = await st.read()
                self.got.append(data)
                await st.write(data, drain=e["drain"])
            await st.drain()
        except Exception as e:  # noqa: BLE001
            self.error = repr(e)
        finally:
            writer.close()


def body(n, k=0):
    return bytes((k + j * 7) % 251 for j in range(min(n, 251))) * (n // 251 + 1)


def run_echo(sc, ch, trace, o):
    w = World(ch, sc["sched"], trace)
    srv = EchoServer(w, sc)
    want = [body(e["n"], k)[:e["n"]] for k, e in enumerate(sc["echo"])]

    def script(c):
        W = Wire(c)
        yield GO
        c.connect()
        out = 0
        frames = []
        seq = 0
        rseq = 0
        # the server's counter is shared by both directions
        marks = []
        for k, e in enumerate(sc["echo"]):
            if e["reset"]:
                seq = 0
            b, seq = wire.frame(want[k], seq)
            marks.append(seq)
            _, seq = wire.frame(want[k], seq)
            frames.append(b)
        if sc["burst"]:
            c.send(b"".join(frames))
        for k, b in enumerate(frames):
            if not sc["burst"]:
                if k and not sc["echo"][k - 1]["drain"]:
                    pass  # its answer may stay buffered
                yield GO
                c.send(b)
        for k in range(len(frames)):
            W.seq = marks[k]
            p = yield from W.read_packet()
            if p != want[k]:
                raise Violation("c04/payload", "payload %d of %d bytes came back as %d bytes" % (k, len(want[k]), len(p)))
        o.probes["echoed"] += len(frames)
        yield QUIESCE
        W.clean("after all payloads")

    seg = sc["seg"]
    cfg = dict(seg["net"])
    frames_all = [wire.frame(x, 0)[0] for x in want]
    cfg["c2s"] = edges(frames_all, seg["pat"]) if seg["mode"] == "edges" else seg["mode"]
    if any(e["n"] > 100000 for e in sc["echo"]):
        cfg = {"c2s": "big"}
    w.client(script, cfg)
    w.run(lambda: srv)
    if not w.violations:
        c = w.clients[0]
        if srv.error:
            w.violate("c04/stream-error", srv.error)
        elif isinstance(c.error, Closed) or not c.done:
            w.violate("c04/incomplete", "echo ended early: %r, waiting for %r" % (c.error, c.wait))
        elif srv.got != want:
            w.violate("c04/payload", "read %r" % [len(x) for x in srv.got])
    for e in sc["echo"]:
        o.states.add("echo %s %d" % (seg["mode"], min(e["n"] // MAXP, 3)) + (" zero" if not e["n"] else ""))
    o.nontrivial = True
    finish(o, w)


def edges(frames, pat):
    """Chunk sizes that cut `pat` bytes into (or before) every packet."""
    pos = 0
    cuts = []
    k = 0
    for f in frames:
        p = pat[k % len(pat)]
        k += 1
        if p and pos + p > 0:
            cuts.append(pos + p)
        pos += len(f)
    cuts = sorted(set(x for x in cuts if x > 0))
    out = []
    last = 0
    for x in cuts:
        out.append(x - last)
        last = x
    return out


def conv_world(sc, ch, trace, o, seg, ref):
    """One playthrough.  ref None: lockstep, parsed strictly; returns the record."""
    seed_world(sc["rseed"])
    sched = {"busy": seg["busy"]} if seg else {"busy": 0.0}
    w = World(ch, sched, trace)
    app = BlobApp(w, {})
    app.answer_fn = app.answer_raw
    rec = {"frames": [], "bounds": [], "plain": bytearray(), "tls_at": None, "end": None}
    caps = wire.BASE_CAPS
    for x in sc["caps"]:
        caps |= x

    def login_bytes(W):
        plugin = b"mysql_clear_password" if sc["switch"] else b"mysql_native_password"
        return W.response41(user=b"root", auth=b"", caps=caps | (wire.SSL if sc["tls"] else 0), plugin=plugin)

    def up(c):
        c.tls = wire.TLS(c, client_ctx(sc["v12"]))
        c.tls.start()

    def reference(c):
        W = Wire(c)
        plain = rec["plain"]
        orig_feed = c.feed

        def sendp(payload, seq=None):
            if seq is not None:
                W.seq = seq
            b, W.seq = wire.frame(payload, W.seq)
            rec["frames"].append(b)
            c.send(b)

        def got():
            rec["bounds"].append(total(c))

        yield GO
        c.connect()
        yield from W.read_handshake()
        if sc["tls"]:
            if not W.hs["caps"] & wire.SSL:
                raise Violation("c04/tls-not-offered", "the server has certificates and doesn't announce CLIENT_SSL")
            b, W.seq = wire.frame(W.ssl_request(caps), W.seq)
            rec["frames"].append(b)
            rec["tls_at"] = 1
            rec["bounds"].append(total(c))
            c.send_raw(b)
            up(c)
            yield Cond(lambda: c.tls.up or c.tls.failed or c.eof or c.rst)
            if not c.tls.up:
                raise Violation("c04/tls", "TLS handshake failed: %s" % c.tls.failed)
        sendp(login_bytes(W))
        while True:
            p = yield from W.read_packet()
            if p[:1] == b"\xfe" or p[:1] == b"\x01":
                got()
                sendp(b"")  # an empty password is an empty packet
                o.probes["empty-auth-packet"] += 1
                continue
            if p[:1] != b"\0":
                raise Violation("c04/login", repr(p[:80]))
            break
        got()
        sid = None
        cols = None
        for k, op in enumerate(sc["ops"]):
            kind = op["op"]
            W.clean("before %r" % op)
            W.seq = 0
            tail = "x" * op.get("pad", 0)
            if kind == "query":
                sql = "select /*%s%s*/ '%s'" % ("G" if op["gate"] else "", ",".join(map(str, op["rows"])), tail)
                sendp(b"\x03" + W.query_body(sql.encode()))
                r = yield from W.read_resultset()
                check_rows(r, op["rows"], False)
            elif kind == "prepare":
                sql = "select /*0*/ ? '%s'" % tail
                sendp(b"\x16" + sql.encode())
                r = yield from W.read_prepare()
                sid = r["id"]
            elif kind == "execute":
                par = [(b"", wire.T["BLOB"], False, wire.lstr(b"p" * op["param"]))]
                # the statement decides the rows; the parameter only has to arrive
                sendp(b"\x17" + W.execute_body(sid if sid is not None else 99, par, cursor=op["cursor"]))
                if op["cursor"] and sid is not None:
                    r = yield from W.read_resultset(binary=True, cursor=True)
                    cols = r.get("cols")
                else:
                    r = yield from W.read_resultset(binary=True)
            elif kind == "long":
                if sid is None:
                    continue
                sendp(b"\x18" + struct.pack("<IH", sid, 0) + b"l" * op["n"])
            elif kind == "fetch":
                if sid is None or cols is None:
                    continue
                sendp(b"\x1c" + struct.pack("<II", sid, op["n"]))
                yield from W.read_fetch(cols)
            elif kind == "ping":
                sendp(b"\x0e")
                yield from W.read_ok_err()
            elif kind == "initdb":
                sendp(b"\x02" + b"d" * op["n"])
                yield from W.read_ok_err()
            elif kind == "unknown":
                sendp(b"\x63abc")
                yield from W.read_ok_err()
            elif kind == "empty":
                sendp(b"")
                p = yield from W.read_packet()
                if p[:1] != b"\xff":
                    raise Violation("c04/empty-command", repr(p[:40]))
                o.probes["empty-command"] += 1
            elif kind == "change_user":
                sendp(b"\x11" + W.change_user_body(b"root", b"", charset=255, plugin=b"mysql_native_password"))
                r = yield from W.finish_auth(lambda *a: None)
                if r["kind"] != "ok":
                    raise Violation("c04/change-user", repr(r))
            elif kind == "badseq":
                if k != len(sc["ops"]) - 1:
                    continue
                b = b"\x01\0\0\x05\x0e"
                rec["frames"].append(b)
                c.send(b)
                # ERR or close; settle to know
                yield QUIESCE
                c.inbuf.clear()
            got()
        yield QUIESCE
        # nothing follows what ends the connection: bytes nobody reads may cost the client the last answers
        ended = bool(sc["ops"]) and sc["ops"][-1]["op"] == "badseq"
        if sc["quit"] and not ended:
            W.seq = 0
            sendp(b"\x01")
            got()
        elif sc["tail"] and not ended:
            rec["frames"].append(b"\x10\0\0\0\x03abcdefghijklmnopqrst"[:sc["tail"]])
            rec["bounds"].append(total(c))
            c.send(rec["frames"][-1])
        c.close("half")
        yield Cond(lambda: c.eof or c.rst)

    def check_rows(r, sizes, binary):
        if r["kind"] != "rs" or r["err"]:
            raise Violation("c04/answer", repr(r)[:300])
        want = [bytes([65 + k % 26]) * n for k, n in enumerate(sizes)]
        if [x[0] for x in r["rows"]] != want:
            raise Violation("c04/payload", "rows of %r bytes arrived as %r" % (sizes, [len(x[0] or b"") for x in r["rows"]]))

    def total(c):
        return c.plain_total

    def track(c):
        # everything the client receives, after TLS
        c.plain_total = 0
        base = c.inbuf

        class Buf(bytearray):
            def __iadd__(self, d):
                c.plain_total += len(d)
                rec["plain"] += d
                return bytearray.__iadd__(self, d)
        c.inbuf = Buf()

    def replayer(c):
        frames, bounds = ref["frames"], ref["bounds"]
        yield GO
        c.connect()
        W = Wire(c)
        yield from W.read_handshake()
        k = 0
        if sc["tls"]:
            c.send_raw(frames[0])
            up(c)
            k = 1
            yield Cond(lambda: c.tls.up or c.tls.failed or c.eof or c.rst)
            if not c.tls.up:
                raise Violation("c04/tls", "TLS handshake failed (%s) under segmentation %r" % (c.tls.failed, seg))
        pipe = seg["pipe"]
        nlogin = k + 1
        while k < len(frames):
            if pipe == 2:  # everything at once, login included
                n = len(frames) - k
            elif pipe == 1 and k >= nlogin + (1 if sc["switch"] else 0):
                n = min(len(frames) - k, 1 + w.ch.pick(6))
            else:
                n = 1
            for b in frames[k:k + n]:
                c.send(b)
            if n > 1:
                o.probes["pipelined-frames"] += n
            k += n
            if pipe != 2:
                bound = bounds[k - 1] if k - 1 < len(bounds) else bounds[-1]
                yield Cond(lambda: c.plain_total >= bound or c.eof or c.rst)
        if sc["tls"]:
            # a TLS server ends the connection as soon as it sees the end of the stream
            yield Cond(lambda: c.plain_total >= len(ref["plain"]) or c.eof or c.rst)
        c.close("half")
        yield Cond(lambda: c.eof or c.rst)

    cfg = {}
    if seg:
        cfg.update(seg["net"])
        if seg["mode"] == "edges":
            cfg["c2s"] = edges(ref["frames"], seg["pat"])
        else:
            cfg["c2s"] = seg["mode"]
    c = w.client(reference if ref is None else replayer, cfg)
    track(c)
    kw = {"ssl": server_ctx()} if sc["tls"] else {}
    w.run(std_server(app, cls=RawSession, **kw))
    rec["end"] = "open" if not (c.eof or c.rst) else "closed"
    rec["sql"] = [e[2] for e in app.log if e[1] == "handle_query"]
    rec["dbs"] = [e[2] for e in app.log if e[1] == "use"]
    if not w.violations:
        if not c.done:
            if ref is None or c.plain_total == len(ref["plain"]):
                w.violate("c04/incomplete", "the server does not end the connection (segmentation %r)" % (seg,))
        elif ref is None and isinstance(c.error, Closed):
            w.violate("c04/closed", str(c.error))
    if not w.violations and ref is not None:
        a, b = bytes(ref["plain"]), bytes(rec["plain"])
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            w.violate("c04/conversation", "segmentation %r: received bytes differ at offset %d of %d/%d: %r, in lockstep %r" % (
                seg, i, len(b), len(a), b[i:i + 40], a[i:i + 40]))
        elif rec["sql"] != ref["sql"] or rec["dbs"] != ref["dbs"]:
            w.violate("c04/statements", "the application received other statements under segmentation %r" % (seg,))
        elif rec["end"] != ref["end"]:
            w.violate("c04/end", "%s, in lockstep %s" % (rec["end"], ref["end"]))
    finish(o, w)
    return rec


def run_big(sc, ch, trace, o):
    w = World(ch, sc["sched"], trace)
    app = BlobApp(w, {})
    app.answer_fn = app.answer_raw

    def script(c):
        W = Wire(c)
        yield GO
        if sc["tls"]:
            c.connect()
            yield from W.read_handshake()
            b, W.seq = wire.frame(W.ssl_request(wire.BASE_CAPS), W.seq)
            c.send_raw(b)
            c.tls = wire.TLS(c, client_ctx())
            c.tls.start()
            yield Cond(lambda: c.tls.up or c.eof)
            W.send_packet(W.response41(caps=wire.BASE_CAPS | wire.SSL))
            yield from W.finish_auth(lambda *a: None)
        else:
            yield from login(c, W)
        if sc["cut"]:
            # cut the first header of the next packet
            c.c2s = Cut(sc["cut"], c.c2s)
        for op in sc["ops"]:
            n = op["n"]
            o.states.add("big %s %d%+d" % (op["dir"], round(n / MAXP), n - round(n / MAXP) * MAXP if n > 100000 else 0))
            if op["dir"] == "up":
                head = b"select /*len*/ '"
                sql = head + filler(max(0, n - 1 - len(head) - 1)).encode() + b"'"
                W.command(wire.COM_QUERY, W.query_body(sql))
                r = yield from W.read_resultset()
                if r["kind"] != "rs" or r["rows"] != [[str(len(sql)).encode(), str(zlib.crc32(sql)).encode()]]:
                    raise Violation("c04/big-up", "statement of %d bytes: %r" % (len(sql), r.get("rows", r)))
            elif op["dir"] == "long":
                W.command(wire.COM_STMT_PREPARE, b"select /*len*/ ?")
                r = yield from W.read_prepare()
                data = filler(max(0, n - 7)).encode()
                W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", r["id"], 0) + data)
                W.command(wire.COM_STMT_EXECUTE, W.execute_body(r["id"], [(b"", wire.T["BLOB"], False, b"")], long_idx=(0,)))
                sql = b"select /*len*/ '" + data + b"'"
                r = yield from W.read_resultset(binary=True)
                if r["kind"] != "rs" or r["rows"] != [[str(len(sql)).encode(), str(zlib.crc32(sql)).encode()]]:
                    raise Violation("c04/big-long", "long data of %d bytes: %r" % (len(data), r.get("rows", r)))
            else:
                binary = op["dir"] == "down_bin"
                over = 2 if binary else 0
                for pre in (9, 4, 3, 1):
                    ln = n - over - pre
                    if ln >= 0 and len(wire.lenenc(ln)) == pre:
                        break
                else:
                    ln = max(0, n - over - 1)
                sql = b"select /*%d*/ 1" % ln
                if binary:
                    W.command(wire.COM_STMT_PREPARE, sql)
                    r = yield from W.read_prepare()
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(r["id"]))
                else:
                    W.command(wire.COM_QUERY, W.query_body(sql))
                r = yield from W.read_resultset(binary=binary)
                if r["kind"] != "rs" or len(r["rows"]) != 1 or r["rows"][0][0] != (b"A" * ln if ln < 1000000 else filler(ln).encode()):
                    raise Violation("c04/big-down", "row of %d bytes (payload %d): %r" % (
                        ln, n, [len(x[0] or b"") for x in r["rows"]] if r["kind"] == "rs" else r))
            o.probes["big-payloads"] += 1
            W.command(wire.COM_PING)
            r = yield from W.read_ok_err()
            expect(r["kind"] == "ok", "c04/out-of-step", repr(r))
        yield QUIESCE
        W.clean("at the end")

    cfg = dict(sc["net"])
    if sc["sndbuf"]:
        cfg["sndbuf"] = sc["sndbuf"]
    c = w.client(script, cfg)
    kw = {"ssl": server_ctx()} if sc["tls"] else {}
    w.run(std_server(app, cls=RawSession, **kw))
    if not w.violations and (not c.done or isinstance(c.error, Closed)):
        w.violate("c04/incomplete", "big payload: %r, waiting for %r" % (c.error, c.wait))
    o.nontrivial = True
    finish(o, w)


def Cut(k, rest):
    return [k, 4, 1 << 16] if rest == "all" else [k, 1, 2, 1 << 16, 1 << 20]


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    if sc["kind"] == "echo":
        run_echo(sc, ch, trace, o)
    elif sc["kind"] == "big":
        run_big(sc, ch, trace, o)
    else:
        ref = conv_world(sc, ch, trace, o, None, None)
        if not o.violations:
            for seg in sc["segs"]:
                conv_world(sc, ch, trace, o, seg, ref)
                o.states.add("conv %s pipe%d%s" % (seg["mode"], seg["pipe"], " tls" if sc["tls"] else ""))
                if o.violations:
                    break
            o.nontrivial = len(sc["segs"]) > 1
    return o
