"""Shared pieces of the checks: scenario parts, login scripts, standard servers."""
import json
import random
import struct

from dst import wire
from dst.wire import Wire, scramble
from dst.world import GO, RECV, QUIESCE, SETTLE, Cond, Sleep, Closed, Violation, World, SimClient
from dst.app import *  # noqa: F401,F403
from dst.app import App, AppSession, RawSession, RecordingControl, SimIdentity, MysqlServer
from dst.main import Outcome

CAP_DEPR = wire.DEPRECATE_EOF
CAP_QA = wire.QUERY_ATTRIBUTES

OPT_CAPS = [wire.DEPRECATE_EOF, wire.QUERY_ATTRIBUTES, wire.CONNECT_ATTRS, wire.LENENC_AUTH]


def gen_sched(rng, fast=False):
    """A scheduling profile (swarm: most runs use few of the options)."""
    s = {"busy": rng.choice([0.0, 0.05, 0.3, 0.3, 0.6, 0.9])}
    if rng.random() < 0.3:
        s["w"] = {rng.choice(["go", "deliver", "cread", "gate", "fin", "kill"]): rng.choice([0.05, 20.0])}
    if rng.random() < 0.1:
        s["latency"] = rng.choice([0.0, 0.05, 1.0])
    return s


def gen_net(rng, faults=True):
    n = {}
    r = rng.random()
    n["c2s"] = "all" if r < 0.4 else rng.choice(["byte", "small", "rand", "mtu"]) if r < 0.95 else "rand"
    if rng.random() < 0.3:
        n["weight"] = rng.choice([0.01, 0.1, 10.0, 100.0])
    if faults:
        if rng.random() < 0.3:
            n["sndbuf"] = rng.choice([1, 7, 64, 512, 4096])
        if rng.random() < 0.2:
            n["partial"] = rng.choice([1, 3, 17, 1000])
        if rng.random() < 0.2:
            n["read_max"] = rng.choice([1, 5, 100])
    return n


def gen_caps(rng):
    caps = wire.BASE_CAPS
    for c in OPT_CAPS:
        if rng.random() < 0.5:
            caps |= c
    return caps


_TLS = {}


def tls_server():
    """The server's TLS configuration."""
    if "s" not in _TLS:
        import os
        import ssl
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dst", "tls")
        _TLS["s"] = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        _TLS["s"].load_cert_chain(os.path.join(d, "cert.pem"), os.path.join(d, "key.pem"))
    return _TLS["s"]


def gen_tls(rng, sc, clients="clients", p=0.05):
    """Some of the clients switch to TLS."""
    for cl in sc[clients]:
        if rng.random() < p:
            cl["tls"] = sc["tls"] = True
            # asyncio gives a TLS handshake 60 seconds
            if sc["sched"].get("latency", 0.001) > 0.001:
                sc["sched"]["latency"] = 0.0
    return sc


def tls_kw(sc):
    return {"ssl": tls_server()} if sc.get("tls") else {}


def tls_up(c, W, caps, charset=255):
    """Switch to TLS after the greeting; False if that failed."""
    import ssl
    if "c" not in _TLS:
        _TLS["c"] = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        _TLS["c"].check_hostname = False
        _TLS["c"].verify_mode = ssl.CERT_NONE
    b, W.seq = wire.frame(W.ssl_request(caps, charset), W.seq)
    c.send_raw(b)
    c.tls = wire.TLS(c, _TLS["c"])
    c.tls.start()
    yield Cond(lambda: c.tls.up or c.tls.failed or c.eof or c.rst)
    if c.tls.up:
        c.world.count("tls_connections")
    return c.tls.up


def login(c, W, user=b"root", password=None, db=None, caps=wire.BASE_CAPS, charset=255, attrs=None, plugin=b"mysql_native_password", tls=None):
    """Connect and authenticate with mysql_native_password.  -> OK/ERR dict."""
    c.connect()
    h = yield from W.read_handshake()
    if h["kind"] == "err":
        return h
    if db is not None:
        caps |= wire.CONNECT_WITH_DB
    nonce = h["data"][:20]
    if tls and h["caps"] & wire.SSL:
        caps |= wire.SSL
        if not (yield from tls_up(c, W, caps, charset)):
            raise Closed("during the TLS handshake")
    W.send_packet(W.response41(user=user, auth=scramble(password, nonce) if password else b"", db=db, caps=caps,
                               charset=charset, attrs=attrs, plugin=plugin))

    def respond(kind, name, data):
        d = data[:20]
        return scramble(password, d) if password else b""

    return (yield from W.finish_auth(respond))


def std_server(app, server_id=7, cls=None, identity=None, **kw):
    def make():
        app.control = RecordingControl(app, server_id)
        args = dict(session_factory=app.factory(cls), control=app.control)
        if identity is not None:
            args["identity_provider"] = identity
        args.update(kw)
        return MysqlServer(**args)
    return make


def finish(o, w):
    """Copy what a World measured into the outcome, release the world."""
    o.take(w)
    w.teardown()
    return o


def expect(cond, kind, detail=""):
    if not cond:
        raise Violation(kind, detail)


# ------------------------------------------------------------------ text of every character set
_ALPHA = {}


def alphabet(cs):
    """Characters that the character set can represent (codecs chosen by dst.wire, not by the repository)."""
    if cs not in _ALPHA:
        codec = wire.CODECS[cs]
        out = []
        cand = list(range(0x20, 0x7F)) + list(range(0xA0, 0x250)) + list(range(0x384, 0x400)) + list(range(0x400, 0x460))
        cand += list(range(0x5D0, 0x5EB)) + list(range(0x620, 0x650)) + list(range(0xE01, 0xE3B)) + [0x20AC, 0x2018, 0x2019, 0x201C, 0x2026, 0x2122]
        cand += list(range(0x3041, 0x3097)) + list(range(0x4E00, 0x4E60)) + list(range(0xAC00, 0xAC40)) + [0xFF21, 0xFF71]
        if cs in ("utf8mb4", "utf16", "utf16le", "utf32", "gb18030"):
            cand += [0x1F600, 0x1F601, 0x10348, 0x10FFFD]
        for cp in cand:
            ch = chr(cp)
            try:
                if ch.encode(codec).decode(codec) == ch:
                    out.append(ch)
            except UnicodeError:
                pass
        hi = [c for c in out if ord(c) > 0x7E]
        _ALPHA[cs] = ([c for c in out if ord(c) <= 0x7E], hi)
    return _ALPHA[cs]


def text(rng, cs, n, ascii_only=False, p_hi=0.5):
    lo, hi = alphabet(cs)
    if ascii_only or not hi:
        return "".join(rng.choice(lo) for _ in range(n))
    return "".join(rng.choice(hi) if rng.random() < p_hi else rng.choice(lo) for _ in range(n))


def unfinished(w, pid):
    """Clients that never got what they waited for."""
    if w.violations:
        return
    for c in w.clients:
        if not c.done:
            w.violate(pid + "/no-answer", "client %d still waits (%r) when nothing can happen any more; %d unread bytes %r" % (
                c.idx, c.wait, len(c.inbuf), bytes(c.inbuf[:40])))
        elif isinstance(c.error, Closed):
            w.violate(pid + "/closed", "client %d: connection closed early: %s" % (c.idx, c.error))
