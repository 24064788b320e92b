"""C02: a password proof is accepted iff it fits this connection's nonce and secret."""
import hashlib

from checks.authlib import *
from dst.main import Outcome

ID = "C02"
LEVEL = "exploration"
QUICK_RUNS = 20000
THOROUGH_RUNS = 1200000
RULE = ("A run is 1-2 server lifetimes with 1-4 clients each, every client making a login and up to four COM_CHANGE_USER "
        "attempts against generated accounts (random passwords, secondary passwords, password-less, clear-text, no-login), "
        "using valid proofs and 20 kinds of invalid ones (truncated, bit-flipped, replayed from another connection, stale "
        "nonce, pass-the-hash, other account's, ...), over all five plugin orders and the direct, auth-switch and "
        "more-data paths. Non-trivial: an exchange reached a verdict the oracle fixes (must accept / must reject).")
STATE_RULE = "(plugin, path, kind of proof, verdict required, result)"

EXTRA = ["pth", "mac", "replay", "otheruser", "flipat", "prefix", "case", "swapped", "halves", "zerofill", "hash2", "own_stale"]
ALLHOW = ["good"] * 6 + ["old"] * 3 + ["empty"] * 2 + NATIVE_HOWS_BAD + EXTRA + ["good_long", "good_nul"]

PWCH = "abcdefgh XYZ0189!%_'\"\\\u00e9\u00df\u65e5\U0001f600\x7f\t"


def gen_pw(rng):
    n = rng.choice([1, 1, 2, 5, 8, 16, 19, 20, 21, 40, 64, 200])
    return "".join(rng.choice(PWCH) for _ in range(n))


def gen_users(rng):
    us = {}
    cp = {}
    names = ["u%d" % k for k in range(rng.randint(1, 3))]
    for n in names:
        u = {"plugin": rng.choice(["mysql_native_password", "mysql_native_password", None])}
        r = rng.random()
        if r < 0.8:
            u["password"] = gen_pw(rng)
        if rng.random() < 0.4:
            u["old"] = gen_pw(rng)
        elif rng.random() < 0.3:
            u["old_auth_string"] = ""
        if "password" not in u and rng.random() < 0.3:
            u["auth_string"] = ""
        if rng.random() < 0.3:
            u["name"] = n + "_as"
        us[n] = u
    us["clr"] = {"plugin": "sim_clear"}
    cp["clr"] = {gen_pw(rng): "clr_a", gen_pw(rng): "clr_b"}
    if rng.random() < 0.3:
        cp["clr"][""] = "clr_e"
    if rng.random() < 0.2:
        # an identity may be anything but None, which means refused
        cp["clr"][next(iter(cp["clr"]))] = ""
    us["nolog"] = {"plugin": "mysql_no_login", "password": gen_pw(rng)}
    us["multi"] = {"plugin": "sim_multi"}
    return us, cp


def gen_att(rng, users, more):
    user = rng.choice(users)
    a = {"user": user, "how": rng.choice(ALLHOW), "pos": rng.randrange(160), "n": rng.randint(1, 19),
         "declare": rng.choice(["match", "match", "match", "mysql_native_password", "mysql_clear_password", "sim_other"])}
    if user == "clr":
        a["how"] = rng.choice(["c_first", "c_second", "c_empty", "c_prefix", "c_longer", "c_case", "c_noterm", "c_nul",
                               "good", "wrong", "c_space"])
    return a


def gen(rng, i, tier):
    users, cp = gen_users(rng)
    names = list(users) + ["ghost"]
    names += [n for n in names if n.startswith("u")] * 3
    sc = {"users": users, "clear": cp, "order": rng.choice(ORDERS + ORDERS[:1] * 3), "lives": []}
    for _ in range(rng.choice([1, 1, 2])):
        life = {"sched": gen_sched(rng), "clients": [], "app": {"gates": [], "faults": []}}
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            cl = {"net": gen_net(rng), "caps": gen_caps(rng), "att": gen_att(rng, names, False),
                  "change": [gen_att(rng, names, True) for _ in range(rng.choice([0, 0, 1, 2, 4]))]}
            if rng.random() < 0.4:
                cl["att"] = {"user": "u0", "how": "good", "declare": "match"}
            if rng.random() < 0.1:
                cl["caps"] &= ~wire.PLUGIN_AUTH
            life["clients"].append(cl)
        if rng.random() < 0.3:
            life["app"]["gates"] = rng.sample(["get_user", "auth_check", "init", "control_add"], rng.randint(1, 2))
        sc["lives"].append(gen_tls(rng, life))
    return sc


def sha(b):
    return hashlib.sha1(b).digest()


def bx(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class Prover2(Prover):
    def __init__(self, att, order, sc, captured, me):
        super().__init__(att["user"], att["how"], order, None, sc["users"], sc["clear"])
        self.att = att
        self.captured = captured
        self.me = me
        self.first_nonce = None
        self.expect_clear = None

    def native(self, nonce):
        how = self.how
        u = self.users.get(self.user) or {}
        pw = u.get("password") or ""
        old = u.get("old")
        isn = self.kind == "native"
        if self.first_nonce is None:
            self.first_nonce = nonce
        if how.startswith("c_"):
            return scramble(pw + "x", nonce), False
        secret = pw or old
        good = scramble(secret, nonce) if secret else scramble("guess", nonce)
        h2 = sha(sha((pw or "zz").encode()))
        if how == "pth":
            return bx(sha(nonce + h2), h2), False
        if how == "mac":
            return sha(nonce + h2), False
        if how == "hash2":
            return sha((pw or "zz").encode()), False
        if how == "replay":
            for who, n, user, resp in reversed(self.captured):
                if who != self.me and user == self.user and n != nonce:
                    return resp, False
            return scramble(pw or "q", b"\x21" * 20), False
        if how == "own_stale":
            if self.first_nonce != nonce and pw:
                return scramble(pw, self.first_nonce), None  # another nonce of this very connection
            return scramble(pw or "q", b"\x22" * 20), False
        if how == "otheruser":
            for n2, u2 in sorted(self.users.items()):
                if n2 != self.user and u2.get("password") and u2["password"] not in (pw, old):
                    return scramble(u2["password"], nonce), False
            return scramble(pw + "?", nonce), False
        if how == "flipat":
            d = bytearray(good)
            p = self.att.get("pos", 0) % 160
            d[p // 8] ^= 1 << (p % 8)
            return bytes(d), False
        if how == "prefix":
            return good[:self.att.get("n", 5)], False
        if how == "zerofill":
            return good[:self.att.get("n", 5)] + b"\0" * (20 - self.att.get("n", 5)) + b"\0", (
                False if any(good[self.att.get("n", 5):]) else None)
        if how == "halves":
            return good[10:] + good[:10], False
        if how == "swapped":
            return good[::-1], False
        if how == "case":
            p = pw.swapcase()
            if p == pw or p in (pw, old):
                p = pw + "x"
            return scramble(p, nonce), False
        if how in ("good", "good_long", "good_nul") and not pw and old:
            # an account with a secondary password only
            return (good, isn) if how == "good" else (good + b"\x07", None if isn else False)
        if how == "old" and old and not pw:
            return good, isn
        if how == "empty" and not pw and old:
            return b"", None
        d, v = super().native(nonce)
        if v and d and how in ("good", "old") and isn:
            self.captured.append((self.me, nonce, self.user, d))
        return d, v

    def clear(self):
        how = self.how
        tab = self.clear_pw.get(self.user, {})
        pws = list(tab)
        isc = self.kind == "clear"
        first = pws[0] if pws else "none"
        second = pws[1] if len(pws) > 1 else first
        term = b"\0"
        if how in ("c_first", "good"):
            p = first
        elif how == "c_second":
            p = second
        elif how == "c_empty":
            p = ""
        elif how == "c_prefix":
            p = first[:-1]
        elif how == "c_longer":
            p = first + "a"
        elif how == "c_case":
            p = first.swapcase()
        elif how == "c_space":
            p = " " + first
        elif how == "c_noterm":
            self.expect_clear = None
            return (first.encode() or b"x"), None
        elif how == "c_nul":
            # the password ends at its terminator
            p = first
            term = b"\0junk"
            self.expect_clear = p
            self.ident = tab.get(p)
            return p.encode() + term, None
        else:
            p = "nope-" + how
        self.expect_clear = p
        self.ident = tab.get(p)
        return p.encode() + term, bool(isc and p in tab)

    def vouched(self):
        if self.kind == "clear":
            return getattr(self, "ident", None)
        return super().vouched()


def run(sc, ch, trace=False):
    o = Outcome()
    nonces = {}  # nonce -> where it was issued
    for li, life in enumerate(sc["lives"]):
        if o.violations:
            break
        if li:
            from dst.world import seed_world
            seed_world("%s-life%d" % (sc["rseed"], li))
        one_life(sc, li, life, ch, trace, o, nonces)
    o.nontrivial = o.probes["must-accept"] + o.probes["must-reject"] > 0
    return o


def one_life(sc, li, life, ch, trace, o, nonces):
    w = World(ch, life.get("sched"), trace)
    app = App(w, dict(life["app"], default={"kind": "rows", "cols": [{"name": "a", "type": None}], "rows": [[1]]}))
    order = sc["order"]
    captured = []

    def issued(n, where):
        if len(n) != 20:
            raise Violation("c02/nonce-length", "%r has %d bytes" % (n, len(n)))
        if 0 in n:
            raise Violation("c02/nonce-nul", "%r contains NUL" % n)
        if n in nonces and nonces[n] != where:
            raise Violation("c02/nonce-reused", "%r issued for %r and for %r" % (n, nonces[n], where))
        nonces[n] = where

    class Ans(Answerer):
        def __init__(self, p, where):
            super().__init__(p)
            self.where = where

        def __call__(self, kind, name, data):
            k = len(self.nonces)
            d = super().__call__(kind, name, data)
            for n in self.nonces[k:]:
                issued(n, self.where + (len(nonces),))
            return d

    def judge(an, pr, res, where):
        """The verdict of the last answer decides."""
        v = an.verdict
        o.states.add("%s/%s/%s/%s/%s" % (pr.kind, "+".join(an.path), pr.how, v, res["kind"]))
        o.probes["path:" + "+".join(an.path)] += 1
        if v is True:
            o.probes["must-accept"] += 1
            if res["kind"] != "ok":
                raise Violation("c02/valid-proof-rejected", "%s: %r with %s via %s: %r" % (where, pr.user, pr.how, an.path, res))
        elif v is False:
            o.probes["must-reject"] += 1
            if res["kind"] == "ok":
                raise Violation("c02/invalid-proof-accepted", "%s: %r with %s via %s" % (where, pr.user, pr.how, an.path))
        if res["kind"] == "ok" and pr.kind in ("nologin",):
            raise Violation("c02/nologin-accepted", where)

    def script(ci, cl):
        def go(c):
            W = Wire(c)
            yield GO
            c.connect()
            h = yield from W.read_handshake()
            if h["kind"] == "err":
                raise Violation("c02/refused", repr(h))
            default_native = h["plugin"] == "mysql_native_password"
            if default_native:
                if len(h["data"]) != 21 or h["data"][20] != 0 or h["alen"] not in (21,):
                    raise Violation("c02/handshake-nonce", "auth data %r (announced length %d)" % (h["data"], h["alen"]))
                issued(h["data"][:20], (li, ci, 0))
            expected_user = None
            first = True
            caps = cl["caps"]
            for ai, a in enumerate([cl["att"]] + cl["change"]):
                if not first:
                    yield GO
                pr = Prover2(a, order, sc, captured, (li, ci))
                pr.first_nonce = h["data"][:20]
                an = Ans(pr, (li, ci, ai, "x"))
                declared = a["declare"]
                if declared == "match":
                    declared = CLIENT_PLUGIN[order[0]] or "mysql_native_password"
                if not cl["caps"] & wire.PLUGIN_AUTH:
                    declared = "mysql_native_password"
                d = an.initial(declared, h["data"][:20], default_native)
                if len(d) > 250:
                    # too long for a one-byte length: answer the switch with it instead
                    d, an.verdict = b"", None
                if first and cl.get("tls") and h["caps"] & wire.SSL:
                    caps |= wire.SSL
                    if not (yield from tls_up(c, W, caps)):
                        raise Closed("during the TLS handshake")
                if first:
                    W.send_packet(W.response41(user=a["user"].encode(), auth=d, caps=caps, plugin=declared.encode()))
                else:
                    if not cl["caps"] & wire.PLUGIN_AUTH and an.verdict:
                        an.verdict = None
                    W.command(wire.COM_CHANGE_USER, W.change_user_body(a["user"].encode(), d, charset=255, plugin=declared.encode()))
                ncalls = len(clear_plugin.calls)
                res = yield from W.finish_auth(an)
                where = "client %d, %s" % (ci, "login" if first else "COM_CHANGE_USER %d" % ai)
                judge(an, pr, res, where)
                mine = [x for x in clear_plugin.calls[ncalls:] if x[0] == a["user"]]
                if pr.kind == "clear" and pr.expect_clear is not None and res["kind"] == "ok":
                    if (a["user"], pr.expect_clear) not in clear_plugin.calls:
                        raise Violation("c02/clear-password-altered", "sent %r, checked %r" % (pr.expect_clear, mine[-3:]))
                if res["kind"] != "ok":
                    return
                if an.verdict is True:
                    expected_user = pr.vouched()
                else:
                    expected_user = None
                yield GO
                n = len(app.log)
                W.command(wire.COM_QUERY, W.query_body(b"select a from t1 /* %d-%d-%d */" % (li, ci, ai)))
                r = yield from W.read_resultset()
                if r["kind"] != "rs":
                    raise Violation("c02/no-service", "statement after successful %s: %r" % (where, r))
                seen = [e for e in app.log[n:] if e[1] == "query" and ("/* %d-%d-%d */" % (li, ci, ai)) in e[2]]
                if len(seen) != 1:
                    raise Violation("c02/no-service", "statement after successful %s not served" % where)
                o.probes["served"] += 1
                if expected_user is not None and seen[0][4] != expected_user:
                    raise Violation("c02/wrong-identity", "%s: session user %r, vouched %r" % (where, seen[0][4], expected_user))
                W.command(wire.COM_QUERY, W.query_body(b"select current_user()"))
                r = yield from W.read_resultset()
                got = r["rows"][0][0] if r["kind"] == "rs" and r["rows"] else None
                if expected_user is not None and got != expected_user.encode():
                    raise Violation("c02/wrong-identity", "%s: CURRENT_USER() %r, vouched %r" % (where, got, expected_user))
                first = False
        return go

    for ci, cl in enumerate(life["clients"]):
        w.client(script(ci, cl), cl["net"])
    ps = plugins(app, order, sc["clear"])
    clear_plugin = ps[order.index("clear")]
    ident = SimIdentity(app, sc["users"], ps)
    w.run(std_server(app, identity=ident, **tls_kw(life)))
    for c in w.clients:
        if isinstance(c.error, Closed) and not w.violations:
            w.violate("c02/no-answer", "client %d: connection closed without a verdict" % c.idx)
    finish(o, w)
