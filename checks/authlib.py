"""Users, plugins and login attempts shared by C01, C02, C10 and C07."""
from checks.common import *
from mysql_mimic.auth import AuthPlugin, Success, Forbidden

USERS = {
    "alice": {"plugin": "mysql_native_password", "password": "alice-pw"},
    "bob": {"plugin": "mysql_native_password", "password": "b\u00f6b", "old": "old-bob"},
    "nopw": {"plugin": "mysql_native_password"},
    "carol": {"plugin": "sim_clear"},
    "dave": {"plugin": "mysql_no_login", "password": "dave-pw"},
    "erin": {"plugin": "sim_multi"},
    "frank": {"plugin": "no_such_plugin", "password": "frank-pw"},
    "gail": {"plugin": None, "password": "gail-pw"},
    "henk": {"plugin": "mysql_native_password", "password": "henk-pw", "name": "henk_canonical"},
    "badhash": {"plugin": "mysql_native_password", "auth_string": "zz-not-hex"},
    "iris": {"plugin": "mysql_native_password", "password": "iris-pw", "old_auth_string": ""},
    "blank": {"plugin": "mysql_native_password", "auth_string": "", "old_auth_string": ""},
    "xplug": {"plugin": "sim_broken", "password": "x"},
    "nullid": {"plugin": "sim_clear"},
}
CLEAR_PW = {"carol": {"s3cret": "carol_mapped", "p\u00e4ss": "carol_u", "": "carol_empty"}, "nullid": {}}


class SimClear(AbstractClearPasswordAuthPlugin):
    name = "sim_clear"

    def __init__(self, app, table=None):
        self.app = app
        self.calls = []
        self.table = CLEAR_PW if table is None else table

    async def check(self, username, password):
        self.calls.append((username, password))
        await self.app.enter(None, "auth_check")
        return self.table.get(username, {}).get(password)


class SimMulti(AuthPlugin):
    """A few questions, then a verdict; any client plugin."""

    name = "sim_multi"
    client_plugin_name = None

    def __init__(self, app, rounds=2, late=False):
        self.app = app
        self.rounds = rounds
        self.late = late  # the wrong answer is only held against the client at the end

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"0" * 20 + b"\0"
        right = True
        for i in range(1, self.rounds + 1):
            info = yield b"q%d/%d" % (i, self.rounds)
            if i == 1:
                await self.app.enter(None, "auth_check")
            right = right and info.data == b"a%d" % i
            if not right and not self.late:
                yield Forbidden("no a%d" % i)
                return
        if right:
            yield Success("erin_vouched")
        else:
            yield Forbidden()


class SimBroken(AuthPlugin):
    name = "sim_broken"
    client_plugin_name = None

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"0" * 20 + b"\0"
        raise RuntimeError("plugin failure")
        yield  # pylint: disable=unreachable


def plugins(app, order, clear_pw=None, multi=(2, False)):
    made = {
        "native": NativePasswordAuthPlugin(),
        "nologin": NoLoginAuthPlugin(),
        "clear": SimClear(app, clear_pw),
        "multi": SimMulti(app, *multi),
        "broken": SimBroken(),
    }
    return [made[n] for n in order]


ORDERS = [
    ["native", "nologin", "clear", "multi", "broken"],
    ["native", "clear", "multi", "nologin", "broken"],
    ["clear", "native", "multi", "nologin", "broken"],
    ["nologin", "native", "clear", "multi", "broken"],
    ["multi", "native", "clear", "nologin", "broken"],
]

CLIENT_PLUGIN = {"native": "mysql_native_password", "clear": "mysql_clear_password", "nologin": None,
                 "multi": None, "broken": None}


def user_plugin(user, order, users=USERS):
    """The plugin that decides for this user (None: unknown user)."""
    u = users.get(user)
    if u is None:
        return None
    m = {"mysql_native_password": "native", "mysql_no_login": "nologin", "sim_clear": "clear",
         "sim_multi": "multi", "sim_broken": "broken"}
    p = m.get(u["plugin"])
    if p in order:
        return p
    return order[0]


class Prover:
    """A client-side account of what was proved on this connection.

    `how` selects what the client sends; `valid` ends up True only if a correct
    proof for `user` was sent in answer to the challenge of this exchange.
    """

    def __init__(self, user, how, order, foreign=None, users=USERS, clear_pw=CLEAR_PW):
        self.users = users
        self.clear_pw = clear_pw
        self.user = user
        self.how = how
        self.order = order
        self.kind = user_plugin(user, order, users)
        self.foreign = foreign or b"\x11" * 20
        self.sent = []  # (data, valid-or-None)
        self.answers = 0
        self.identity = None

    def passwords(self):
        u = self.users.get(self.user) or {}
        return [p for p in (u.get("password"), u.get("old")) if p]

    def native(self, nonce):
        """-> (response, verdict) verdict: True must accept, False must reject, None either"""
        u = self.users.get(self.user) or {}
        pw = u.get("password") or ""
        old = u.get("old")
        how = self.how
        isn = self.kind == "native"
        has = bool(u.get("password") or u.get("auth_string"))
        if how in ("good", "good_long", "good_nul"):
            d = scramble(pw, nonce)
            if how == "good_long" and d:
                return d + b"\x07\x08", (None if isn else False)
            if how == "good_nul" and d:
                return d + b"\0", (None if isn else False)
            if not d:
                return b"", isn and not has
            return d, isn
        if how == "old":
            if not old:
                return scramble("guess", nonce), False
            return scramble(old, nonce), isn
        if how == "empty":
            return b"", isn and not has
        if how == "wrong":
            return scramble(pw + "x", nonce), False
        if how == "short":
            return scramble(pw or "q", nonce)[:19], False
        if how == "short1":
            return scramble(pw or "q", nonce)[:1], False
        if how == "flip":
            d = bytearray(scramble(pw or "q", nonce))
            d[7] ^= 1
            return bytes(d), False
        if how == "foreign":
            return self.foreign, False
        if how == "stale":
            n2 = bytes((b + 1) % 128 or 1 for b in nonce)
            return scramble(pw or "q", n2), False
        if how == "zeros":
            return b"\0" * 20, False
        if how == "nonce":
            return nonce, False
        if how == "hash":
            import hashlib
            return hashlib.sha1(hashlib.sha1((pw or "").encode()).digest()).digest(), False
        if how == "clear":
            return (pw or "x").encode() + b"\0", False
        if how == "junk":
            return b"\x03select 1 from t", False
        raise ValueError(how)

    def clear(self):
        how = self.how
        table = self.clear_pw.get(self.user, {})
        isc = self.kind == "clear"
        if how in ("good", "good_long", "good_nul"):
            d = b"s3cret\0"
            return d, isc and "s3cret" in table
        if how == "old":
            return "p\u00e4ss".encode() + b"\0", isc and "p\u00e4ss" in table
        if how == "empty":
            return b"\0", isc and "" in table
        if how == "short":
            return b"s3cre\0", False
        if how == "short1":
            return b"s\0", False
        if how == "junk":
            return b"S3CRET\0", False
        if how == "wrong":
            return b"s3cretx\0", False
        return b"nope-" + how.encode() + b"\0", False

    def vouched(self):
        if self.kind == "native":
            return (self.users[self.user].get("name") or self.user)
        if self.kind == "clear":
            return {"good": "carol_mapped", "good_long": "carol_mapped", "good_nul": "carol_mapped", "old": "carol_u",
                    "empty": "carol_empty"}.get(self.how)
        if self.kind == "multi":
            return "erin_vouched"
        return None


NATIVE_HOWS_BAD = ["wrong", "short", "short1", "flip", "foreign", "stale", "zeros", "nonce", "hash", "clear", "junk"]
HOWS = ["good", "old", "empty"] + NATIVE_HOWS_BAD


class Answerer:
    """Answers challenges for one exchange and keeps the verdict of the last answer."""

    def __init__(self, prover):
        self.p = prover
        self.verdict = False
        self.path = []
        self.nonces = []

    def initial(self, declared, nonce, default_is_native):
        """Response sent with the login/change-user packet itself."""
        p = self.p
        if declared == "mysql_clear_password":
            d, v = p.clear()
        else:
            d, v = p.native(nonce)
            if not default_is_native:
                # the data in this handshake is not a challenge
                v = False if (p.kind == "native" and (d or p.users.get(p.user, {}).get("password"))) else v
                if p.kind == "native":
                    v = None if v else v
        if p.kind == "native" and declared == "mysql_clear_password":
            v = False
        if p.kind == "clear" and declared != "mysql_clear_password":
            v = False
        if p.kind in ("multi", "nologin", "broken", None):
            v = False
        self.verdict = v
        self.path.append("initial")
        return d

    def __call__(self, kind, name, data):
        p = self.p
        if kind == "switch":
            self.path.append("switch:" + name)
            if name == "mysql_clear_password":
                d, self.verdict = p.clear()
                return d
            if name == "mysql_native_password":
                if len(data) != 21 or data[20] != 0:
                    raise Violation("auth/switch-nonce", "auth switch data %r is not a 20-byte nonce and NUL" % data)
                n = data[:20]
                self.nonces.append(n)
                d, self.verdict = p.native(n)
                return d
            self.verdict = False
            return b"?"
        self.path.append("more")
        if p.kind == "multi" and data[:1] == b"q":
            k, n = (int(x) for x in data[1:].split(b"/"))
            self.verdict = k == n and p.how == "good"
            # the place of the wrong answer depends on what the client got wrong
            bad = {"good": 0, "old": n}.get(p.how, 1 + HOWS.index(p.how) % n if p.how in HOWS else 1)
            return b"zz" if k == bad else b"a%d" % k
        n = data[:20]
        if p.kind == "native":
            if len(data) != 21 or data[20] != 0:
                raise Violation("auth/more-nonce", "challenge %r is not a 20-byte nonce and NUL" % data)
            self.nonces.append(n)
        d, self.verdict = p.native(n)
        return d


def handshake_exchange(c, W, att, order, hook=None):
    """Connect and make the login attempt `att` -> (result dict, Answerer)."""
    c.connect()
    h = yield from W.read_handshake()
    if h["kind"] == "err":
        return h, None
    pr = Prover(att["user"], att["how"], order, bytes.fromhex(att["foreign"]) if att.get("foreign") else None)
    an = Answerer(pr)
    default_native = h["plugin"] == "mysql_native_password" or (h["plugin"] is None and order[0] == "native")
    declared = att.get("declare")
    if declared == "match":
        declared = CLIENT_PLUGIN[order[0]] or "mysql_native_password"
    caps = att.get("caps", wire.BASE_CAPS)
    if not caps & wire.PLUGIN_AUTH:
        declared = None
    d = an.initial(declared or "mysql_native_password", h["data"][:20], default_native)
    if default_native:
        an.nonces.append(h["data"][:20])
    payload = W.response41(user=att["user"].encode(), auth=d, caps=caps, db=att["db"].encode() if att.get("db") else None,
                           plugin=(declared or "").encode(), charset=255)
    if hook:
        hook(payload)
    W.send_packet(payload)
    r = yield from W.finish_auth(an)
    return r, an


def change_user_exchange(c, W, att, order):
    h = W.hs
    pr = Prover(att["user"], att["how"], order, bytes.fromhex(att["foreign"]) if att.get("foreign") else None)
    an = Answerer(pr)
    default_native = h["plugin"] == "mysql_native_password" or (h["plugin"] is None and order[0] == "native")
    declared = att.get("declare") or "mysql_native_password"
    if declared == "match":
        declared = CLIENT_PLUGIN[order[0]] or "mysql_native_password"
    d = an.initial(declared, h["data"][:20], default_native)
    W.command(wire.COM_CHANGE_USER, W.change_user_body(att["user"].encode(), d, db=(att.get("db") or "").encode(),
                                                       charset=255, plugin=declared.encode()))
    r = yield from W.finish_auth(an)
    return r, an


def gen_attempt(rng, good=0.5):
    user = rng.choice(["alice", "alice", "bob", "nopw", "carol", "dave", "erin", "frank", "gail", "henk", "badhash",
                       "xplug", "ghost", "nullid", "", "iris", "blank"])
    if rng.random() < good:
        how = "good"
    else:
        how = rng.choice(HOWS)
    a = {"user": user, "how": how, "declare": rng.choice(["match", "match", "mysql_native_password",
                                                          "mysql_clear_password", "sim_other"])}
    if rng.random() < 0.3:
        a["db"] = rng.choice(["db1", "db2"])
    return a
