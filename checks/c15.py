"""C15: text crosses the wire in the negotiated character sets without corruption."""
import re

from checks.common import *

ID = "C15"
LEVEL = "exploration"
QUICK_RUNS = 2500
THOROUGH_RUNS = 200000
RULE = ("A run is 1-3 connections, each a history of 6-40 operations over the character sets that have a codec: a login with any "
        "collation id of the set, switches (SET NAMES / SET CHARACTER SET / the variables / COM_CHANGE_USER / prepared SET / a SET "
        "pipelined together with the next command / switches that fail) and, between them, text in every place of the protocol: "
        "statements, literals, comments, database and table names, user names, prepared parameters, long data cut inside a "
        "character, attribute names and values one way; cells of columns of any declared character set, column names, "
        "field lists, error messages the other way. Characters are drawn from the whole repertoire of the set in force (by a table "
        "of codecs and collation ids of this check), with a preference for those whose bytes look like ASCII, NUL or white space. "
        "Non-trivial: non-ASCII text crossed after a switch.")
STATE_RULE = "(client set, results set, kind of operation, kind of the last switch)"
STUB = ["kernel sockets and selector (simulated)", "clock (virtual)", "os.urandom / random (seeded)",
        "MySQL clients (independent strict protocol implementation)", "application session (table-driven, recording)"]
ASSUMPTIONS = ["Characters on which the usual codecs of a set disagree (shift_jis/cp932, big5/cp950, euc_kr/cp949) are not used",
               "Sets without a codec in the repository's table (dec8, swe7, armscii8, keybcs2, geostd8) and 'binary' are outside the property",
               "Strings of NUL-terminated fields are not sent in the utf16/utf32/ucs2 sets, where they cannot be represented"]

CODEC = dict(wire.CODECS, hp8="hp_roman8")
ALSO = {"sjis": ["cp932"], "cp932": [], "big5": ["cp950"], "gbk": ["cp936"], "euckr": ["cp949"], "greek": []}
WIDE = ("utf16", "utf16le", "utf32", "ucs2")
SETS = sorted(CODEC)
NARROW = [s for s in SETS if s not in WIDE]
COLL = {}


def _put(cs, *rs):
    for r in rs:
        for i in (range(r[0], r[1] + 1) if isinstance(r, tuple) else [r]):
            COLL[i] = cs


_put("big5", 1, 84), _put("latin2", 2, 9, 21, 27, 77), _put("dec8", 3, 69), _put("cp850", 4, 80)
_put("latin1", 5, 8, 15, 31, 47, 48, 49, 94), _put("hp8", 6, 72), _put("koi8r", 7, 74), _put("swe7", 10, 82), _put("ascii", 11, 65)
_put("ujis", 12, 91), _put("sjis", 13, 88), _put("cp1251", 14, 23, 50, 51, 52), _put("hebrew", 16, 71), _put("tis620", 18, 89)
_put("euckr", 19, 85), _put("latin7", 20, 41, 42, 79), _put("koi8u", 22, 75), _put("gb2312", 24, 86), _put("greek", 25, 70)
_put("cp1250", 26, 34, 44, 66, 99), _put("gbk", 28, 87), _put("cp1257", 29, 58, 59), _put("latin5", 30, 78), _put("armscii8", 32, 64)
_put("utf8", 33, 83, (192, 215), 223), _put("ucs2", 35, 90, (128, 151), 159), _put("cp866", 36, 68), _put("keybcs2", 37, 73)
_put("macce", 38, 43), _put("macroman", 39, 53), _put("cp852", 40, 81), _put("utf8mb4", 45, 46, (224, 247), 255)
_put("utf16", 54, 55, (101, 124)), _put("utf16le", 56, 62), _put("cp1256", 57, 67), _put("utf32", 60, 61, (160, 183)), _put("binary", 63)
_put("geostd8", 92, 93), _put("cp932", 95, 96), _put("eucjpms", 97, 98), _put("gb18030", 248, 249, 250)
IDS = {}
for _i, _c in COLL.items():
    IDS.setdefault(_c, []).append(_i)
HOLES = "\x81\x8d\x8f\x90\x9d"  # latin1 is cp1252 with these mapped to themselves


def enc(cs, s):
    if cs == "latin1":
        return b"".join(bytes([ord(x)]) if x in HOLES else x.encode("cp1252") for x in s)
    return s.encode(CODEC[cs])


def dec_(cs, b):
    if cs == "latin1":
        return "".join(chr(x) if chr(x) in HOLES else bytes([x]).decode("cp1252") for x in b)
    return b.decode(CODEC[cs])


_A = {}
LO = [chr(x) for x in range(0x20, 0x7F) if chr(x) not in "'\"\\`?;%/*#@:-"]


def alpha(cs, ext=None):
    """(ASCII, beyond ASCII, tricky) characters of a set; of two sets: what both have."""
    key = (cs, ext)
    if key in _A:
        return _A[key]
    if ext is not None and ext != cs:
        b = set(alpha(ext)[1])
        _, hi, tricky = alpha(cs)
        hi = [x for x in hi if x in b]
        tricky = [x for x in tricky if x in b]
    else:
        top = 0x10000 if cs not in ("ascii",) else 0x80
        cand = [x for x in range(0x80, top) if not 0xD800 <= x < 0xE000]
        if cs in ("utf8mb4", "utf16", "utf16le", "utf32", "gb18030"):
            cand += list(range(0x1F600, 0x1F640)) + [0x10000, 0x10348, 0x10FFFF, 0x1FFFE, 0x20000, 0x2F81A]
        hi, tricky = [], []
        for cp in cand:
            x = chr(cp)
            try:
                y = enc(cs, x)
                if dec_(cs, y) != x:
                    continue
                if any(z.decode(a) != x or x.encode(a) != y for a in ALSO.get(cs, ()) for z in (y,)):
                    continue
            except UnicodeError:
                continue
            hi.append(x)
            if x in "\x80\x85\xa0\u3000\u2028\u200b\ufeff\ufffe\uffff\xb5\xdf\u0130\u0131" or set(y) & set(b"'\"\\`\0;%\n?") and len(tricky) < 400 or cp > 0xFFFF:
                tricky.append(x)
    _A[key] = (LO, hi, tricky)
    return _A[key]


def mk(ks, cs, ext=None):
    """The text that a list of numbers stands for in the repertoire of a set (or of two)."""
    lo, hi, tricky = alpha(cs, ext)
    out = []
    for k in ks:
        if k < 0 or not hi:
            out.append(lo[k % len(lo)])
        elif tricky and k % 4 == 0:
            out.append(tricky[(k // 4) % len(tricky)])
        else:
            out.append(hi[k % len(hi)])
    return "".join(out)


def gen_text(rng, lo=0, hi=12):
    n = rng.choice([1, 1, 2, 3, 5, rng.randint(1, hi)])
    if rng.random() < 0.03:
        n = rng.choice([60, 130, 255, 300])
    p = rng.choice([0, 0.3, 0.6])
    return [-rng.randrange(1, 200) if rng.random() < p else rng.randrange(1 << 20) for _ in range(max(n, lo))]


SWITCH = ["names", "names", "names", "charset", "client", "results", "both", "collate", "default"]
STR_TYPES = ["VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "JSON", "ENUM", "SET"]


def gen_set(rng, fav):
    return rng.choice(fav) if rng.random() < 0.6 else rng.choice(SETS)


def gen_cols(rng, fav):
    cols = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        cs = gen_set(rng, fav) if rng.random() < 0.7 else None
        cols.append([gen_text(rng, 1), rng.choice(STR_TYPES) if rng.random() < 0.8 else None, cs, [gen_text(rng) for _ in range(rng.choice([1, 1, 2, 4]))]])
    return cols


def gen(rng, i, tier):
    sc = {"sched": gen_sched(rng), "clients": [], "gates": rng.sample(["query", "handle_query", "use", "schema", "init"], rng.choice([0, 0, 1, 2]))}
    for _ in range(rng.choice([1, 1, 2, 3])):
        fav = rng.sample(SETS, rng.choice([2, 3, 4]))
        if rng.random() < 0.5:
            fav.append(rng.choice(["utf8mb4", "latin1", "sjis", "gbk", "utf16"]))
        login_cs = rng.choice([x for x in fav if x not in WIDE] or NARROW)
        prog = []
        for _ in range(rng.choice([6, 12, 20, 40])):
            r = rng.random()
            if r < 0.22:
                kind = rng.choice(SWITCH)
                prog.append(["set", kind, gen_set(rng, fav), gen_set(rng, fav), rng.randrange(64), rng.choice(["text", "text", "text", "prep", "pipe", "pipe", "fail"])])
            elif r < 0.27:
                prog.append(["bad", rng.randrange(6)])
            elif r < 0.33:
                cs = rng.choice([None, rng.choice(fav), rng.choice(NARROW)])
                prog.append(["chuser", cs if cs not in WIDE else None, rng.randrange(64), gen_text(rng, 1), gen_text(rng, 1)])
            elif r < 0.58:
                at = [[gen_text(rng, 1), gen_text(rng)] for _ in range(rng.choice([0, 0, 1, 2]))]
                prog.append(["query", [gen_text(rng) for _ in range(rng.choice([1, 1, 2]))], gen_text(rng), at, gen_cols(rng, fav), rng.random() < 0.25])
            elif r < 0.64:
                prog.append(["sel", gen_text(rng), gen_text(rng, 1)])
            elif r < 0.7:
                prog.append(["initdb", gen_text(rng, 1), rng.choice(["com", "com", "use"])])
            elif r < 0.74:
                prog.append(["whoami"])
            elif r < 0.79:
                prog.append(["prep", gen_text(rng), rng.choice([0, 1, 2, 3]), gen_cols(rng, fav)])
            elif r < 0.87:
                ps = [[rng.choice(["VARCHAR", "VAR_STRING", "STRING", "BLOB", "LONG_BLOB"]), gen_text(rng), rng.choice([0, 0, 1, 2, 3])] for _ in range(3)]
                at = [[gen_text(rng, 1), gen_text(rng)] for _ in range(rng.choice([0, 0, 1, 2]))]
                prog.append(["exec", rng.randrange(4), ps, at, rng.random() < 0.3])
            elif r < 0.91:
                prog.append(["fields", gen_text(rng, 1), [gen_text(rng, 1) for _ in range(rng.choice([1, 2, 3]))], rng.choice([None, None, 0, 1, 2])])
            elif r < 0.94:
                prog.append(["tables", gen_text(rng, 1), [gen_text(rng, 1) for _ in range(rng.choice([1, 2, 3]))]])
            elif r < 0.98:
                prog.append(["err", gen_text(rng, 1), rng.random() < 0.25, rng.random() < 0.3])
            else:
                prog.append([rng.choice(["garbage", "hint", "parseerr"]), gen_text(rng, 1), rng.choice(fav)])
        if not sc["clients"] and rng.random() < 0.15:
            login_cs = rng.choice(WIDE)
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "cs": login_cs, "coll": rng.randrange(64),
                              "user": gen_text(rng, 1), "db": gen_text(rng, 1) if rng.random() < 0.6 else None, "prog": prog})
    return gen_tls(rng, sc)


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    app = App(w, {"gates": sc.get("gates", [])})
    want = {}      # marker -> what the application must see and answer
    failing = set()  # markers of statements that the application refuses in handle_query
    schemas = {}   # session -> mapping

    class Sess(AppSession):
        async def handle_query(self, sql, attrs):
            self.last = (sql, dict(attrs))
            m = re.search(r"/\*f(\d+_\d+)\*/", sql)
            if m and m.group(1) in failing:
                await super().handle_query("select 1", {})
                w.count("app_exc_handle_query")
                raise MysqlError("not now")
            return await super().handle_query(sql, attrs)

    app.schema_fn = lambda sess: schemas.get(sess.username, {})

    async def answer(sess, expression, sql, attrs):
        t = expression.find(exp.Table)
        e = want.get(t.name if t is not None else None)
        if e is None:
            w.violate("c15/sql", "the application got a statement that nobody sent: %r" % sql)
            return None
        full, at = sess.last
        if e.get("sql") is not None and full != e["sql"]:
            w.violate("c15/sql", "client set %s: sent %r, the application got %r" % (e["ccs"], e["sql"], full))
        lits = [x.name for x in expression.find_all(exp.Literal) if x.is_string]
        if e["lits"] is not None and sorted(lits) != sorted(e["lits"]):
            w.violate("c15/literal", "client set %s: literals and parameters %r arrived as %r" % (e["ccs"], e["lits"], lits))
        if e["attrs"] is not None and {k: v for k, v in at.items()} != e["attrs"]:
            w.violate("c15/attributes", "client set %s: attributes %r arrived as %r" % (e["ccs"], e["attrs"], at))
        if sess.username != e["user"] or (sess.database or "") != (e["db"] or ""):
            w.violate("c15/identity", "user %r, database %r; the application sees %r, %r" % (e["user"], e["db"], sess.username, sess.database))
        e["seen"] = True
        if e.get("raise") is not None:
            w.count("app_exc_query")
            raise MysqlError(e["raise"])
        cols = []
        for name, typ, cs, _ in e["cols"]:
            if typ is None:
                cols.append(name)
            elif cs is None:
                cols.append(ResultColumn(name, ColumnType[typ]))
            else:
                cols.append(ResultColumn(name, ColumnType[typ], character_set=CharacterSet[cs]))
        return e["rows"], cols

    app.answer_fn = answer

    def script(ci, cl):
        def go(c):
            W = Wire(c)
            st = {"n": 0, "sw": "login", "pipe": 0, "hi": 0}
            yield GO
            cs = cl["cs"] if cl["cs"] in NARROW or (cl["cs"] in WIDE and ci == 0) else "utf8mb4"
            st["ccs"], st["rcs"] = cs, None
            caps = cl["caps"]
            st["user"] = mk(cl["user"], cs) + "%d" % ci
            st["db"] = mk(cl["db"], cs) if cl["db"] is not None else None
            if cs in WIDE:  # only empty strings can be terminated by one NUL
                st["user"], st["db"] = "", None
                caps &= ~(wire.PLUGIN_AUTH | wire.CONNECT_ATTRS)
                o.probes["wide-login"] += 1
            cid = IDS[cs][cl["coll"] % len(IDS[cs])]
            r = yield from login(c, W, user=enc(cs, st["user"]), db=enc(cs, st["db"]) if st["db"] else None, caps=caps, charset=cid, tls=cl.get("tls"))
            expect(r["kind"] == "ok", "c15/login", "collation %d (%s), user %r: %r" % (cid, cs, st["user"], r))
            if not st["db"]:
                st["db"] = None
            o.probes["login"] += 1
            yield from learn(c, W, st)
            stmts = []
            for op in cl["prog"]:
                yield GO
                yield from step(ci, c, W, st, stmts, op)
            while st["pipe"]:
                yield from drain(W, st)
        return go

    def learn(c, W, st):
        """Which set do results come in?"""
        W.command(wire.COM_QUERY, W.query_body(enc(st["ccs"], "select @@character_set_results, @@character_set_client")))
        r = yield from W.read_resultset()
        expect(r["kind"] == "rs" and not r["err"], "c15/variables", repr(r))
        r, k = [cell(r["cols"][j], r["rows"][0][j], "c15/variables") for j in (0, 1)]
        expect(k == st["ccs"] or k in ("utf8mb3",) and st["ccs"] == "utf8", "c15/client-set", "character_set_client is %r, the client declared %s" % (k, st["ccs"]))
        r = "utf8" if r == "utf8mb3" else r
        expect(r in CODEC, "c15/results-set", repr(r))
        st["rcs"] = r

    def cell(col, b, kind, declared=None):
        """A string cell, decoded in the set that its column announces."""
        cs = COLL.get(col["charset"])
        if declared is not None and cs != declared:
            raise Violation("c15/column-set", "declared %s, announced collation %d (%s)" % (declared, col["charset"], cs))
        if b is None:
            return None
        try:
            return dec_(cs, b)
        except (UnicodeError, KeyError) as e:
            raise Violation(kind, "column of collation %d (%s): cell %r cannot be decoded: %s" % (col["charset"], cs, b, e))

    def head(st, col, name, what):
        try:
            got = dec_(st["rcs"], col["name"])
        except UnicodeError as e:
            raise Violation("c15/column-name", "%s: results set %s: %r cannot be decoded: %s" % (what, st["rcs"], col["name"], e))
        if got != name:
            raise Violation("c15/column-name", "%s: results set %s: the column is called %r, declared %r (%r)" % (what, st["rcs"], got, name, col["name"]))

    def message(st, r, text, what):
        if text is None:
            try:
                dec_(st["rcs"], r["msg"])
            except UnicodeError as e:
                raise Violation("c15/message", "%s: results set %s: message %r cannot be decoded: %s" % (what, st["rcs"], r["msg"], e))
        elif r["msg"] != enc(st["rcs"], text):
            raise Violation("c15/message", "%s: results set %s: message %r arrived as %r" % (what, st["rcs"], text, r["msg"]))

    def drain(W, st):
        """The answer to the SET that was sent together with the command after it."""
        W.seq = 1
        r = yield from W.read_ok_err()
        st["pipe"] = 0
        expect(r["kind"] == "ok", "c15/switch", "%s: %r" % (st["sw"], r))

    def send(W, st, code, body):
        if st["pipe"]:
            W.seq = 0
            W.send_packet(bytes([code]) + body)
            yield from drain(W, st)
            o.probes["pipelined"] += 1
            W.seq = 1
        else:
            W.command(code, body)

    def note(st, kind, *texts):
        if any(ord(x) > 127 for t in texts for x in t):
            o.probes["non-ascii-" + kind] += 1
            if st["sw"] != "login":
                o.nontrivial = True
        o.states.add("%s %s %s %s" % (st["ccs"], st["rcs"], kind, st["sw"]))

    def mark(st, ci):
        st["n"] += 1
        return "%d_%d" % (ci, st["n"])

    def build(st, cols):
        """Columns and rows the application declares."""
        out = []
        cols = cols or [[[], "VARCHAR", None, [[]]]]
        n = max(len(x[3]) for x in cols)
        for k, (name, typ, cs, cells) in enumerate(cols):
            typ = typ if typ in STR_TYPES else None
            cs = cs if cs in CODEC and typ else None
            own = cs or "utf8mb4"
            vals = [mk(x, own) for x in cells] or [""]
            out.append(["%s%d" % (mk(name, st["rcs"]), k), typ, cs, [vals[j % len(vals)] for j in range(n)]])
        return out, [tuple(x[3][j] for x in out) for j in range(n)]

    def check_rs(st, r, e, what):
        if r["kind"] != "rs" or r["err"]:
            raise Violation("c15/answer", "%s (client set %s, results set %s): %r" % (what, st["ccs"], st["rcs"], {k: r[k] for k in r if k != "rows"}))
        expect(e["seen"], "c15/answer", "%s did not reach the application" % what)
        expect(len(r["cols"]) == len(e["cols"]), "c15/answer", "%d columns" % len(r["cols"]))
        for j, (name, typ, cs, _) in enumerate(e["cols"]):
            head(st, r["cols"][j], name, what)
            got = [cell(r["cols"][j], x[j], "c15/cell", cs or (typ and "utf8mb4")) for x in r["rows"]]
            exp_ = [x[j] for x in e["rows"]]
            if got != exp_:
                raise Violation("c15/cell", "%s: column of %s (%s): %r arrived as %r" % (what, cs, typ, exp_, got))

    def fresh(st, ci, **kw):
        e = {"ccs": st["ccs"], "user": st["user"], "db": st["db"], "seen": False, "attrs": None, "lits": [], "cols": [], "rows": []}
        e.update(kw)
        m = mark(st, ci)
        want["t" + m] = e
        return m, e

    def attributes(W, st, at):
        if not W.caps & wire.QUERY_ATTRIBUTES:
            return [], None
        pairs = [(mk(k, st["ccs"]) + "%d" % j, mk(v, st["ccs"])) for j, (k, v) in enumerate(at)]
        return [(enc(st["ccs"], k), wire.T["VAR_STRING"], False, wire.lstr(enc(st["ccs"], v))) for k, v in pairs], dict(pairs)

    def step(ci, c, W, st, stmts, op):
        ccs, rcs = st["ccs"], st["rcs"]
        k = op[0]
        if k == "set":
            yield from switch(ci, c, W, st, op)
        elif k == "bad":
            sql = ["set names nosuch", "set names ''", "set names 'utf8mb5'", "set character set cp1", "set character_set_results = 'nosuch'",
                   "set character_set_client = 'utf-8'"][op[1] % 6]
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, sql)))
            r = yield from W.read_ok_err()
            expect(r["kind"] == "err", "c15/bad-set", "%s: %r" % (sql, r))
            message(st, r, None, sql)
            o.probes["refused-switch"] += 1
        elif k == "chuser":
            if ccs in WIDE:
                return
            new = op[1] if op[1] in NARROW else None
            ids = IDS[new] if new else [None]
            cid = ids[op[2] % len(ids)]
            own = ccs if new in (None, ccs) else "ascii"
            user, db = mk(op[3], own) + "%d" % ci, mk(op[4], own)
            auth = b""
            yield from send(W, st, wire.COM_CHANGE_USER, W.change_user_body(enc(own, user), auth, enc(own, db), cid, b"mysql_native_password"))
            r = yield from W.finish_auth(lambda *a: b"")
            expect(r["kind"] == "ok", "c15/change-user", "client set %s, collation %r: %r" % (ccs, cid, r))
            st["user"], st["db"] = user, db
            stmts[:] = []
            if new:
                st["ccs"] = new
                st["sw"] = "change-user"
            yield from learn(c, W, st)
            note(st, "change-user", user, db)
        elif k == "query":
            lits = [mk(x, ccs) for x in op[1]] or [""]
            cols, rows = build(st, op[4])
            attrs, pairs = attributes(W, st, op[3])
            m, e = fresh(st, ci, lits=lits, cols=cols, rows=rows, attrs=pairs)
            e["sql"] = "select %s /* %s */ from t%s" % (", ".join("'%s' as a%d" % (x, j) for j, x in enumerate(lits)), mk(op[2], ccs), m)
            if op[5]:  # prepared, without parameters
                yield from send(W, st, wire.COM_STMT_PREPARE, enc(ccs, e["sql"]))
                p = yield from W.read_prepare()
                expect(p["kind"] == "prep", "c15/prepare", "%r: %r" % (e["sql"], p))
                e["attrs"] = None
                W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"]))
                r = yield from W.read_resultset(binary=True)
            else:
                yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, e["sql"]), attrs))
                r = yield from W.read_resultset()
            check_rs(st, r, e, e["sql"])
            note(st, "query", *(lits + [x for y in rows for x in y]))
        elif k == "sel":
            text, alias = mk(op[1], ccs), mk(op[2], ccs, rcs).strip() or "a"
            sql = "select '%s' as `%s`" % (text, alias)
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, sql)))
            r = yield from W.read_resultset()
            expect(r["kind"] == "rs" and not r["err"], "c15/answer", "%r: %r" % (sql, r))
            head(st, r["cols"][0], alias, sql)
            got = cell(r["cols"][0], r["rows"][0][0], "c15/cell")
            expect(got == text, "c15/cell", "%r answered %r" % (sql, got))
            note(st, "sel", text, alias)
        elif k == "initdb":
            db = mk(op[1], ccs).strip() or "d"
            if op[2] == "com":
                yield from send(W, st, wire.COM_INIT_DB, enc(ccs, db))
            else:
                yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, "use `%s`" % db)))
            r = yield from W.read_ok_err()
            expect(r["kind"] == "ok", "c15/init-db", "%r: %r" % (db, r))
            st["db"] = db
            used = [e for e in app.log if e[1] == "use" and app.sessions[e[0]].username == st["user"]]
            expect(used and used[-1][2] == db, "c15/init-db", "client set %s: %r arrived as %r" % (ccs, db, used[-1:]))
            note(st, "init-db", db)
        elif k == "whoami":
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, "select database()")))
            r = yield from W.read_resultset()
            expect(r["kind"] == "rs" and not r["err"], "c15/answer", repr(r))
            got = cell(r["cols"][0], r["rows"][0][0], "c15/cell")
            expect((got or "") == (st["db"] or ""), "c15/database", "in database %r, select database() answers %r" % (st["db"], got))
        elif k == "prep":
            lit = mk(op[1], ccs)
            m, e = fresh(st, ci)
            sql = "select '%s' as a /* %s */ from t%s where %s" % (lit, lit, m, " and ".join(["1 = 1"] + ["x%d = ?" % j for j in range(op[2])]))
            yield from send(W, st, wire.COM_STMT_PREPARE, enc(ccs, sql))
            p = yield from W.read_prepare()
            expect(p["kind"] == "prep" and p["nparams"] == op[2], "c15/prepare", "%r: %r" % (sql, p))
            stmts.append((p["id"], lit, m, e, op[2], op[3]))
            note(st, "prepare", lit)
        elif k == "exec":
            if not stmts:
                return
            sid, lit, m, e, n, cols = stmts[op[1] % len(stmts)]
            cols, rows = build(st, cols)
            attrs, pairs = attributes(W, st, op[3])
            params, li, vals = [], [], []
            for j in range(n):
                typ, ks, chunks = op[2][j % len(op[2])]
                v = mk(ks, ccs)
                typ = typ if typ in ("VARCHAR", "VAR_STRING", "STRING", "BLOB", "LONG_BLOB") else "STRING"
                raw = enc(ccs, v)
                vals.append(v)
                if chunks and raw:
                    if not st["pipe"]:
                        cut = max(1, len(raw) // (chunks + 1))
                        for p in range(0, len(raw), cut):
                            W.command(wire.COM_STMT_SEND_LONG_DATA, struct.pack("<IH", sid, j) + raw[p:p + cut])
                        params.append((b"", wire.T["BLOB"], False, b""))
                        li.append(j)
                        o.probes["long-data"] += 1
                        continue
                params.append((b"", wire.T[typ], False, wire.lstr(raw)))
            e.update(ccs=ccs, user=st["user"], db=st["db"], cols=cols, rows=rows, lits=None, seen=False, attrs=pairs)
            e["lits"] = [lit] + vals
            yield from send(W, st, wire.COM_STMT_EXECUTE, W.execute_body(sid, params, attrs, cursor=op[4], long_idx=tuple(li), force_count=True))
            r = yield from W.read_resultset(binary=True, cursor=op[4])
            if op[4] and r["kind"] == "rs" and not r["err"]:
                W.command(wire.COM_STMT_FETCH, struct.pack("<II", sid, 100))
                f = yield from W.read_fetch(r["cols"])
                r["rows"], r["err"] = f["rows"], f["err"]
            check_rs(st, r, e, "execution with %r" % vals)
            note(st, "execute", *(vals + [x for y in rows for x in y]))
        elif k == "fields":
            if ccs in WIDE or not st["db"]:
                return
            t = mk(op[1], ccs, rcs) + "t"
            # the wildcard names one of the columns, in the set of the client
            like = op[3] % len(op[2]) if len(op) > 3 and op[3] is not None else None
            names = ["%s%d" % (mk(x, rcs, ccs if j == like else None), j) for j, x in enumerate(op[2])]
            wildcard = enc(ccs, names[like]) if like is not None else b""
            if like is not None:
                o.probes["field-list-wildcard"] += 1
            schemas[st["user"]] = {st["db"]: {t: {x: "int" for x in names}, "other": {"z": "int"}}}
            yield from send(W, st, wire.COM_FIELD_LIST, enc(ccs, t) + b"\0" + wildcard)
            r = yield from W.read_field_list()
            expect(not r["err"], "c15/field-list", "table %r: %r" % (t, r["err"]))
            got = []
            for col in r["cols"]:
                try:
                    got.append((dec_(rcs, col["table"]), dec_(rcs, col["name"])))
                except UnicodeError as x:
                    raise Violation("c15/field-list", "results set %s: %r: %s" % (rcs, col, x))
            if like is not None:
                names = [names[like]]
            expect(got == [(t, x) for x in names], "c15/field-list", "client set %s, results set %s: table %r, columns %r arrived as %r" % (ccs, rcs, t, names, got))
            note(st, "field-list", t, *names)
        elif k == "tables":
            db = mk(op[1], ccs) + "d"
            names = sorted({"%s%d" % (mk(x, "utf8mb4"), j) for j, x in enumerate(op[2])})
            schemas[st["user"]] = {db: {x: {"a": "int"} for x in names}, "elsewhere": {"z": {"a": "int"}}}
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, "show tables from `%s`" % db)))
            r = yield from W.read_resultset()
            expect(r["kind"] == "rs" and not r["err"], "c15/show-tables", "client set %s, %r: %r" % (ccs, db, r))
            got = sorted(cell(r["cols"][0], x[0], "c15/show-tables") for x in r["rows"])
            expect(got == names, "c15/show-tables", "tables %r of %r arrived as %r" % (names, db, got))
            note(st, "show-tables", db, *names)
        elif k == "err":
            text = mk(op[1], rcs)
            m, e = fresh(st, ci)
            if op[2]:  # something that this set may not have
                text = mk(op[1], "utf8mb4")
            e["raise"] = text
            sql = "select a from t" + m
            if op[3]:
                yield from send(W, st, wire.COM_STMT_PREPARE, enc(ccs, sql))
                p = yield from W.read_prepare()
                W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"]))
            else:
                yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, sql)))
            r = yield from W.read_ok_err()
            expect(r["kind"] == "err" and e["seen"], "c15/message", "the application raised %r: %r" % (text, r))
            try:
                enc(rcs, text)
            except UnicodeError:
                text = None
                o.probes["message-not-representable"] += 1
            if text is not None and dec_(rcs, enc(rcs, text)) == text:
                message(st, r, text, "an error of the application")
            note(st, "message", text or "")
        elif k == "garbage":
            bad = {"utf8mb4": b"\xff\xfe\xc3", "utf8": b"\xff\xfe\xc3", "sjis": b"\x81", "gbk": b"\x81", "utf16": b"\xd8\0\0a"}.get(ccs)
            if bad is None:
                return
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, "select '") + bad + enc(ccs, "' as a")))
            r = yield from W.read_resultset()
            if r["kind"] == "err":
                message(st, r, None, "undecodable statement")
            o.probes["undecodable"] += 1
        elif k == "parseerr":
            sql = "set names '%s'" % mk(op[1], ccs) if op[1][0] % 2 else "selec '%s" % mk(op[1], ccs)
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, sql)))
            r = yield from W.read_ok_err()
            expect(r["kind"] == "err", "c15/bad-set", "%r: %r" % (sql, r))
            message(st, r, None, sql)
            o.probes["library-error"] += 1
        elif k == "hint":
            # for one statement only
            other = op[2] if op[2] in NARROW else "latin1"
            m, e = fresh(st, ci, cols=[["a", "VARCHAR", None, ["x"]]], rows=[("x",)])
            var = "character_set_results" if op[1][0] % 2 else "character_set_client"
            sql = "SELECT /*+ SET_VAR(%s = '%s') */ a FROM t%s" % (var, other, m)
            e["lits"] = None
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, sql)))
            r = yield from W.read_resultset()
            expect(r["kind"] == "rs" and not r["err"], "c15/answer", "%r: %r" % (sql, r))
            o.probes["hint"] += 1

    def switch(ci, c, W, st, op):
        _, kind, a, b, x, how = op
        a = a if a in CODEC else "latin1"
        b = b if b in CODEC else "latin1"
        ccs = st["ccs"]
        q = [a, "'%s'" % a, a.upper(), '"%s"' % a][x % 4]
        s = ["", "session ", "@@session.", "@@"][(x // 4) % 4]
        new = [a, a]
        if kind == "names":
            sql = ["set names %s", "SET NAMES %s", "Set  Names\n%s"][(x // 4) % 3] % q
        elif kind == "collate":
            coll = {"latin1": "latin1_bin", "utf8mb4": "utf8mb4_bin", "sjis": "sjis_bin", "gbk": "gbk_bin", "utf16": "utf16_bin", "latin2": "latin2_bin"}.get(a)
            sql = "set names %s" % q + (" collate %s" % ["%s", "'%s'"][x % 2] % coll if coll else "")
        elif kind == "charset":
            sql = ["set character set %s", "SET CHARSET %s", "set charset %s"][(x // 4) % 3] % q
        elif kind == "client":
            sql = "set %scharacter_set_client = '%s'" % (s, a)
            new = [a, st["rcs"]]
        elif kind == "results":
            sql = "set %scharacter_set_results = '%s'" % (s, a)
            new = [ccs, a]
        elif kind == "both":
            sql = "set %scharacter_set_results = '%s', %scharacter_set_client = '%s'" % (s, b, s, a)
            new = [a, b]
        else:
            sql = ["set names default", "SET NAMES DEFAULT"][x % 2]
            new = None
        if how == "fail":
            m = mark(st, ci)
            failing.add(m)
            sql += " /*f%s*/" % m
        if how == "prep":
            yield from send(W, st, wire.COM_STMT_PREPARE, enc(ccs, sql))
            p = yield from W.read_prepare()
            expect(p["kind"] == "prep", "c15/prepare", "%r: %r" % (sql, p))
            W.command(wire.COM_STMT_EXECUTE, W.execute_body(p["id"]))
        else:
            yield from send(W, st, wire.COM_QUERY, W.query_body(enc(ccs, sql)))
            if how == "pipe" and new:
                st["pipe"] = 1
        if not st["pipe"]:
            r = yield from W.read_ok_err()
            if how == "fail":
                expect(r["kind"] == "err", "c15/switch", "refused by the application: %r" % r)
                o.probes["failed-switch"] += 1
                return
            expect(r["kind"] == "ok", "c15/switch", "%r: %r" % (sql, r))
        st["sw"] = kind + ("-" + how if how != "text" else "")
        if new:
            st["ccs"], st["rcs"] = new
        else:
            # the defaults of the server
            st["ccs"] = "utf8mb4"
            yield from learn(c, W, st)
        o.probes["switch-" + kind] += 1

    for ci, cl in enumerate(sc["clients"]):
        w.client(script(ci, cl), cl["net"])
    w.run(std_server(app, cls=Sess, **tls_kw(sc)))
    unfinished(w, "c15")
    return finish(o, w)
