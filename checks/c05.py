"""C05: clients decode exactly the values the application returned."""
from checks.common import *
from dst.values import dec
import datetime

ID = "C05"
LEVEL = "exploration"
QUICK_RUNS = 3000
THOROUGH_RUNS = 400000
RULE = ("A run is 1-2 clients reading 1-4 generated results (explicit columns of every type and character set, bare names with "
        "inferred types, duplicate and empty names, NULL patterns including leading NULLs around every power of ten, rows "
        "from lists, tuples, sync and async generators, iterators and iterables that suspend at random rows) through text, "
        "binary and cursor protocols over slow and partial connections. Each cell is decoded by the announced column type "
        "and character set with codecs that share no code with the server. Non-trivial: at least one row with a non-NULL "
        "and one NULL cell, or several columns.")
STATE_RULE = "(value kind, announced type, protocol, row source)"

SRC = ["list", "tuple", "lists", "gen", "iterable", "agen", "agen", "aiter", "aiterable"]
INT_RANGE = {"TINY": (-128, 127), "SHORT": (-32768, 32767), "INT24": (-8388608, 8388607), "LONG": (-2**31, 2**31 - 1),
             "LONGLONG": (-2**63, 2**63 - 1), "YEAR": (1901, 2155), "BOOL": (0, 1)}
STR_TYPES = ["VARCHAR", "VAR_STRING", "STRING", "ENUM", "SET", "JSON", "DECIMAL", "NEWDECIMAL", "BLOB", "TINY_BLOB", "MEDIUM_BLOB",
             "LONG_BLOB", "BIT", "GEOMETRY"]
LENS = [0, 1, 2, 10, 249, 250, 251, 252, 255, 256, 1000]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def gen_value(rng, kind, cs):
    if kind in INT_RANGE:
        lo, hi = INT_RANGE[kind]
        if kind == "BOOL":
            return rng.choice([True, False])
        r = rng.random()
        if r < 0.04:
            return rng.choice([True, False])  # a bool is an int
        if r < 0.3:
            return rng.choice([lo, hi])
        if r < 0.6 and lo < 0:
            return rng.choice([0, 1, -1, 100, -100])
        v = rng.randint(lo, hi)
        return v
    if kind == "pybool":
        return rng.choice([True, False])
    if kind == "FLOAT":
        return ["f", repr(f32(rng.choice([0.0, -0.0, 1.5, -2.25, 0.1, 1e-30, 3.4e38, rng.uniform(-1e6, 1e6)])))]
    if kind == "DOUBLE":
        return ["f", repr(rng.choice([0.0, -0.0, 1.5, 0.1, -1e300, 5e-324, 1.7976931348623157e308, 2.0**53, 1e16, 123456789.125,
                                      rng.uniform(-1e9, 1e9), rng.random()]))]
    if kind == "DATE":
        return ["d", rng.choice([[1, 1, 1], [9999, 12, 31], [2000, 2, 29], [1970, 1, 1], [rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28)]])]
    if kind in ("DATETIME", "TIMESTAMP"):
        d = rng.choice([[1000, 1, 1], [2024, 2, 29], [1999, 12, 31], [2038, 1, 19], [1, 1, 1], [9999, 12, 31],
                        [rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28)]])
        t = rng.choice([[0, 0, 0, 0], [0, 0, 0, 1], [23, 59, 59, 999999], [12, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [1, 2, 3, 400000], [0, 0, 0, 100]])
        return ["dt", d + t]
    if kind == "TIME":
        return ["td", rng.choice([[0, 0, 0], [0, 1, 0], [-1, 86399, 0], [1, 0, 0], [34, 82799, 0], [-35, 3601, 0], [-1, 0, 0], [-1, 0, 500000], [-2, 0, 0], [rng.randint(-40, 40), 0, 0], [-1, rng.randint(0, 86399), 0], [0, 0, 1], [-1, 86399, 999999],
                                  [0, 36000, 500000], [2, 3 * 3600 + 4 * 60 + 5, 6], [-2, 3600, 0], [0, 3599, 0], [100, 0, 0], [-100, 5, 0], [416, 57600, 0],
                                  [rng.choice([-70000, -3000, -300, 256, 300, 3000, 65536, 70000]), rng.randint(0, 86399), rng.choice([0, 1])],
                                  [rng.randint(-34, 34), rng.randint(0, 86399), rng.choice([0, 0, 1, 999999, rng.randint(0, 999999)])]])]
    if kind == "str":
        return text(rng, cs, rng.choice(LENS[:4] if rng.random() < 0.85 else LENS))
    if kind == "twin":
        # values that are equal, or have the same hash, and are different text
        return rng.choice([1, True, ["f", "1.0"], ["dec", "1"], ["dec", "1.0"], ["dec", "1.00"], "1", 0, False, ["f", "0.0"], ["f", "-0.0"], ["dec", "0.00"], "0", "",
                           ["dec", "-0"], -1, -2, ["f", "-1.0"]])
    if kind == "twindec":
        return rng.choice([1, ["dec", "1"], ["dec", "1.0"], ["dec", "1.00"], "1.000", 0, ["dec", "0.0"], ["dec", "-0.5"], True])
    if kind == "hugeint":
        return rng.choice([2**63, 2**64 - 1, 2**64, -2**63 - 1, 10**30, -10**40])
    if kind == "bigstr":
        return ["rep", rng.choice(alphabet(cs)[0]), rng.choice([65534, 65535, 65536, 66000])]
    if kind == "bytes":
        n = rng.choice(LENS[:4] if rng.random() < 0.85 else LENS)
        return ["b", bytes(rng.choice([0, 255, 251, 254, 39, 92, rng.randrange(256)]) for _ in range(n)).hex()]
    raise ValueError(kind)


def gen_col(rng, inferred, j, names):
    r = rng.random()
    if r < 0.15 and names:
        name = rng.choice(names)
    elif r < 0.2:
        name = rng.choice(["", " ", "\u00e9\u2603", "select", "a`b", "n" * 251, "n" * 300, "?", "%s", "0"])
    else:
        name = "c%d" % j
    col = {"name": name}
    if inferred:
        kind = rng.choice(["LONGLONG", "LONGLONG", "hugeint", "str", "str", "DOUBLE", "bytes", "DATE", "DATETIME", "TIME", "pybool", "NULL"])
        col["type"] = None
        cs = "utf8mb4"
    else:
        t = rng.choice(["TINY", "SHORT", "INT24", "LONG", "LONGLONG", "YEAR", "BOOL", "FLOAT", "DOUBLE", "DATE", "DATETIME", "TIMESTAMP",
                        "TIME", "NULL"] + STR_TYPES)
        col["type"] = t
        cs = "utf8mb4"
        kind = t
        if t in STR_TYPES:
            cs = rng.choice(["utf8mb4", "utf8mb4", rng.choice(sorted(wire.CODECS))])
            if t in ("BIT", "GEOMETRY"):
                kind = "bytes"
            elif t in ("DECIMAL", "NEWDECIMAL"):
                kind = rng.choice(["DECIMAL", "twindec"])
            else:
                kind = rng.choice(["str", "str", "str", "bytes", "int", "twin"])
            if t in ("DECIMAL", "NEWDECIMAL") or kind in ("int", "bytes", "twin"):
                cs = "utf8mb4" if cs in ("utf16", "utf16le", "utf32", "ucs2") else cs
            col["cs"] = cs
    return col, kind, cs


def gen_table(rng, tier):
    nc = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 17, 30]) if rng.random() < 0.6 else rng.randint(1, 5)
    if rng.random() < 0.01:
        nc = rng.choice([62, 63, 70, 250, 251, 254, 255, 256, 510, 511, 512, 518, 519, 520, 1021, 1024])
    mode = rng.choice(["typed", "inferred", "inferred", "mixed"])
    cols, kinds, css, names = [], [], [], []
    for j in range(nc):
        inf = mode == "inferred" or (mode == "mixed" and rng.random() < 0.5)
        c, k, cs = gen_col(rng, inf, j, names)
        cols.append(c)
        kinds.append(k)
        css.append(cs)
        names.append(c["name"])
    r = rng.random()
    nr = rng.choice([0, 1, 2, 3, 5, 10, 30])
    lead = 0
    if r < 0.03:
        nr = rng.choice([90, 101, 300])
        if nc > 5:
            nr = 90
    if nc > 50:
        nr = min(nr, 3)
    pn = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    rows = []
    for i in range(nr):
        row = []
        for j in range(nc):
            if kinds[j] == "NULL" or rng.random() < pn:
                row.append(None)
            elif kinds[j] == "int":
                row.append(rng.randint(-10**12, 10**12))
            elif kinds[j] == "DECIMAL":
                row.append(rng.choice(["0.00", "-1.250", "123456789012345678901234567890.5", "7", rng.randint(-99, 99),
                                       ["f", repr(rng.choice([0.1, -2.5, 1e-10, 123456.789012345, 1e15 + 0.5, rng.uniform(-1, 1), rng.uniform(-1e6, 1e6)]))],
                                       ["dec", rng.choice(["0.0000001", "-12345678901234567890.12345678901", "1.10"])]]))
            elif kinds[j] == "str" and rng.random() < 0.004:
                row.append(gen_value(rng, "bigstr", css[j]))
            else:
                v = gen_value(rng, kinds[j], css[j])
                if cols[j]["type"] is None and kinds[j] == "LONGLONG" and all(x[j] is None for x in rows):
                    v = int(v)  # a leading bool would make it a column of bools
                row.append(v)
        rows.append(row)
    spec = {"kind": "rows", "cols": cols, "rows": rows, "src": rng.choice(SRC), "repeat": 1, "kinds": kinds}
    if rng.random() < 0.03 and rows:
        # leading NULLs: the types are only seen after them
        lead = rng.choice([9, 10, 11, 50, 99, 100, 101, 500, 999, 1000, 1001, 1200])
        if nc > 4:
            lead = min(lead, 101 if nc < 50 else 9)
        spec["lead"] = lead
    if rng.random() < 0.004 and rows and nc <= 3:
        spec["repeat"] = max(1, rng.choice([10000, 10001, 20001]) // len(rows))
    if rng.random() < 0.3:
        n = nr + lead
        spec["gates"] = sorted({rng.randrange(n + 1) for _ in range(3)})
    if rng.random() < 0.2:
        spec["yield_every"] = rng.choice([1, 2, 7])
    if mode == "typed" and rng.random() < 0.3:
        spec["resultset"] = True
    return spec


def gen(rng, i, tier):
    nt = rng.randint(1, 4)
    sc = {"sched": gen_sched(rng), "tables": {"q%d" % k: gen_table(rng, tier) for k in range(nt)}, "clients": []}
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(2, 5)):
            ops.append({"t": "q%d" % rng.randrange(nt), "via": rng.choice(["text", "text", "bin", "bin", "cursor"]),
                        "n": rng.choice([1, 2, 3, 7, 100, 5000])})
        for t in sc["tables"]:  # every result in both protocols
            ops.append({"t": t, "via": "text", "n": 1})
            ops.append({"t": t, "via": "bin", "n": 1})
        sc["clients"].append({"net": gen_net(rng), "caps": gen_caps(rng), "ops": ops})
    return sc


# ------------------------------------------------------------------ oracle
def cell_ok(kind, val, got, col, text_proto):
    """None if `got` denotes `val`, else an explanation"""
    tname = wire.TNAME.get(col["type"], "?")
    if val is None:
        return None if got is None else "NULL became %r" % (got,)
    if got is None:
        return "became NULL"
    cs = next((n for n, i in wire.CS_ID.items() if i == col["charset"]), None)

    def as_text(b):
        return b.decode(wire.CODECS.get(cs, "utf-8"))

    if tname in wire.STRINGISH:
        if not isinstance(got, bytes):
            return "type"
        if isinstance(val, bytes):
            return None if got == val else "bytes differ: %r" % (got[:80],)
        if cs is None:
            return "column announces unknown character set %d" % col["charset"]
        try:
            s = as_text(got)
        except UnicodeError as e:
            return "undecodable: %s" % e
        if isinstance(val, bool) and tname in ("DECIMAL", "NEWDECIMAL"):
            return None if s == str(int(val)) else "text %r" % s
        if isinstance(val, float) and tname in ("DECIMAL", "NEWDECIMAL"):
            try:
                return None if float(s) == val else "text %r" % s
            except ValueError:
                return "text %r" % s
        if isinstance(val, (datetime.date, datetime.timedelta)) or isinstance(val, (bool, float)):
            # a type nobody could infer: any text that denotes the value
            return None if s == str(val) else "text %r" % s
        return None if s == str(val) else "text %r" % s[:80]
    if text_proto:
        try:
            s = got.decode("ascii")
        except UnicodeError:
            return "not ASCII: %r" % got
        if tname in INT_RANGE:
            return None if s.lstrip("-").isdigit() and isinstance(val, int) and int(s) == int(val) else "text %r" % s
        if tname in ("FLOAT", "DOUBLE"):
            try:
                x = float(s)
            except ValueError:
                return "text %r" % s
            if tname == "FLOAT":
                x = f32(x)
            return None if x == val and isinstance(val, (int, float)) and struct.pack("<d", x) == struct.pack("<d", val) else "text %r" % s
        if tname == "DATE":
            return None if len(s) == 10 and wire.text_datetime(got) == (val.year, val.month, val.day, 0, 0, 0, 0) else "text %r" % s
        if tname in ("DATETIME", "TIMESTAMP"):
            return None if wire.text_datetime(got) == (val.year, val.month, val.day, val.hour, val.minute, val.second, val.microsecond) else "text %r" % s
        if tname == "TIME":
            return None if wire.text_time(got) == val else "text %r" % s
        return "no client decodes %s" % tname
    if tname in INT_RANGE:
        return None if got == int(val) and isinstance(val, int) else "binary %r" % got
    if tname in ("FLOAT", "DOUBLE"):
        return None if got == val and struct.pack("<d", got) == struct.pack("<d", val) else "binary %r" % got
    if tname in ("DATE", "DATETIME", "TIMESTAMP"):
        want = (val.year, val.month, val.day) + ((val.hour, val.minute, val.second, val.microsecond) if isinstance(val, wire.real_datetime) else (0, 0, 0, 0))
        return None if got == ("date", want) else "binary %r" % (got,)
    if tname == "TIME":
        return None if got == ("time", val) else "binary %r" % (got,)
    return "no client decodes %s" % tname


def kind_ok(kind, col, spec_type):
    """Is the announced type one that can carry the values?"""
    return spec_type is None or wire.TNAME.get(col["type"]) == spec_type


def run(sc, ch, trace=False):
    o = Outcome()
    o.nontrivial = False
    w = World(ch, sc.get("sched"), trace)
    results = {}
    for t, spec in sc["tables"].items():
        s = dict(spec)
        rows = [list(r) for r in spec["rows"]] * spec.get("repeat", 1)
        lead = [[None] * len(spec["cols"])] * spec.get("lead", 0)
        s["rows"] = lead + rows
        s["repeat"] = 1
        results[t] = s
    app = App(w, {"results": results})
    model = {}
    for t, s in results.items():
        model[t] = [tuple(dec(v) for v in r) for r in s["rows"]]
        if len(s["cols"]) > 1 or any(None in r and any(v is not None for v in r) for r in s["rows"]):
            o.nontrivial = True

    def verify(t, cols, rows, text_proto, where):
        spec = results[t]
        want = model[t]
        if len(cols) != len(spec["cols"]):
            raise Violation("c05/columns", "%s: %d columns for %d" % (where, len(cols), len(spec["cols"])))
        for j, c in enumerate(cols):
            name = c["name"].decode("utf-8", "replace")
            if name != spec["cols"][j]["name"]:
                raise Violation("c05/column-name", "%s: column %d is %r, declared %r" % (where, j, name, spec["cols"][j]["name"]))
            if not kind_ok(spec["kinds"][j], c, spec["cols"][j]["type"]):
                raise Violation("c05/column-type", "%s: column %d is %s, declared %s" % (where, j, wire.TNAME.get(c["type"]), spec["cols"][j]["type"]))
            if spec["cols"][j].get("cs") and c["charset"] != wire.CS_ID[spec["cols"][j]["cs"]]:
                raise Violation("c05/column-charset", "%s: column %d announces %d, declared %s" % (where, j, c["charset"], spec["cols"][j]["cs"]))
        if len(rows) != len(want):
            raise Violation("c05/row-count", "%s: %d rows for %d" % (where, len(rows), len(want)))
        for i, (got, exp) in enumerate(zip(rows, want)):
            for j in range(len(cols)):
                why = cell_ok(spec["kinds"][j], exp[j], got[j], cols[j], text_proto)
                if why:
                    raise Violation("c05/cell", "%s: row %d column %d (%s, announced %s): application returned %r, %s" % (
                        where, i, j, spec["cols"][j], wire.TNAME.get(cols[j]["type"]), exp[j] if len(repr(exp[j])) < 200 else "...", why))
        for j, c in enumerate(cols):
            o.states.add("%s %s %s %s" % (spec["kinds"][j], wire.TNAME.get(c["type"]), "text" if text_proto else "bin", spec["src"]))

    def script(cl):
        def go(c):
            W = Wire(c)
            yield GO
            r = yield from login(c, W, caps=cl["caps"])
            expect(r["kind"] == "ok", "c05/login", repr(r))
            for op in cl["ops"]:
                yield GO
                t = op["t"]
                sql = ("select * from %s" % t).encode()
                where = "%s of %s (%s rows)" % (op["via"], t, results[t]["src"])
                if op["via"] == "text":
                    W.command(wire.COM_QUERY, W.query_body(sql))
                    r = yield from W.read_resultset()
                    rows, cols = r.get("rows"), r.get("cols")
                else:
                    W.command(wire.COM_STMT_PREPARE, sql)
                    r = yield from W.read_prepare()
                    expect(r["kind"] == "prep", "c05/error", repr(r))
                    sid = r["id"]
                    cur = op["via"] == "cursor"
                    W.command(wire.COM_STMT_EXECUTE, W.execute_body(sid, cursor=cur))
                    r = yield from W.read_resultset(binary=True, cursor=cur)
                    rows, cols = r.get("rows"), r.get("cols")
                    if cur and r["kind"] == "rs" and not r["err"]:
                        rows = []
                        while True:
                            W.command(wire.COM_STMT_FETCH, struct.pack("<II", sid, op["n"]))
                            f = yield from W.read_fetch(cols)
                            if f["err"]:
                                raise Violation("c05/error", "%s: %r" % (where, f["err"]))
                            rows += f["rows"]
                            if f["status"] & wire.ST_LAST_ROW_SENT:
                                break
                            if not f["rows"] or len(rows) > len(model[t]) + 5:
                                raise Violation("c05/row-count", "%s: cursor returns %d rows of %d without end" % (where, len(rows), len(model[t])))
                    W.command(wire.COM_STMT_CLOSE, struct.pack("<I", sid))
                if r["kind"] != "rs" or r["err"]:
                    raise Violation("c05/error", "%s: %r" % (where, r if r["kind"] != "rs" else r["err"]))
                verify(t, cols, rows, op["via"] == "text", where)
                o.probes["verified-" + op["via"]] += 1
                o.probes["cells"] += len(rows) * len(cols)
                if results[t].get("lead"):
                    o.probes["leading-nulls"] += 1
        return go

    for cl in sc["clients"]:
        w.client(script(cl), cl["net"])
    w.run(std_server(app))
    unfinished(w, "c05")
    return finish(o, w)
