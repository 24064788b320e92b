"""Independent strict implementation of the client side of the MySQL protocol.

Shares no code with mysql_mimic.  Everything a standard client relies on is
checked: framing, sequence numbers, exact packet lengths, terminators.
"""
import datetime
import hashlib
import ssl
import struct

from .bootstrap import real_datetime, real_date
from .world import RECV, Closed, Violation

MAXP = 0xFFFFFF

# capabilities
LONG_PASSWORD = 1
FOUND_ROWS = 2
LONG_FLAG = 4
CONNECT_WITH_DB = 8
ODBC = 1 << 6
IGNORE_SPACE = 1 << 8
PROTOCOL_41 = 1 << 9
INTERACTIVE = 1 << 10
SSL = 1 << 11
TRANSACTIONS = 1 << 13
SECURE_CONNECTION = 1 << 15
MULTI_STATEMENTS = 1 << 16
MULTI_RESULTS = 1 << 17
PS_MULTI_RESULTS = 1 << 18
PLUGIN_AUTH = 1 << 19
CONNECT_ATTRS = 1 << 20
LENENC_AUTH = 1 << 21
SESSION_TRACK = 1 << 23
DEPRECATE_EOF = 1 << 24
OPTIONAL_METADATA = 1 << 25
ZSTD = 1 << 26
QUERY_ATTRIBUTES = 1 << 27

BASE_CAPS = LONG_PASSWORD | PROTOCOL_41 | SECURE_CONNECTION | PLUGIN_AUTH | TRANSACTIONS

# commands
COM_QUIT, COM_INIT_DB, COM_QUERY, COM_FIELD_LIST = 1, 2, 3, 4
COM_DEBUG, COM_PING, COM_CHANGE_USER = 13, 14, 17
COM_STMT_PREPARE, COM_STMT_EXECUTE, COM_STMT_SEND_LONG_DATA = 22, 23, 24
COM_STMT_CLOSE, COM_STMT_RESET, COM_STMT_FETCH, COM_RESET_CONNECTION = 25, 26, 28, 31

# status flags
ST_CURSOR_EXISTS = 0x40
ST_LAST_ROW_SENT = 0x80

# column types
T = dict(
    DECIMAL=0, TINY=1, SHORT=2, LONG=3, FLOAT=4, DOUBLE=5, NULL=6, TIMESTAMP=7,
    LONGLONG=8, INT24=9, DATE=10, TIME=11, DATETIME=12, YEAR=13, NEWDATE=14,
    VARCHAR=15, BIT=16, BOOL=0xF4, JSON=0xF5, NEWDECIMAL=0xF6, ENUM=0xF7, SET=0xF8,
    TINY_BLOB=0xF9, MEDIUM_BLOB=0xFA, LONG_BLOB=0xFB, BLOB=0xFC, VAR_STRING=0xFD,
    STRING=0xFE, GEOMETRY=0xFF,
)
TNAME = {v: k for k, v in T.items()}
STRINGISH = {"DECIMAL", "VARCHAR", "BIT", "JSON", "NEWDECIMAL", "ENUM", "SET", "TINY_BLOB",
             "MEDIUM_BLOB", "LONG_BLOB", "BLOB", "VAR_STRING", "STRING", "GEOMETRY"}

# Python codec per MySQL character set (chosen here, not taken from the repo).
CODECS = {
    "big5": "big5", "cp850": "cp850", "koi8r": "koi8_r", "latin1": "cp1252",
    "latin2": "iso8859_2", "ascii": "ascii", "ujis": "euc_jp", "sjis": "shift_jis",
    "hebrew": "iso8859_8", "tis620": "tis_620", "euckr": "euc_kr", "gb2312": "gb2312",
    "greek": "iso8859_7", "cp1250": "cp1250", "gbk": "gbk", "latin5": "iso8859_9",
    "utf8": "utf-8", "cp866": "cp866", "macroman": "mac_roman", "cp852": "cp852",
    "latin7": "iso8859_13", "cp1251": "cp1251", "utf16": "utf-16-be", "utf16le": "utf-16-le",
    "cp1256": "cp1256", "cp1257": "cp1257", "utf32": "utf-32-be", "cp932": "cp932",
    "gb18030": "gb18030", "utf8mb4": "utf-8", "koi8u": "koi8_u", "ucs2": "utf-16-be",
    "eucjpms": "euc_jp", "macce": "mac_latin2",
}
CS_ID = dict(
    big5=1, dec8=3, cp850=4, hp8=6, koi8r=7, latin1=8, latin2=9, swe7=10, ascii=11, ujis=12,
    sjis=13, hebrew=16, tis620=18, euckr=19, koi8u=22, gb2312=24, greek=25, cp1250=26, gbk=28,
    latin5=30, armscii8=32, utf8=33, ucs2=35, cp866=36, keybcs2=37, macce=38, macroman=39,
    cp852=40, latin7=41, cp1251=51, utf16=54, utf16le=56, cp1256=57, cp1257=59, utf32=60,
    binary=63, geostd8=92, cp932=95, eucjpms=97, gb18030=248, utf8mb4=255,
)


def perr(kind, msg=""):
    raise Violation("protocol/" + kind, msg)


# ------------------------------------------------------------------ encoding
def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b"\xfc" + struct.pack("<H", n)
    if n < 1 << 24:
        return b"\xfd" + struct.pack("<I", n)[:3]
    return b"\xfe" + struct.pack("<Q", n)


def lstr(b):
    return lenenc(len(b)) + b


def frame(payload, seq=0):
    """-> (bytes, next seq)"""
    out = []
    pos = 0
    while True:
        part = payload[pos:pos + MAXP]
        out.append(struct.pack("<I", len(part))[:3] + bytes([seq & 0xFF]))
        out.append(part)
        seq = (seq + 1) & 0xFF
        pos += len(part)
        if len(part) < MAXP:
            return b"".join(out), seq


def scramble(password, nonce):
    if not password:
        return b""
    if isinstance(password, str):
        password = password.encode()
    h1 = hashlib.sha1(password).digest()
    h2 = hashlib.sha1(h1).digest()
    h3 = hashlib.sha1(nonce + h2).digest()
    return bytes(a ^ b for a, b in zip(h1, h3))


# ------------------------------------------------------------------ decoding
class R:
    """Strict reader over one payload."""

    def __init__(self, b, what):
        self.b = b
        self.p = 0
        self.what = what

    def left(self):
        return len(self.b) - self.p

    def fix(self, n):
        if self.left() < n:
            perr("short", "%s: wanted %d bytes, %d left in %r" % (self.what, n, self.left(), self.b[:80]))
        v = self.b[self.p:self.p + n]
        self.p += n
        return bytes(v)

    def u(self, n):
        return int.from_bytes(self.fix(n), "little")

    def nul(self):
        i = self.b.find(b"\0", self.p)
        if i < 0:
            perr("no-nul", "%s: no terminator" % self.what)
        v = self.b[self.p:i]
        self.p = i + 1
        return bytes(v)

    def len(self):
        b0 = self.u(1)
        if b0 < 0xFB:
            return b0
        if b0 == 0xFC:
            return self.u(2)
        if b0 == 0xFD:
            return self.u(3)
        if b0 == 0xFE:
            return self.u(8)
        perr("lenenc", "%s: bad length byte %#x" % (self.what, b0))

    def lstr(self):
        return self.fix(self.len())

    def rest(self):
        v = self.b[self.p:]
        self.p = len(self.b)
        return bytes(v)

    def end(self):
        if self.left():
            perr("trailing", "%s: %d extra bytes %r" % (self.what, self.left(), self.b[self.p:self.p + 40]))


def parse_handshake(b):
    r = R(b, "handshake")
    h = {}
    if r.u(1) != 10:
        perr("handshake-version")
    h["version"] = r.nul()
    h["id"] = r.u(4)
    p1 = r.fix(8)
    if r.u(1) != 0:
        perr("handshake-filler")
    caps = r.u(2)
    h["charset"] = r.u(1)
    h["status"] = r.u(2)
    caps |= r.u(2) << 16
    h["caps"] = caps
    alen = r.u(1)
    r.fix(10)
    p2 = b""
    if caps & SECURE_CONNECTION:
        p2 = r.fix(max(13, alen - 8))
    h["plugin"] = None
    if caps & PLUGIN_AUTH:
        h["plugin"] = r.nul().decode()
    r.end()
    h["data"] = p1 + p2
    h["alen"] = alen
    return h


def parse_err(b, caps, what="ERR"):
    r = R(b, what)
    if r.u(1) != 0xFF:
        perr("not-err", repr(b[:40]))
    code = r.u(2)
    state = None
    if caps & PROTOCOL_41:
        if r.left() and r.b[r.p:r.p + 1] == b"#":
            r.fix(1)
            state = r.fix(5)
        elif caps & (1 << 63):
            pass
        else:
            perr("err-sqlstate", "ERR without sqlstate: %r" % b[:40])
    return {"kind": "err", "code": code, "state": state, "msg": r.rest()}


def parse_ok(b, caps, header=0):
    r = R(b, "OK")
    h = r.u(1)
    if h != header:
        perr("ok-header", "%#x" % h)
    d = {"kind": "ok", "affected": r.len(), "insert_id": r.len(), "status": 0, "warnings": 0}
    if caps & PROTOCOL_41:
        d["status"] = r.u(2)
        d["warnings"] = r.u(2)
    elif caps & TRANSACTIONS:
        d["status"] = r.u(2)
    if d["status"] & 8:
        perr("more-results", "a terminator announces another result set that nobody sends")
    info = r.rest()
    d["info"] = info
    return d


def parse_eof(b, caps):
    r = R(b, "EOF")
    if r.u(1) != 0xFE:
        perr("eof-header")
    d = {"kind": "eof", "status": 0, "warnings": 0}
    if caps & PROTOCOL_41:
        d["warnings"] = r.u(2)
        d["status"] = r.u(2)
        if d["status"] & 8:
            perr("more-results", "a terminator announces another result set that nobody sends")
    r.end()
    return d


def plain(d):
    """Nothing but the answer to an execution with a cursor, or to a fetch, speaks of cursors."""
    if d["status"] & 0xC0:
        perr("cursor-status", "status %#x where no cursor is involved: %r" % (d["status"], d))
    return d


def parse_coldef(b, field_list=False):
    r = R(b, "column definition")
    d = {}
    d["catalog"] = r.lstr()
    if d["catalog"] != b"def":
        perr("coldef-catalog", repr(d["catalog"]))
    for k in ("schema", "table", "org_table", "name", "org_name"):
        d[k] = r.lstr()
    if r.len() != 0x0C:
        perr("coldef-fixed-length")
    d["charset"] = r.u(2)
    d["length"] = r.u(4)
    d["type"] = r.u(1)
    d["flags"] = r.u(2)
    d["decimals"] = r.u(1)
    if r.u(2) != 0:
        perr("coldef-filler")
    if field_list:
        # default value: lenenc string (NULL is 0xfb; an empty string here is "none")
        if r.left() and r.b[r.p] == 0xFB:
            r.fix(1)
            d["default"] = None
        else:
            d["default"] = r.lstr()
    r.end()
    return d


def parse_text_row(b, ncols):
    r = R(b, "text row")
    row = []
    for _ in range(ncols):
        if r.left() and r.b[r.p] == 0xFB:
            r.fix(1)
            row.append(None)
        else:
            row.append(r.lstr())
    r.end()
    return row


def parse_binary_row(b, cols):
    """Cells decoded per column type (bytes for string types)."""
    r = R(b, "binary row")
    if r.u(1) != 0:
        perr("binrow-header")
    n = len(cols)
    bm = r.fix((n + 9) // 8)
    row = []
    for i, c in enumerate(cols):
        if bm[(i + 2) // 8] >> ((i + 2) % 8) & 1:
            row.append(None)
        else:
            row.append(_bin_value(r, c["type"]))
    # unused bits must be zero
    used = n + 2
    for j in range(len(bm) * 8):
        if (j < 2 or j >= used) and bm[j // 8] >> (j % 8) & 1:
            perr("binrow-bitmap", "stray null bit %d" % j)
    r.end()
    return row


def _bin_value(r, t):
    name = TNAME.get(t)
    if name in STRINGISH:
        return r.lstr()
    if name in ("TINY", "BOOL"):
        return struct.unpack("<b", r.fix(1))[0]
    if name in ("SHORT", "YEAR"):
        return struct.unpack("<h", r.fix(2))[0]
    if name in ("LONG", "INT24"):
        return struct.unpack("<i", r.fix(4))[0]
    if name == "LONGLONG":
        return struct.unpack("<q", r.fix(8))[0]
    if name == "FLOAT":
        return struct.unpack("<f", r.fix(4))[0]
    if name == "DOUBLE":
        return struct.unpack("<d", r.fix(8))[0]
    if name in ("DATE", "DATETIME", "TIMESTAMP", "NEWDATE"):
        n = r.u(1)
        if n not in (0, 4, 7, 11):
            perr("bin-date-length", str(n))
        v = [0] * 7
        if n >= 4:
            v[0:3] = [r.u(2), r.u(1), r.u(1)]
        if n >= 7:
            v[3:6] = [r.u(1), r.u(1), r.u(1)]
        if n >= 11:
            v[6] = r.u(4)
        return ("date", tuple(v))
    if name == "TIME":
        n = r.u(1)
        if n not in (0, 8, 12):
            perr("bin-time-length", str(n))
        if n == 0:
            return ("time", datetime.timedelta(0))
        neg = r.u(1)
        if neg not in (0, 1):
            perr("bin-time-sign", str(neg))
        days = r.u(4)
        h, m, s = r.u(1), r.u(1), r.u(1)
        us = r.u(4) if n == 12 else 0
        if h > 23 or m > 59 or s > 59 or us > 999999:
            perr("bin-time-range", "%d:%d:%d.%d" % (h, m, s, us))
        td = datetime.timedelta(days=days, hours=h, minutes=m, seconds=s, microseconds=us)
        return ("time", -td if neg else td)
    perr("bin-type", "no client can decode type %#x (%s)" % (t, name))


def text_time(b):
    """MySQL text form of TIME: [-]H+:MM:SS[.ffffff] -> timedelta, or None."""
    s = b.decode("ascii", "replace")
    neg = s.startswith("-")
    if neg:
        s = s[1:]
    try:
        hms, _, frac = s.partition(".")
        h, m, sec = hms.split(":")
        if not (h.isdigit() and m.isdigit() and sec.isdigit() and len(m) == 2 and len(sec) == 2):
            return None
        if int(m) > 59 or int(sec) > 59:
            return None
        if frac and (not frac.isdigit() or len(frac) > 6):
            return None
        td = datetime.timedelta(hours=int(h), minutes=int(m), seconds=int(sec),
                                microseconds=int((frac + "000000")[:6]) if frac else 0)
    except ValueError:
        return None
    return -td if neg else td


def text_datetime(b):
    s = b.decode("ascii", "replace")
    try:
        if len(s) == 10:
            return tuple(int(x) for x in s.split("-")) + (0, 0, 0, 0)
        d, t = s[:10], s[11:]
        if s[10] not in " T":
            return None
        hms, _, frac = t.partition(".")
        y = tuple(int(x) for x in d.split("-"))
        z = tuple(int(x) for x in hms.split(":"))
        if len(z) != 3 or len(y) != 3:
            return None
        return y + z + (int((frac + "000000")[:6]) if frac else 0,)
    except (ValueError, IndexError):
        return None


# ------------------------------------------------------------------ TLS
class TLS:
    """TLS client over memory buffers."""

    def __init__(self, client, ctx):
        self.c = client
        self.inb = ssl.MemoryBIO()
        self.outb = ssl.MemoryBIO()
        self.obj = ctx.wrap_bio(self.inb, self.outb, server_hostname=None)
        self.up = False
        self.failed = None

    def start(self):
        self._hs()

    def _flush(self):
        d = self.outb.read()
        if d:
            self.c.send_raw(d)

    def _hs(self):
        try:
            self.obj.do_handshake()
            self.up = True
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLError as e:
            self.failed = str(e)
        self._flush()

    def feed(self, data):
        self.inb.write(data)
        if self.failed:
            return
        if not self.up:
            self._hs()
            if not self.up:
                return
        while True:
            try:
                d = self.obj.read(65536)
            except ssl.SSLWantReadError:
                break
            except ssl.SSLError as e:
                self.failed = str(e)
                break
            if not d:
                break
            self.c.inbuf += d
        self._flush()

    def write(self, data):
        if self.failed or not self.up:
            return
        mv = memoryview(data)
        while mv:
            n = self.obj.write(mv[:16384])
            mv = mv[n:]
        self._flush()


# ------------------------------------------------------------------ connection
class Wire:
    """Protocol engine of one client; methods are generators for the script."""

    def __init__(self, client):
        self.c = client
        self.seq = 0
        self.caps = 0
        self.hs = None
        self.cs = "utf8mb4"
        self.packets_in = 0
        self.last_rs = None
        self.lax = False

    # -- bytes
    def need(self, n):
        c = self.c
        while len(c.inbuf) < n:
            if c.eof or c.rst:
                raise Closed("%d of %d bytes" % (len(c.inbuf), n))
            yield RECV

    def read_packet(self, check_seq=True):
        c = self.c
        out = None
        while True:
            yield from self.need(4)
            n = int.from_bytes(c.inbuf[:3], "little")
            s = c.inbuf[3]
            if check_seq and not self.lax and s != self.seq:
                perr("sequence", "expected %d, got %d (len %d, starts %r)" % (self.seq, s, n, bytes(c.inbuf[4:24])))
            yield from self.need(4 + n)
            part = bytes(c.inbuf[4:4 + n])
            del c.inbuf[:4 + n]
            self.seq = (s + 1) & 0xFF
            self.packets_in += 1
            out = part if out is None else out + part
            if n < MAXP:
                return out

    def send_packet(self, payload, seq=None):
        if seq is not None:
            self.seq = seq
        b, self.seq = frame(payload, self.seq)
        self.c.send(b)
        return b

    def clean(self, where=""):
        """No byte beyond the prescribed responses."""
        if self.c.inbuf and not self.lax:
            perr("unsolicited", "%s: %d bytes nobody asked for: %r" % (where, len(self.c.inbuf), bytes(self.c.inbuf[:60])))

    def command(self, code, body=b"", where=None):
        self.clean(where or "before command %d" % code)
        self.seq = 0
        return self.send_packet(bytes([code]) + body)

    # -- connection phase
    def read_handshake(self):
        self.seq = 0
        p = yield from self.read_packet()
        if p[:1] == b"\xff":
            return parse_err(p, 0 if p[3:4] != b"#" else PROTOCOL_41)
        self.hs = parse_handshake(p)
        self.hs["kind"] = "handshake"
        return self.hs

    def response41(self, user=b"root", auth=b"", db=None, plugin=b"mysql_native_password", attrs=None,
                   caps=BASE_CAPS, charset=255, max_packet=1 << 24, zstd=None):
        """HandshakeResponse41 payload for the intersection of caps."""
        eff = caps & self.hs["caps"]
        if db is None:
            caps &= ~CONNECT_WITH_DB
            eff &= ~CONNECT_WITH_DB
        self.caps = eff
        out = [struct.pack("<IIB", caps, max_packet, charset), b"\0" * 23, user, b"\0"]
        if eff & LENENC_AUTH:
            out.append(lstr(auth))
        else:
            out.append(bytes([len(auth)]) + auth)
        if eff & CONNECT_WITH_DB:
            out.append(db + b"\0")
        if eff & PLUGIN_AUTH:
            out.append((plugin or b"") + b"\0")
        if eff & CONNECT_ATTRS:
            body = b"".join(lstr(k) + lstr(v) for k, v in (attrs or {}).items())
            out.append(lstr(body))
        return b"".join(out)

    def ssl_request(self, caps, charset=255, max_packet=1 << 24):
        return struct.pack("<IIB", caps | SSL, max_packet, charset) + b"\0" * 23

    def finish_auth(self, respond):
        """Read until OK/ERR.  respond(kind, plugin, data) -> bytes or None."""
        while True:
            p = yield from self.read_packet()
            h = p[:1]
            if h == b"\0":
                return plain(parse_ok(p, self.caps))
            if h == b"\xff":
                # what a server can't parse may not have told it the capabilities
                return parse_err(p, self.caps | (1 << 63 if self.lax else 0))
            if h == b"\xfe":
                r = R(p, "auth switch")
                r.fix(1)
                name = r.nul()
                data = r.rest()
                a = respond("switch", name.decode(), data)
            elif h == b"\x01":
                a = respond("more", None, p[1:])
            else:
                perr("auth-packet", repr(p[:40]))
            if a is None:
                return {"kind": "gave-up"}
            self.send_packet(a)

    # -- responses
    def _term(self, p, caps):
        """None, or the terminator packet of a result set."""
        if p[:1] != b"\xfe":
            return None
        if caps & DEPRECATE_EOF:
            if len(p) < MAXP:
                return parse_ok(p, caps, 0xFE)
            return None
        if len(p) < 9:
            return parse_eof(p, caps)
        return None

    def read_ok_err(self):
        p = yield from self.read_packet()
        if p[:1] == b"\0":
            return plain(parse_ok(p, self.caps))
        if p[:1] == b"\xff":
            return parse_err(p, self.caps)
        perr("ok-or-err", "got %r" % p[:40])

    def read_coldefs(self, n, field_list=False):
        cols = []
        for _ in range(n):
            p = yield from self.read_packet()
            if p[:1] == b"\xff" and p[1:2] != b"def"[:1]:
                return cols, parse_err(p, self.caps)
            cols.append(parse_coldef(p, field_list))
        return cols, None

    def read_resultset(self, binary=False, cursor=False, on_row=None):
        """OK | ERR | result set.  Follows exactly what a client library does."""
        caps = self.caps
        p = yield from self.read_packet()
        if p[:1] == b"\0":
            return plain(parse_ok(p, caps))
        if p[:1] == b"\xff":
            return parse_err(p, caps)
        if p[:1] == b"\xfb":
            perr("local-infile")
        n = self._column_count(p)
        if n == 0:
            perr("zero-columns")
        cols, err = yield from self.read_coldefs(n)
        rs = {"kind": "rs", "cols": cols, "rows": [], "err": None, "term": None, "nrows": 0}
        self.last_rs = rs
        if err:
            rs["err"] = err
            return rs
        if cursor:
            # metadata is followed by its terminator, which carries CURSOR_EXISTS
            p = yield from self.read_packet()
            if p[:1] == b"\xff":
                rs["err"] = parse_err(p, caps)
                return rs
            t = self._term(p, caps)
            if t is None:
                perr("cursor-terminator", repr(p[:40]))
            rs["term"] = t
            return rs
        if not caps & DEPRECATE_EOF:
            p = yield from self.read_packet()
            if p[:1] == b"\xff":
                rs["err"] = parse_err(p, caps)
                return rs
            if p[:1] != b"\xfe" or len(p) >= 9:
                perr("metadata-eof", "expected EOF after columns, got %r" % p[:40])
            rs["meta_eof"] = plain(parse_eof(p, caps))
        while True:
            p = yield from self.read_packet()
            if p[:1] == b"\xff":
                rs["err"] = parse_err(p, caps)
                return rs
            t = self._term(p, caps)
            if t is not None:
                rs["term"] = plain(t)
                return rs
            row = parse_binary_row(p, cols) if binary else parse_text_row(p, n)
            rs["nrows"] += 1
            if on_row is not None:
                on_row(row)
            else:
                rs["rows"].append(row)

    def _column_count(self, p):
        if self.caps & OPTIONAL_METADATA:
            # the documentation has the marker first, the reference server last
            for q in (p[1:] if p[:1] == b"\1" else None, p[:-1] if p[-1:] == b"\1" else None):
                if q:
                    r = R(q, "column count")
                    try:
                        n = r.len()
                        r.end()
                        return n
                    except Violation:
                        pass
            perr("no-metadata-marker", "column count %r under CLIENT_OPTIONAL_RESULTSET_METADATA" % p[:20])
        r = R(p, "column count")
        n = r.len()
        r.end()
        return n

    def read_prepare(self):
        p = yield from self.read_packet()
        if p[:1] == b"\xff":
            return parse_err(p, self.caps)
        r = R(p, "prepare OK")
        if r.u(1) != 0:
            perr("prepare-header", repr(p[:40]))
        d = {"kind": "prep", "id": r.u(4), "ncols": r.u(2), "nparams": r.u(2)}
        if r.u(1) != 0:
            perr("prepare-filler")
        d["warnings"] = r.u(2)
        if self.caps & OPTIONAL_METADATA and r.u(1) != 1:
            perr("no-metadata-marker", repr(p[:20]))
        r.end()
        for k in ("nparams", "ncols"):
            if d[k]:
                _, err = yield from self.read_coldefs(d[k])
                if err:
                    perr("prepare-err-in-block")
                if not self.caps & DEPRECATE_EOF:
                    p = yield from self.read_packet()
                    if p[:1] != b"\xfe":
                        perr("prepare-eof", repr(p[:40]))
                    plain(parse_eof(p, self.caps))
        return d

    def read_fetch(self, cols):
        rows = []
        while True:
            p = yield from self.read_packet()
            if p[:1] == b"\xff":
                return {"kind": "fetch", "rows": rows, "err": parse_err(p, self.caps), "status": 0}
            t = self._term(p, self.caps)
            if t is not None:
                return {"kind": "fetch", "rows": rows, "err": None, "status": t["status"]}
            rows.append(parse_binary_row(p, cols))

    def read_field_list(self):
        cols = []
        while True:
            p = yield from self.read_packet()
            if p[:1] == b"\xff":
                return {"kind": "fields", "cols": cols, "err": parse_err(p, self.caps)}
            t = self._term(p, self.caps)
            if t is not None:
                return {"kind": "fields", "cols": cols, "err": None}
            cols.append(parse_coldef(p, True))

    # -- command bodies
    def query_body(self, sql_bytes, attrs=None):
        """attrs: list of (name bytes, type byte, unsigned, value bytes or None)"""
        out = b""
        if self.caps & QUERY_ATTRIBUTES:
            attrs = attrs or []
            out = lenenc(len(attrs)) + lenenc(1)
            if attrs:
                out += params_block(attrs, names=True)
        return out + sql_bytes

    def execute_body(self, stmt_id, params=(), attrs=(), cursor=False, long_idx=(), force_count=False, flags=None, num_params=None, bound=True):
        """params/attrs: list of (name, type, unsigned, value)"""
        names = bool(self.caps & QUERY_ATTRIBUTES)
        fl = 1 if cursor else 0
        allp = list(params)
        if names and (attrs or force_count):
            fl |= 8
            allp += list(attrs)
        if flags is not None:
            fl = flags
        out = struct.pack("<IBI", stmt_id, fl, 1)
        np = len(params) if num_params is None else num_params
        if np > 0 or (names and fl & 8):
            if names:
                out += lenenc(len(allp))
        if allp:
            out += params_block(allp, names=names, long_idx=long_idx, bound=bound)
        return out

    def change_user_body(self, user, auth, db=b"", charset=None, plugin=None, attrs=None):
        out = user + b"\0"
        if self.caps & SECURE_CONNECTION:
            out += bytes([len(auth)]) + auth
        else:
            out += auth + b"\0"
        out += db + b"\0"
        if charset is not None:
            out += struct.pack("<H", charset)
            if self.caps & PLUGIN_AUTH:
                out += (plugin or b"") + b"\0"
            if self.caps & CONNECT_ATTRS:
                body = b"".join(lstr(k) + lstr(v) for k, v in (attrs or {}).items())
                out += lstr(body)
        return out


def params_block(params, names, long_idx=(), bound=True):
    n = len(params)
    bm = bytearray((n + 7) // 8)
    types = b""
    vals = b""
    for i, (name, typ, uns, val) in enumerate(params):
        types += bytes([typ, 0x80 if uns else 0])
        if names:
            types += lstr(name or b"")
        if i in long_idx:
            continue
        if val is None:
            bm[i // 8] |= 1 << (i % 8)
        else:
            vals += val
    return bytes(bm) + (b"\x01" + types if bound else b"\0") + vals
