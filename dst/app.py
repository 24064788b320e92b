"""The simulated application: a table-driven Session that records every call."""
import asyncio

from .values import dec
from .world import Hang

import mysql_mimic
from mysql_mimic import MysqlServer, Session, ResultColumn, ResultSet
from mysql_mimic.auth import (AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin,
                              NoLoginAuthPlugin, User)
from mysql_mimic.charset import CharacterSet
from mysql_mimic.control import LocalControl
from mysql_mimic.errors import MysqlError, ErrorCode
from mysql_mimic.session import BaseSession
from mysql_mimic.types import ColumnType, Capabilities
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES, KillKind
from mysql_mimic.variables import SessionVariables, GlobalVariables
from sqlglot import expressions as exp


class AppError(Exception):
    pass


EXC = {
    "mysql": lambda: MysqlError("app refuses", ErrorCode.NOT_SUPPORTED_YET),
    "mysql_unicode": lambda: MysqlError("app \u2603 \u00e9 refuses", ErrorCode.UNKNOWN_ERROR),
    "value": lambda: ValueError("app value error"),
    "key": lambda: KeyError("app key"),
    "assert": lambda: AssertionError(),
    "os": lambda: OSError(5, "app io error"),
    "timeout": lambda: asyncio.TimeoutError(),
    "runtime": lambda: RuntimeError("boom"),
    "stopiter": lambda: StopIteration("x"),
    "stopasync": lambda: StopAsyncIteration("x"),
    "eof": lambda: EOFError("x"),
    "incomplete": lambda: asyncio.IncompleteReadError(b"abc", 10),
    "connreset": lambda: ConnectionResetError(104, "backend connection reset"),
    "recursion": lambda: RecursionError("deep"),
    "memory": lambda: MemoryError(),
    "cancelled": lambda: asyncio.CancelledError(),
}


class Source:
    """Instrumented row source."""

    def __init__(self, app, sess, name, spec):
        self.app = app
        self.name = name
        self.spec = spec
        self.pulled = 0
        self.closed = False
        self.world = app.world
        self.cid = sess.cid
        rows = spec.get("rows") or []
        self.rows = [tuple(dec(v) for v in r) for r in rows]
        self.repeat = spec.get("repeat", 1)
        self.total = spec.get("total")
        if self.total is None:
            self.total = len(self.rows) * self.repeat
        self.cap = spec.get("cap", 2_000_000)
        self.fail_at = spec.get("fail_at")
        self.exc = spec.get("exc", "value")
        self.gates = set(spec.get("gates") or [])
        self.seqcol = spec.get("seqcol", False)
        self.yield_every = spec.get("yield_every", 0)
        self.sleep_at = set(spec.get("sleep_at") or [])
        self.end_exc = None
        app.sources.append(self)

    def row(self, i):
        self.pulled += 1
        if self.pulled > self.cap:
            raise Hang("row source pulled past its cap (%d rows)" % self.cap)
        if self.app.on_pull is not None:
            self.app.on_pull(self)
        if self.fail_at is not None and i >= self.fail_at:
            self.app.world.count("app_row_error")
            raise EXC[self.exc]()
        r = self.rows[i % len(self.rows)]
        if self.seqcol:
            r = (i,) + r[1:]
        return r

    def count(self):
        # a failing source fails also after its last row
        return self.total if self.fail_at is None else max(self.total, self.fail_at + 1)

    def gen(self):
        try:
            i = 0
            while self.total < 0 or i < self.count():
                yield self.row(i)
                i += 1
        finally:
            self.closed = True

    async def agen(self):
        try:
            i = 0
            while self.total < 0 or i < self.count():
                if i in self.gates:
                    await self.world.gate("%s.row%d" % (self.name, i), self.cid)
                if i in self.sleep_at:
                    await asyncio.sleep(0.5)
                if self.yield_every and i % self.yield_every == 0:
                    await asyncio.sleep(0)
                yield self.row(i)
                i += 1
        finally:
            self.closed = True

    def make(self):
        kind = self.spec.get("src", "list")
        if kind in ("list", "tuple", "lists"):
            if self.fail_at is not None or self.total < 0 or self.total > 100000:
                kind = "gen"
            elif kind == "list":
                return [self.row(i) for i in range(self.total)]
        if kind == "tuple":
            return tuple(self.row(i) for i in range(self.total))
        if kind == "lists":
            return [list(self.row(i)) for i in range(self.total)]
        if kind == "gen":
            return self.gen()
        if kind == "iterable":
            return SyncIterable(self)
        if kind == "agen":
            return self.agen()
        if kind == "aiter":
            return AsyncIter(self.agen())
        if kind == "aiterable":
            return AsyncIterable(self)
        raise ValueError(kind)


class SyncIterable:
    def __init__(self, s):
        self.s = s

    def __iter__(self):
        return self.s.gen()


class AsyncIter:
    """An async iterator that is not an async generator."""

    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self

    def __anext__(self):
        return self.g.__anext__()


class AsyncIterable:
    def __init__(self, s):
        self.s = s

    def __aiter__(self):
        return self.s.agen()


def make_cols(cols):
    out = []
    for c in cols:
        if c.get("type") is None:
            out.append(c["name"])
        else:
            kw = {}
            if c.get("cs"):
                kw["character_set"] = CharacterSet[c["cs"]]
            out.append(ResultColumn(c["name"], ColumnType[c["type"]], **kw))
    return out


class App:
    """Behaviour shared by all sessions of one world.

    spec = {"results": {table: result spec}, "schema": mapping,
            "faults": [[callback, nth, exc]], "gates": [callback...],
            "default": result spec}
    """

    def __init__(self, world, spec=None):
        self.world = world
        self.spec = spec or {}
        self.results = self.spec.get("results", {})
        self.log = []
        self.sessions = []
        self.sources = []
        self.on_pull = None
        self.on_query = None
        self.on_kill = None
        self.faults = {}
        for cb, nth, kind in self.spec.get("faults", []):
            self.faults[(cb, nth)] = kind
        self.cbcount = {}
        self.gated = set(self.spec.get("gates", []))
        self.answer_fn = None
        self.schema_fn = None

    def rec(self, sess, what, *a):
        self.log.append((sess.sid if sess else -1, what) + a)
        self.world.note("app", sess.sid if sess else -1, what)

    async def enter(self, sess, cb):
        n = self.cbcount.get(cb, 0)
        self.cbcount[cb] = n + 1
        if cb in self.gated:
            await self.world.gate("app.%s.%d" % (cb, n), sess.cid if sess else -1)
        f = self.faults.get((cb, n))
        if f:
            self.world.count("app_exc_" + cb)
            self.rec(sess, "raise", cb, f)
            raise EXC[f]()

    def factory(self, cls=None):
        cls = cls or AppSession

        def make():
            n = self.cbcount.get("factory", 0)
            self.cbcount["factory"] = n + 1
            f = self.faults.get(("factory", n))
            if f:
                self.world.count("app_exc_factory")
                raise EXC[f]()
            s = cls(self)
            self.sessions.append(s)
            return s

        async def amake():
            await self.enter(None, "factory")
            s = cls(self)
            self.sessions.append(s)
            return s

        return amake if self.spec.get("async_factory") else make

    def events(self, sid):
        return [e[1:] for e in self.log if e[0] == sid]

    async def answer(self, sess, name, expression, sql, attrs):
        spec = self.results.get(name)
        if spec is None:
            spec = self.spec.get("default") or {"kind": "none"}
        if spec.get("gate"):
            await self.world.gate("query.%s" % name, sess.cid)
        if spec.get("sleep"):
            await asyncio.sleep(spec["sleep"])
        if spec.get("swallow"):
            # an application that swallows cancellation once, then goes on
            try:
                await self.world.gate("swallow.%s" % name, sess.cid)
            except asyncio.CancelledError:
                self.world.count("app_swallowed_cancel")
                await asyncio.sleep(0)
        if spec.get("convert"):
            try:
                await self.world.gate("convert.%s" % name, sess.cid)
            except asyncio.CancelledError:
                self.world.count("app_converted_cancel")
                raise MysqlError("backend aborted")
        return self.build(sess, name, spec)

    def build(self, sess, name, spec):
        kind = spec.get("kind", "rows")
        if kind == "none":
            return None
        if kind == "empty":
            return [], []
        if kind == "raise":
            self.world.count("app_exc_query")
            raise EXC[spec["exc"]]()
        if kind == "bad":
            return {"not": "a result"} if spec.get("n", 0) == 0 else ([],)
        src = Source(self, sess, name, spec)
        cols = make_cols(spec["cols"])
        rows = src.make()
        if spec.get("resultset"):
            return ResultSet(rows=rows, columns=[
                c if isinstance(c, ResultColumn) else ResultColumn(c, ColumnType.VARCHAR) for c in cols])
        return rows, cols


class AppSession(Session):
    def __init__(self, app):
        super().__init__()
        self.app = app
        self.sid = len(app.sessions)
        self.cid = -1
        self.inits = 0
        self.closes = 0

    async def init(self, connection):
        self.app.rec(self, "init", connection.connection_id)
        self.cid = connection.connection_id
        await self.app.enter(self, "init")
        await super().init(connection)
        self.inits += 1
        self.app.rec(self, "init-done")

    async def close(self):
        self.closes += 1
        self.app.rec(self, "close")
        await self.app.enter(self, "close")
        await super().close()
        self.app.rec(self, "close-done")

    async def reset(self):
        self.app.rec(self, "reset")
        await self.app.enter(self, "reset")
        await super().reset()

    async def use(self, database):
        self.app.rec(self, "use", database)
        await self.app.enter(self, "use")
        await super().use(database)

    async def handle_query(self, sql, attrs):
        self.app.rec(self, "handle_query", sql, dict(attrs), self.username, self.database)
        await self.app.enter(self, "handle_query")
        return await super().handle_query(sql, attrs)

    async def schema(self):
        self.app.rec(self, "schema")
        await self.app.enter(self, "schema")
        if self.app.schema_fn is not None:
            return self.app.schema_fn(self)
        return self.app.spec.get("schema", {})

    async def query(self, expression, sql, attrs):
        t = expression.find(exp.Table)
        name = t.name if t is not None else ""
        self.app.rec(self, "query", sql, dict(attrs), self.username, self.database, name)
        if self.app.on_query is not None:
            self.app.on_query(self, expression, sql, attrs)
        await self.app.enter(self, "query")
        if self.app.answer_fn is not None:
            return await self.app.answer_fn(self, expression, sql, attrs)
        return await self.app.answer(self, name, expression, sql, attrs)


class RawSession(AppSession):
    """Answers handle_query itself, without parsing: the application sees raw SQL."""

    async def handle_query(self, sql, attrs):
        self.app.rec(self, "handle_query", sql, dict(attrs), self.username, self.database)
        await self.app.enter(self, "handle_query")
        if self.app.answer_fn is not None:
            return await self.app.answer_fn(self, None, sql, attrs)
        return None


class SimIdentity(IdentityProvider):
    """users: {name: {"plugin":..., "password":..., "old":..., "clear":{pw: identity}}}"""

    def __init__(self, app, users, plugins):
        self.app = app
        self.users = users
        self._plugins = plugins

    def get_plugins(self):
        return self._plugins

    async def get_user(self, username):
        await self.app.enter(None, "get_user")
        u = self.users.get(username)
        if u is None:
            return None
        return User(
            name=u.get("name", username),
            auth_plugin=u.get("plugin"),
            auth_string=NativePasswordAuthPlugin.create_auth_string(u["password"]) if u.get("password") else u.get("auth_string"),
            old_auth_string=NativePasswordAuthPlugin.create_auth_string(u["old"]) if u.get("old") else u.get("old_auth_string"),
        )


class RecordingControl(LocalControl):
    """LocalControl that records add/remove, and can be told to fail."""

    def __init__(self, app, server_id=None):
        super().__init__(server_id=server_id)
        self.app = app
        self.live = {}
        self.history = []

    async def add(self, connection):
        await self.app.enter(None, "control_add")
        cid = await super().add(connection)
        self.history.append(("add", cid))
        self.app.world.note("control.add", len(self.live))
        self.live[cid] = connection
        return cid

    async def remove(self, connection_id):
        self.history.append(("remove", connection_id))
        self.live.pop(connection_id, None)
        await super().remove(connection_id)

    async def kill(self, connection_id, kind=KillKind.CONNECTION):
        self.history.append(("kill", connection_id, kind.name))
        if self.app.on_kill is not None:
            self.app.on_kill(connection_id, kind.name)
        await self.app.enter(None, "control_kill")
        await super().kill(connection_id, kind)
