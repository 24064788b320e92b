From af4336f757919ba9e6edbebbb1f76a9703c4a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 01/33] fix: end the connection when authentication fails

A failed handshake or COM_CHANGE_USER was answered with ERR, but the session
was then initialised (or reset) and the client's commands were served.
---
 mysql_mimic/connection.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..b0d1baa 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -33,6 +33,10 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 logger = logging.getLogger(__name__)
 
 
+class AuthenticationFailed(MysqlError):
+    """The client didn't prove its identity, so nothing may be served anymore"""
+
+
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
 
@@ -96,6 +100,9 @@ class Connection:
         try:
             await self.connection_phase()
             await self.session.init(self)
+        except AuthenticationFailed as e:
+            await self.stream.write(self.error(msg=e.msg, code=e.code))
+            return
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
             raise
@@ -167,9 +174,20 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
+        try:
+            await self.change_user(data)
+        except MysqlError as e:
+            raise AuthenticationFailed(e.msg, e.code) from e
+        except Exception as e:
+            logger.exception(e)
+            raise AuthenticationFailed(str(e)) from e
+        await self.stream.write(self.ok())
+
+    async def change_user(self, data: bytes) -> None:
         com_change_user = packets.parse_com_change_user(
             capabilities=self.capabilities,
             client_charset=self.client_charset,
@@ -208,13 +226,10 @@ class Connection:
         user = await self.identity_provider.get_user(username)
 
         if not user:
-            await self.stream.write(
-                self.error(
-                    msg=f"User {username} does not exist",
-                    code=ErrorCode.USER_DOES_NOT_EXIST,
-                )
+            raise AuthenticationFailed(
+                f"User {username} does not exist",
+                ErrorCode.USER_DOES_NOT_EXIST,
             )
-            return
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -271,18 +286,15 @@ class Connection:
 
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
         else:
             logger.info(
                 "Access denied for user '%s' with plugin '%s'",
                 auth_info.user.name,
                 user_plugin.name,
             )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            raise AuthenticationFailed(
+                decision.msg or f"Access denied for user {auth_info.user.name}",
+                ErrorCode.ACCESS_DENIED_ERROR,
             )
 
     async def command_phase(self) -> None:
@@ -331,6 +343,9 @@ class Connection:
                         ErrorCode.UNKNOWN_COM_ERROR,
                     )
 
+            except AuthenticationFailed as e:
+                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                return
             except MysqlError as e:
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
-- 
2.43.0


From 0c0af6f15d571cf4fcb881686118e812d315ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 02/33] fix: initialise the session before confirming the login

An exception of session.init() was sent as an unsolicited ERR after the OK.
---
 mysql_mimic/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index b0d1baa..25b3afb 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -108,6 +108,8 @@ class Connection:
             raise
 
         try:
+            await self.stream.write(self.ok())
+            self.stream.reset_seq()
             await self.command_phase()
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
@@ -174,8 +176,6 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
-        await self.stream.write(self.ok())
-        self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
         try:
-- 
2.43.0


From 4e426d9dc16243e91c097959992d122a93cab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 03/33] fix: don't share the write buffer with the transport

asyncio keeps a reference to what the socket didn't accept. Clearing the
buffer lost, duplicated or reordered packets of slow clients, or raised
BufferError.
---
 mysql_mimic/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..d547e8d 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -71,7 +71,8 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport may hold on to what it can't send yet, so it gets its own copy
+            self.writer.write(bytes(self._buffer))
             self._buffer.clear()
         await self.writer.drain()
 
-- 
2.43.0


From 66641a356d41179c35a524eef1ef195e2b4446d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 04/33] fix: read packet headers completely

A header split over two network reads was unpacked half-read.
---
 mysql_mimic/stream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index d547e8d..d10ef83 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,9 +27,12 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
+            try:
+                header = await self.reader.readexactly(4)
+            except asyncio.IncompleteReadError as e:
+                raise ConnectionClosed() from e
 
-            if not header:
+            if len(header) < 4:
                 raise ConnectionClosed()
 
             i = struct.unpack("<I", header)[0]
-- 
2.43.0


From 2a23a839a43b5bf8a5d3aaa6bf8d306b40c1aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 05/33] fix: keep TLS bytes that arrive together with the SSL
 request

They stayed in the stream reader, so the handshake stalled and they were later
taken for MySQL packets.
---
 mysql_mimic/stream.py | 46 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index d10ef83..f88cfc9 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -11,6 +11,21 @@ class ConnectionClosed(Exception):
     pass
 
 
+def _feed(protocol: asyncio.BaseProtocol, data: bytes) -> None:
+    """Give bytes to a protocol, as its transport would"""
+    if not isinstance(protocol, asyncio.BufferedProtocol):
+        protocol.data_received(data)  # type: ignore
+        return
+
+    view = memoryview(data)
+    while view:
+        buffer = memoryview(protocol.get_buffer(len(view)))  # type: ignore
+        n = min(len(buffer), len(view))
+        buffer[:n] = view[:n]
+        protocol.buffer_updated(n)
+        view = view[n:]
+
+
 class MysqlStream:
     def __init__(
         self,
@@ -86,12 +101,33 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
-        new_transport = await loop.start_tls(
-            transport=transport,
-            protocol=protocol,
-            sslcontext=ssl,
-            server_side=True,
+
+        # Bytes that arrived together with the SSL request are part of the TLS handshake
+        transport.pause_reading()
+        buffer = self.reader._buffer  # type: ignore # pylint: disable=protected-access
+        data = bytes(buffer)
+        buffer.clear()
+
+        upgrade = loop.create_task(
+            loop.start_tls(
+                transport=transport,
+                protocol=protocol,
+                sslcontext=ssl,
+                server_side=True,
+            )
         )
+        try:
+            if data:
+                # Let the TLS protocol take over the transport before feeding it
+                while transport.get_protocol() is protocol and not upgrade.done():
+                    await asyncio.sleep(0)
+                await asyncio.sleep(0)
+                if not upgrade.done():
+                    _feed(transport.get_protocol(), data)
+            new_transport = await upgrade
+        except BaseException:
+            upgrade.cancel()
+            raise
 
         # This seems to be the easiest way to wrap the socket created by asyncio
         self.writer._transport = new_transport  # type: ignore # pylint: disable=protected-access
-- 
2.43.0


From bdba755d1a4e0a8441a988e27685d5d232253c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 06/33] fix: make kills abort at most the running statement,
 and answer it once

---
 mysql_mimic/connection.py | 83 ++++++++++++++++++++++++++++++++++-----
 mysql_mimic/stream.py     | 13 +++++-
 2 files changed, 85 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 25b3afb..9869d8b 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -40,6 +40,16 @@ class AuthenticationFailed(MysqlError):
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
 
+    # Commands that call the application. KILL QUERY doesn't affect any others.
+    _KILLABLE_COMMANDS = {
+        types.Commands.COM_QUERY,
+        types.Commands.COM_INIT_DB,
+        types.Commands.COM_FIELD_LIST,
+        types.Commands.COM_STMT_EXECUTE,
+        types.Commands.COM_STMT_FETCH,
+        types.Commands.COM_STMT_RESET,
+    }
+
     def __init__(
         self,
         stream: MysqlStream,
@@ -79,6 +89,11 @@ class Connection:
         self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
 
+        # Whether there is a statement that KILL QUERY could abort
+        self._executing = False
+        # Whether the session is closing already, so there is nothing left to kill
+        self._closing = False
+
     @property
     def server_charset(self) -> CharacterSet:
         return CharacterSet[self.session.variables.get("character_set_results")]
@@ -109,26 +124,62 @@ class Connection:
 
         try:
             await self.stream.write(self.ok())
-            self.stream.reset_seq()
             await self.command_phase()
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
                 logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
+                self._closing = True
+                self._clear_kill()
+                # Don't wait for the client to read this, as it may never do so
+                await self.stream.write_last(
                     self.error(
                         msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
                     )
                 )
-                self._kill = None
             else:
                 raise
         finally:
+            self._closing = True
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
-        if self._task:
-            self._kill = kind
-            self._task.cancel()
+        if not self._task or self._closing or self._kill == KillKind.CONNECTION:
+            return
+        if kind == KillKind.QUERY and (self._kill or not self._executing):
+            return
+        self._kill = kind
+        self._task.cancel()
+
+    def _clear_kill(self) -> None:
+        self._kill = None
+        if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
+            while self._task.cancelling():
+                self._task.uncancel()
+
+    async def _succeed(self) -> None:
+        """
+        Called before sending the packet that completes the response of a command.
+
+        From there on, it is too late to kill the query.
+        """
+        if self._kill:
+            # Surface the cancellation, even if the application swallowed it
+            await asyncio.sleep(0)
+            raise asyncio.CancelledError()
+        self._executing = False
+
+    async def _fail(self) -> None:
+        """Called before sending the error that completes the response of a command"""
+        self._executing = False
+        if self._kill:
+            try:
+                await asyncio.sleep(0)
+            except asyncio.CancelledError:
+                pass
+            if self._kill == KillKind.CONNECTION:
+                raise asyncio.CancelledError()
+            # The query failed by itself, there is nothing left to kill
+            self._clear_kill()
 
     async def connection_phase(self) -> None:
         default_auth_plugin = self.identity_provider.get_default_plugin()
@@ -300,6 +351,7 @@ class Connection:
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
         while True:
+            self.stream.reset_seq()
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
@@ -308,6 +360,7 @@ class Connection:
             try:
                 command = data[0]
                 rest = data[1:]
+                self._executing = command in self._KILLABLE_COMMANDS
 
                 if command == types.Commands.COM_QUERY:
                     await self.handle_query(rest)
@@ -348,25 +401,26 @@ class Connection:
                 return
             except MysqlError as e:
                 logger.error(e)
+                await self._fail()
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
             except asyncio.CancelledError:
                 if self._kill == KillKind.QUERY:
                     logger.info("Query killed on connection %s", self.connection_id)
-                    if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
-                        self._task.uncancel()
+                    self._executing = False
+                    self._clear_kill()
                     await self.stream.write(
                         self.error(
                             msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
                         )
                     )
-                    self._kill = None
                 else:
                     raise
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
+                await self._fail()
                 await self.stream.write(self.error(msg=e))
             finally:
-                self.stream.reset_seq()
+                self._executing = False
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -402,6 +456,7 @@ class Connection:
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
+        await self._succeed()
         await self.stream.write(self.ok())
 
     async def handle_field_list(self, data: bytes) -> None:
@@ -421,6 +476,7 @@ class Connection:
             ]
         )
         await self.stream.write(columns)
+        await self._succeed()
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
@@ -439,6 +495,7 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
+            await self._succeed()
             await self.stream.write(self.ok())
             return
 
@@ -503,6 +560,7 @@ class Connection:
         )
 
         if not result_set:
+            await self._succeed()
             await self.stream.write(self.ok())
             return
 
@@ -526,6 +584,7 @@ class Connection:
 
         if com_stmt_execute.use_cursor:
             com_stmt_execute.stmt.cursor = rows
+            await self._succeed()
             await self.stream.write(
                 self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
             )
@@ -534,6 +593,7 @@ class Connection:
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
+            await self._succeed()
             await self.stream.write(self.ok_or_eof())
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
@@ -557,6 +617,7 @@ class Connection:
 
         done = count < com_stmt_fetch.num_rows
 
+        await self._succeed()
         await self.stream.write(
             self.ok_or_eof(
                 flags=(
@@ -579,6 +640,7 @@ class Connection:
         stmt.param_buffers = None
         stmt.cursor = None
         await self.session.reset()
+        await self._succeed()
         await self.stream.write(self.ok())
 
     async def handle_stmt_close(self, data: bytes) -> None:
@@ -664,6 +726,7 @@ class Connection:
             affected_rows += 1
             yield packets.make_text_resultset_row(row, result_set.columns)
 
+        await self._succeed()
         yield self.ok_or_eof(affected_rows=affected_rows)
 
     def com_stmt_prepare_response(
diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index f88cfc9..e377b90 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -87,13 +87,24 @@ class MysqlStream:
             if len(payload) != 0xFFFFFF:
                 return
 
-    async def drain(self) -> None:
+    def _flush(self) -> None:
         if self._buffer:
             # The transport may hold on to what it can't send yet, so it gets its own copy
             self.writer.write(bytes(self._buffer))
             self._buffer.clear()
+
+    async def drain(self) -> None:
+        self._flush()
         await self.writer.drain()
 
+    async def write_last(self, data: bytes) -> None:
+        """Write without ever waiting for the client, which gets dropped if it's not reading"""
+        if self.writer.transport.get_write_buffer_size():
+            self.writer.transport.abort()
+            return
+        await self.write(data, drain=False)
+        self._flush()
+
     def reset_seq(self) -> None:
         self.seq.reset()
 
-- 
2.43.0


From dd22ce01b9865714a0afe0a6c1ca7ede336ac559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 07/33] fix: close the socket of clients that are turned away

---
 mysql_mimic/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..6657cec 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -61,8 +61,12 @@ class MysqlServer:
     async def _client_connected_cb(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter
     ) -> None:
-        stream = MysqlStream(reader, writer)
+        try:
+            await self._serve_client(MysqlStream(reader, writer))
+        finally:
+            writer.close()
 
+    async def _serve_client(self, stream: MysqlStream) -> None:
         try:
             if inspect.iscoroutinefunction(self.session_factory):
                 session = await self.session_factory()
@@ -105,7 +109,7 @@ class MysqlServer:
         try:
             return await connection.start()
         finally:
-            writer.close()
+            stream.writer.close()
             await self.control.remove(connection_id)
 
     async def start_server(self, **kwargs: Any) -> None:
-- 
2.43.0


From 89a588f99b1ec7d03a187ea69fba9bb76f6d7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 08/33] fix: accept zero as the server id

---
 mysql_mimic/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..81527bb 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,9 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        if server_id is None:
+            server_id = random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = server_id
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From 60844481a89ba0687e08e686305ec30f969759bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 09/33] fix: omit the EOF after prepared statement parameters
 if the client deprecates it

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 9869d8b..c135dc7 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -738,4 +738,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From f645cc619998e2cb49eaf8e043ca0c8573ca014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 10/33] fix: answer COM_FIELD_LIST with one packet per column

---
 mysql_mimic/connection.py | 12 +++++-------
 mysql_mimic/packets.py    |  3 +--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index c135dc7..faafb1d 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -463,19 +463,17 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
+        async for row in cooperative_iterate(aiterate(result.rows)):
+            await self.stream.write(
                 make_column_definition_41(
                     server_charset=self.server_charset,
                     table=com_field_list.table,
                     name=row[0],
                     is_com_field_list=True,
                     default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+                ),
+                drain=False,
+            )
         await self._succeed()
         await self.stream.write(self.ok_or_eof())
 
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..fe1b1d6 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -377,8 +377,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From 10257e055bd027016fdca3d994765d51f16fe53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 11/33] fix: never answer COM_STMT_SEND_LONG_DATA

---
 mysql_mimic/connection.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index faafb1d..1ef5b90 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -1,5 +1,6 @@
 import asyncio
 import logging
+import struct
 from ssl import SSLContext
 from typing import Optional, Dict, Any, Iterator, AsyncIterator
 
@@ -528,9 +529,18 @@ class Connection:
         https://dev.mysql.com/doc/internals/en/com-stmt-send-long-data.html
 
         COM_STMT_SEND_LONG_DATA sends the data for a column.
+
+        There is no response to this command, not even if it fails.
         """
-        com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        try:
+            com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
+        except struct.error as e:
+            logger.error("Malformed COM_STMT_SEND_LONG_DATA: %s", e)
+            return
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if not stmt or com_stmt_send_long_data.param_id >= stmt.num_params:
+            logger.error("COM_STMT_SEND_LONG_DATA for an unknown parameter")
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From a9d65afcca6192b25695fe5309865184391f6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 12/33] fix: send errors whose message the client can't
 represent

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index fe1b1d6..594834b 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,8 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    # Part of the message may be unknown to the character set. The client still gets an answer.
+    parts.append(str_rest(str(msg).encode(server_charset.codec, errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From 9b5d37c055a21fd0cf1949da41102bbba88bcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 13/33] fix: infer the types of columns with the same name

---
 mysql_mimic/results.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..cd30e7e 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -104,8 +104,9 @@ async def _ensure_result_cols(
     columns: Sequence[AllowedColumn],
 ) -> ResultSet:
     # Which columns need to be inferred?
+    # Different columns may have the same name
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +133,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +141,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From 928fdb3f0b0fcd5715392a0ce75d49f449842f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 14/33] fix: encode negative and long durations as MySQL does

---
 mysql_mimic/results.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index cd30e7e..fc804d5 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -250,11 +250,13 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+    # Only the days of a negative timedelta are negative
+    is_negative = val < timedelta(0)
+    val = abs(val)
+    days = val.days
+    hours, remainder = divmod(val.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
     microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -292,6 +294,20 @@ def _text_encode_str(col: ResultColumn, val: Any) -> bytes:
     return val
 
 
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if not isinstance(val, timedelta):
+        return _text_encode_str(col, val)
+
+    sign = "-" if val < timedelta(0) else ""
+    val = abs(val)
+    minutes, seconds = divmod(val.seconds, 60)
+    hours, minutes = divmod(minutes, 60)
+    text = f"{sign}{val.days * 24 + hours:02}:{minutes:02}:{seconds:02}"
+    if val.microseconds:
+        text += f".{val.microseconds:06}"
+    return _text_encode_str(col, text)
+
+
 def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
@@ -331,7 +347,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_str,
     ColumnType.INT24: _text_encode_str,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_str,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From 621714b21c1118b67afb2989f3c785ea56f07096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 15/33] fix: encode TINY values other than 0 and 1 and textual
 booleans

---
 mysql_mimic/results.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index fc804d5..60567d1 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -166,6 +166,10 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
+    return struct.pack("<b", int(val))
+
+
+def _binary_encode_bool(col: ResultColumn, val: Any) -> bytes:
     return uint_1(int(bool(val)))
 
 
@@ -312,6 +316,10 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_bool(col: ResultColumn, val: Any) -> bytes:
+    return _text_encode_str(col, int(bool(val)))
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -358,7 +366,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_bool,
     ColumnType.JSON: _text_encode_str,
     ColumnType.NEWDECIMAL: _text_encode_str,
     ColumnType.ENUM: _text_encode_str,
@@ -395,7 +403,7 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _binary_encode_bool,
     ColumnType.JSON: _binary_encode_str,
     ColumnType.NEWDECIMAL: _binary_encode_str,
     ColumnType.ENUM: _binary_encode_str,
-- 
2.43.0


From 65558cec51f9f57a2a085293905b69a5c02552a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 16/33] fix: support rows from any async iterable

---
 mysql_mimic/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..676f045 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
 from collections.abc import Iterator
 import random
@@ -103,7 +102,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterable):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From 2f4c2f2f9a3cf46b60495b589466b7296056d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 17/33] fix: bound the rows consumed by type inference

---
 mysql_mimic/results.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 60567d1..137851d 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -20,7 +20,10 @@ from typing import (
 from mysql_mimic.errors import MysqlError
 from mysql_mimic.types import ColumnType, str_len, uint_1, uint_2, uint_4
 from mysql_mimic.charset import CharacterSet
-from mysql_mimic.utils import aiterate
+from mysql_mimic.utils import aiterate, cooperative_iterate
+
+# How many leading rows to search for a value when inferring the type of a column
+_MAX_PEEKS = 1000
 
 Encoder = Callable[[Any, "ResultColumn"], bytes]
 
@@ -118,16 +121,21 @@ async def _ensure_result_cols(
     # Copy the columns
     columns = list(columns)
 
-    arows = aiterate(rows)
+    arows = cooperative_iterate(aiterate(rows))
+
+    # Rows that aren't in memory already may never end, so don't search all of them
+    max_peeks = None if isinstance(rows, (list, tuple)) else _MAX_PEEKS
 
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
 
     # Find the first non-null value for each column
-    while remaining:
+    exhausted = False
+    while remaining and (max_peeks is None or len(peeks) < max_peeks):
         try:
             peek = await arows.__anext__()
         except StopAsyncIteration:
+            exhausted = True
             break
 
         peeks.append(peek)
@@ -146,11 +154,11 @@ async def _ensure_result_cols(
         for i in inferred:
             remaining.pop(i)
 
-    # If we failed to find a non-null value, set the type to NULL
+    # If we failed to find a non-null value, set the type to NULL, unless there could be some value yet
     for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
-            type=ColumnType.NULL,
+            type=ColumnType.NULL if exhausted else ColumnType.VARCHAR,
         )
 
     # Add the consumed rows back in to the iterator
-- 
2.43.0


From 0968546c6cfb0a59031f4a5744a7f281c30312a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 18/33] fix: use the codecs of MySQL's character sets

---
 mysql_mimic/charset.py | 48 ++++++++++++++++++++++++++++++++++++------
 mysql_mimic/packets.py |  4 ++--
 mysql_mimic/results.py |  4 ++--
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..b49a4e0 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -1,5 +1,40 @@
 from __future__ import annotations
+import codecs
 from enum import IntEnum
+from typing import Optional, Tuple, Union
+
+# Python's codecs of the character sets it knows under another name.
+# MySQL's UTF-16 and UTF-32 are big-endian and have no byte order mark.
+_CODECS = {
+    "binary": "utf8",
+    "eucjpms": "euc_jp",
+    "koi8r": "koi8_r",
+    "koi8u": "koi8_u",
+    "hp8": "hp_roman8",
+    "latin1": "cp1252",
+    "macce": "mac_latin2",
+    "ucs2": "utf_16_be",
+    "utf16": "utf_16_be",
+    "utf16le": "utf_16_le",
+    "utf32": "utf_32_be",
+    "utf8mb4": "utf8",
+}
+
+_LATIN1_ERRORS = "mysql_mimic_latin1"
+
+
+def _latin1_errors(e: UnicodeError) -> Tuple[Union[str, bytes], int]:
+    """MySQL's latin1 is cp1252 plus the code points that cp1252 leaves undefined"""
+    if isinstance(e, UnicodeDecodeError):
+        return e.object[e.start : e.end].decode("iso8859_1"), e.end
+    assert isinstance(e, UnicodeEncodeError)
+    chars = e.object[e.start : e.end]
+    if any(c not in "\x81\x8d\x8f\x90\x9d" for c in chars):
+        raise e
+    return chars.encode("iso8859_1"), e.end
+
+
+codecs.register_error(_LATIN1_ERRORS, _latin1_errors)
 
 
 class CharacterSet(IntEnum):
@@ -47,19 +82,20 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        return _CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
         return DEFAULT_COLLATIONS[self]
 
     def decode(self, b: bytes) -> str:
-        return b.decode(self.codec)
+        errors = _LATIN1_ERRORS if self is CharacterSet.latin1 else "strict"
+        return b.decode(self.codec, errors=errors)
 
-    def encode(self, s: str) -> bytes:
-        return s.encode(self.codec)
+    def encode(self, s: str, errors: Optional[str] = None) -> bytes:
+        if not errors:
+            errors = _LATIN1_ERRORS if self is CharacterSet.latin1 else "strict"
+        return s.encode(self.codec, errors=errors)
 
 
 class Collation(IntEnum):
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 594834b..c261f10 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -166,7 +166,7 @@ def make_error(
         parts.append(str_fixed(5, get_sqlstate(code)))
 
     # Part of the message may be unknown to the character set. The client still gets an answer.
-    parts.append(str_rest(str(msg).encode(server_charset.codec, errors="replace")))
+    parts.append(str_rest(server_charset.encode(str(msg), errors="replace")))
 
     return _concat(*parts)
 
@@ -319,7 +319,7 @@ def parse_com_query(
     else:
         query_attrs = {}
 
-    sql = r.read().decode(client_charset.codec)
+    sql = client_charset.decode(r.read())
 
     return ComQuery(
         sql=sql,
diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 137851d..8d9e462 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -186,7 +186,7 @@ def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
         val = str(val)
 
     if isinstance(val, str):
-        val = val.encode(col.character_set.codec)
+        val = col.character_set.encode(val)
 
     return str_len(val)
 
@@ -301,7 +301,7 @@ def _text_encode_str(col: ResultColumn, val: Any) -> bytes:
         val = str(val)
 
     if isinstance(val, str):
-        val = val.encode(col.character_set.codec)
+        val = col.character_set.encode(val)
 
     return val
 
-- 
2.43.0


From 812744f3adb70447a5e94e2ea2eeb0866229c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 19/33] fix: bind statement parameters as data

---
 mysql_mimic/connection.py |  4 ++--
 mysql_mimic/packets.py    | 22 ++++++++++++++++----
 mysql_mimic/prepared.py   | 42 ++++++++++++++++++++++++++++++++++++---
 3 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 1ef5b90..6d1e732 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -22,7 +22,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -511,7 +511,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_params(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index c261f10..d3ecb2b 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -1,11 +1,12 @@
 import io
+import math
 from dataclasses import dataclass, field
 from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, replace_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -522,6 +523,12 @@ def _interpolate_params(
         if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
             parameter_count = read_uint_len(reader)
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            f"Expected {stmt.num_params} parameters, got {parameter_count}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
@@ -529,8 +536,10 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        sql = replace_params(
+            sql,
+            [_encode_param_as_sql(value) for _, value in params[: stmt.num_params]],
+        )
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
@@ -539,13 +548,18 @@ def _interpolate_params(
 
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
-        return f"'{param}'"
+        escaped = param.replace("\\", "\\\\").replace("'", "''")
+        return f"'{escaped}'"
     if param is None:
         return "NULL"
     if param is True:
         return "TRUE"
     if param is False:
         return "FALSE"
+    if isinstance(param, float) and not math.isfinite(param):
+        raise MysqlError(
+            f"Unsupported parameter value: {param}", ErrorCode.NOT_SUPPORTED_YET
+        )
     return str(param)
 
 
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..914583d 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,45 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterable, List, Sequence
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Placeholders, and everything that could contain a question mark that isn't a placeholder
+REGEX_PARAM = re.compile(
+    r"""
+      '(?:[^'\\]|\\.)*'?
+    | "(?:[^"\\]|\\.)*"?
+    | `[^`]*`?
+    | /\*.*?(?:\*/|\Z)
+    | (?:--|\#)[^\r\n]*
+    | (?P<param>\?)
+    """,
+    re.DOTALL | re.VERBOSE,
+)
+
+
+def find_params(sql: str) -> List[int]:
+    """Find the positions of the placeholders in a SQL statement"""
+    return [m.start() for m in REGEX_PARAM.finditer(sql) if m["param"]]
+
+
+def replace_params(sql: str, literals: Sequence[str]) -> str:
+    """Replace the placeholders in a SQL statement"""
+    result = ""
+    pos = 0
+    for i, literal in zip(find_params(sql), literals):
+        result += sql[pos:i]
+        pos = i + 1
+
+        # Keep the literal from merging with its neighbours
+        if result[-1:] == literal[0] == "-" or _is_word(result[-1:]):
+            result += " "
+        result += literal
+        if _is_word(sql[pos : pos + 1]):
+            result += " "
+    return result + sql[pos:]
+
+
+def _is_word(char: str) -> bool:
+    return char.isalnum() or char in set("_$@.'\"`")
 
 
 @dataclass
-- 
2.43.0


From ab44b322fd5039260e8d4758bcb309fdf5b67af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 20/33] fix: reject truncated fields instead of waiting for
 their end forever

---
 mysql_mimic/types.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..e8908ee 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -308,16 +308,19 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) < l:
+        raise struct.error(f"expected {l} bytes, got {len(data)}")
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        data += b
+    pos = reader.tell()
+    data, terminator, _ = reader.read().partition(b"\x00")
+    if not terminator:
+        raise struct.error("missing terminator")
+    reader.seek(pos + len(data) + 1)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From ea8ec88667113d3c47baa169882238a1a85b13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 21/33] fix: bound the work of parsing a statement

---
 mysql_mimic/session.py |  4 ++--
 mysql_mimic/utils.py   | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..d6f34ba 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -33,7 +33,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_dbs
+from mysql_mimic.utils import find_dbs, parse
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -305,7 +305,7 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        return [e for e in parse(self.dialect(), sql) if e]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 676f045..01e21f4 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -4,12 +4,21 @@ import asyncio
 import sys
 from collections.abc import Iterator
 import random
-from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
+from typing import (
+    List,
+    Optional,
+    TypeVar,
+    AsyncIterable,
+    Iterable,
+    AsyncIterator,
+    cast,
+)
 import string
 
-from sqlglot import expressions as exp
+from sqlglot import Dialect, expressions as exp
 from sqlglot.optimizer.scope import traverse_scope
 
+from mysql_mimic.errors import ErrorCode, MysqlError
 
 T = TypeVar("T")
 
@@ -52,6 +61,28 @@ def nonce(nbytes: int) -> bytes:
     )
 
 
+def parse(dialect: Dialect, sql: str) -> List[Optional[exp.Expression]]:
+    """
+    Parse SQL in time proportional to its length.
+
+    The parser backtracks. For some nested expressions, it needs exponential time.
+    """
+    tokens = dialect.tokenize(sql)
+    parser = dialect.parser()
+    advance = parser._advance  # pylint: disable=protected-access
+    steps_left = 20_000 + 10 * len(tokens)
+
+    def bounded_advance(times: int = 1) -> None:
+        nonlocal steps_left
+        steps_left -= 1
+        if steps_left < 0:
+            raise MysqlError("Statement is too complex", code=ErrorCode.PARSE_ERROR)
+        advance(times)
+
+    parser._advance = bounded_advance  # type: ignore # pylint: disable=protected-access
+    return parser.parse(tokens, sql)
+
+
 def find_tables(expression: exp.Expression) -> List[exp.Table]:
     """Find all tables in an expression"""
     if isinstance(
-- 
2.43.0


From 8963498f155e64babc6ce049d11b774ef76cc85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 22/33] fix: keep cursors from losing rows and from outliving
 their execution

---
 mysql_mimic/connection.py | 31 ++++++++++++++++++++++---------
 mysql_mimic/prepared.py   |  4 ++--
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 6d1e732..acf4c6e 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -562,6 +562,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
@@ -591,8 +592,8 @@ class Connection:
         rows = gen_rows()
 
         if com_stmt_execute.use_cursor:
-            com_stmt_execute.stmt.cursor = rows
             await self._succeed()
+            com_stmt_execute.stmt.cursor = rows
             await self.stream.write(
                 self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
             )
@@ -613,19 +614,31 @@ class Connection:
         com_stmt_fetch = packets.parse_handle_stmt_fetch(data)
 
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
-        assert stmt.cursor is not None
+        if stmt.cursor is None:
+            raise MysqlError(
+                f"Statement has no open cursor: {stmt.stmt_id}",
+                ErrorCode.UNKNOWN_PROCEDURE,
+            )
         count = 0
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
-                break
-            await self.stream.write(packet, drain=False)
-            count += 1
-        await self.stream.drain()
+        try:
+            # Don't take more rows from the cursor than this request asks for
+            while count < com_stmt_fetch.num_rows:
+                try:
+                    packet = await stmt.cursor.__anext__()
+                except StopAsyncIteration:
+                    break
+                await self.stream.write(packet, drain=False)
+                count += 1
+            await self.stream.drain()
+            await self._succeed()
+        except BaseException:
+            # Part of the rows may be lost
+            stmt.cursor = None
+            raise
 
         done = count < com_stmt_fetch.num_rows
 
-        await self._succeed()
         await self.stream.write(
             self.ok_or_eof(
                 flags=(
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 914583d..d322034 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,6 +1,6 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable, List, Sequence
+from typing import Optional, Dict, AsyncIterator, List, Sequence
 
 # Placeholders, and everything that could contain a question mark that isn't a placeholder
 REGEX_PARAM = re.compile(
@@ -48,4 +48,4 @@ class PreparedStatement:
     sql: str
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
-    cursor: Optional[AsyncIterable[bytes]] = None
+    cursor: Optional[AsyncIterator[bytes]] = None
-- 
2.43.0


From fa25ca6f6bc0a8bb15ce127be8fcb48e744bac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 23/33] fix: decide by its tables who answers a query

---
 mysql_mimic/session.py | 46 ++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index d6f34ba..8b23a10 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -33,7 +33,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_dbs, parse
+from mysql_mimic.utils import find_dbs, find_tables, parse
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -173,6 +173,7 @@ class Session(BaseSession):
             self._replace_variables_middleware,
             self._set_middleware,
             self._static_query_middleware,
+            self._unsupported_middleware,
             self._use_middleware,
             self._kill_middleware,
             self._show_middleware,
@@ -344,6 +345,17 @@ class Session(BaseSession):
             for k, v in orig.items():
                 self.variables.set(k, v)
 
+    async def _unsupported_middleware(self, q: Query) -> AllowedResult:
+        """Refuse session control statements that SQLGlot doesn't know how to parse"""
+        if isinstance(q.expression, exp.Command):
+            command = q.expression.name.upper()
+            if command in {"SET", "SHOW"}:
+                raise MysqlError(
+                    f"Unsupported {command} statement",
+                    code=ErrorCode.NOT_SUPPORTED_YET,
+                )
+        return await q.next()
+
     async def _use_middleware(self, q: Query) -> AllowedResult:
         """Intercept USE statements"""
         if isinstance(q.expression, exp.Use):
@@ -393,7 +405,7 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            if not isinstance(q.expression.this, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
             name = q.expression.this.name
@@ -470,12 +482,26 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if (
+            isinstance(q.expression, exp.Select)
+            and not any(
+                q.expression.args.get(a) for a in ("from", "joins", "laterals", "into")
+            )
+            and not find_tables(q.expression)
         ):
-            result = execute(q.expression)
-            return result.rows, result.columns
+            expression = q.expression.copy()
+            # There is at most one row, and SQLGlot can't group, order, or skip it
+            expression.set("group", None)
+            expression.set("order", None)
+            offset = expression.args.get("offset")
+            expression.set("offset", None)
+            having = expression.args.get("having")
+            expression.set("having", None)
+            if having:
+                expression.where(having.this, copy=False)
+            result = execute(expression)
+            rows = result.rows[int(offset.expression.name) :] if offset else result.rows
+            return rows, result.columns
         return await q.next()
 
     async def _set_middleware(self, q: Query) -> AllowedResult:
@@ -506,10 +532,8 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        dbs = [db or self.database or "" for db in find_dbs(q.expression)]
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
             return await self._query_info_schema(q.expression)
         return await q.next()
 
-- 
2.43.0


From 1c13e5e0ca58c31cf51e9a9e4f7fd54fe9cbf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 24/33] fix: refuse variable values that would break the
 session

Unknown time zones and character sets were accepted, and failed all later
statements. Booleans given as text were always true, DEFAULT, ON and OFF had
to be upper case, and a time zone set in the statement calling NOW() didn't
take effect.
---
 mysql_mimic/intercept.py |  9 +++---
 mysql_mimic/session.py   | 69 ++++++++++++++++++++++++++++++----------
 mysql_mimic/variables.py | 21 ++++++++++--
 3 files changed, 76 insertions(+), 23 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..85d03a3 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -20,7 +20,7 @@ TRANSACTION_CHARACTERISTICS = {
 
 
 def setitem_kind(setitem: exp.SetItem) -> str:
-    kind = setitem.text("kind")
+    kind = setitem.text("kind").upper()
     if not kind:
         return "VARIABLE"
 
@@ -56,11 +56,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    name = expression.name.upper()
+    if name == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if name == "ON":
         return True
-    if expression.name == "OFF":
+    if name == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 8b23a10..640f8db 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import codecs
 from dataclasses import dataclass
 from datetime import datetime, timezone as timezone_
 from typing import (
@@ -153,6 +154,18 @@ class BaseSession:
         """
 
 
+def _check_charset(name: str) -> str:
+    """Get the normalized name of a character set that text can be converted to and from"""
+    try:
+        charset = CharacterSet[name.lower()]
+        codecs.lookup(charset.codec)
+    except (KeyError, LookupError) as e:
+        raise MysqlError(
+            f"Unsupported character set: {name}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        ) from e
+    return charset.name
+
+
 class Session(BaseSession):
     """
     Abstract session.
@@ -192,9 +205,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._now().strftime("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._now().strftime("%Y-%m-%d"),
+            "CURTIME": lambda: self._now().strftime("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -339,7 +352,7 @@ class Session(BaseSession):
         orig = {k: self.variables.get(k) for k in assignments}
         try:
             for k, v in assignments.items():
-                self.variables.set(k, v)
+                self._assign(k, v)
             return await q.next()
         finally:
             for k, v in orig.items():
@@ -557,7 +570,7 @@ class Session(BaseSession):
         value = expression_to_value(assignment.right)
 
         if scope in {"SESSION", "LOCAL"}:
-            self.variables.set(name, value)
+            self._assign(name, value)
         else:
             raise MysqlError(
                 f"Cannot SET variable {name} with scope {scope}",
@@ -567,38 +580,58 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
             charset_name = item.name
             charset_conn = self.variables.get("character_set_database")
-        self.variables.set("character_set_client", charset_name)
-        self.variables.set("character_set_results", charset_name)
-        self.variables.set("character_set_connection", charset_conn)
+        self._assign("character_set_client", charset_name)
+        self._assign("character_set_results", charset_name)
+        self._assign("character_set_connection", charset_conn)
 
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-            charset_name = item.name
+            charset_name = _check_charset(item.name)
             collation_name = (
                 item.text("collate")
                 or CharacterSet[charset_name].default_collation.name
             )
-        self.variables.set("character_set_client", charset_name)
-        self.variables.set("character_set_connection", charset_name)
-        self.variables.set("character_set_results", charset_name)
-        self.variables.set("collation_connection", collation_name)
+        self._assign("character_set_client", charset_name)
+        self._assign("character_set_connection", charset_name)
+        self._assign("character_set_results", charset_name)
+        self._assign("collation_connection", collation_name)
 
     def _set_transaction(self, item: exp.SetItem) -> None:
+        if item.args.get("global"):
+            raise MysqlError(
+                "Cannot SET TRANSACTION with scope GLOBAL",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         characteristics = [e.name.upper() for e in item.expressions]
         for characteristic in characteristics:
             variable, value = TRANSACTION_CHARACTERISTICS[characteristic]
-            self.variables.set(variable, value)
+            self._assign(variable, value)
+
+    def _assign(self, name: str, value: Any) -> None:
+        """Set a variable, unless its value would break the session"""
+        name = name.lower()
+        if name.startswith("character_set_") and isinstance(value, str):
+            value = _check_charset(value)
+
+        previous = self.variables.get(name)
+        self.variables.set(name, value)
+        if name == "time_zone":
+            try:
+                self.timezone()
+            except Exception:
+                self.variables.set(name, previous)
+                raise
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
@@ -616,6 +649,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _now(self) -> datetime:
+        # The time zone may have changed since the query started
+        return self.timestamp.astimezone(self.timezone())
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..2e11ce4 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -86,6 +86,8 @@ class Variables(abc.ABC):
         if value is DEFAULT or value is None:
             self.values[name] = default
         else:
+            if type_ is bool and isinstance(value, str):
+                type_ = _parse_bool
             self.values[name] = type_(value)
 
     def get(self, name: str) -> Any:
@@ -124,7 +126,18 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+def _parse_bool(value: str) -> bool:
+    try:
+        return _BOOLS[value.strip().upper()]
+    except KeyError as e:
+        raise MysqlError(
+            f"Not a boolean: {value}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        ) from e
+
+
+_BOOLS = {"ON": True, "TRUE": True, "1": True, "OFF": False, "FALSE": False, "0": False}
+
+RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)$")
 
 
 @lru_cache(maxsize=48)
@@ -132,8 +145,10 @@ def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
     match = RE_TIMEZONE.match(tz)
-    if not match:
-        raise MysqlError(msg=f"Invalid timezone: {tz}")
+    if not match or int(match["hours"]) > 23 or int(match["minutes"]) > 59:
+        raise MysqlError(
+            msg=f"Invalid timezone: {tz}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        )
     offset = timedelta(
         hours=int(match.group("hours")), minutes=int(match.group("minutes"))
     )
-- 
2.43.0


From 623c227e64b7795e5a210bd9947f40ba86349cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 25/33] fix: answer catalog queries from exactly the declared
 schema

LIKE matched prefixes and treated its pattern as a regex. Names were spliced
into SQL unquoted. DESCRIBE ignored the database. SHOW ... IN couldn't be
parsed. Empty databases and tables were missing, and hid others if they came
first. Quoted upper case names of INFORMATION_SCHEMA weren't found.
---
 mysql_mimic/schema.py  | 158 ++++++++++++++++++++++++++++++++---------
 mysql_mimic/session.py |  17 +++--
 mysql_mimic/utils.py   |  33 +++++++--
 3 files changed, 161 insertions(+), 47 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..7ca3fb8 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -4,9 +4,10 @@ import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
-from typing import Any, Optional, List, Dict, Iterable
+from typing import Any, Optional, List, Dict, Iterable, Tuple
 
 from sqlglot.executor import Table, execute
+from sqlglot.executor.env import ENV
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
@@ -28,11 +29,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def _normalize_mapping(schema: dict) -> dict:
+    """Convert a schema mapping into a {catalog: {db: {table: {column: type}}}} mapping"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -43,9 +44,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in _normalize_mapping(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -62,28 +67,37 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column],
+    tables: Iterable[Tuple[str, str, str]] = (),
+    dbs: Iterable[Tuple[str, str]] = (),
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: all columns
+        tables: (catalog, database, table) of tables that may not have any columns
+        dbs: (catalog, database) of databases that may not have any tables
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
     data = {
-        db: {k: Table(tuple(v.keys())) for k, v in tables.items()}
-        for db, tables in INFO_SCHEMA.items()
+        db: {k: Table(tuple(v.keys())) for k, v in info_tables.items()}
+        for db, info_tables in INFO_SCHEMA.items()
     }
 
-    tables = set()
-    dbs = set()
+    all_tables: set[Any] = set(tables)
+    all_dbs: set[Any] = set(dbs)
     catalogs = set()
 
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
-        tables.add((column.catalog, column.schema, column.table))
-        dbs.add((column.catalog, column.schema))
+        all_tables.add((column.catalog, column.schema, column.table))
+        all_dbs.add((column.catalog, column.schema))
         catalogs.add(column.catalog)
         key = (column.catalog, column.schema, column.table)
         ordinal_position = ordinal_positions[key]
@@ -115,7 +129,7 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
             )
         )
 
-    for catalog, db, table in sorted(tables):
+    for catalog, db, table in sorted(all_tables):
         data["information_schema"]["tables"].append(
             (
                 catalog,  # table_catalog
@@ -142,7 +156,7 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
             )
         )
 
-    for catalog, db in sorted(dbs):
+    for catalog, db in sorted(all_dbs):
         data["information_schema"]["schemata"].append(
             (
                 catalog,  # catalog_name
@@ -186,14 +200,12 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
-        if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(_equals("table_schema", db))
+        select = _where_like(select, "column_name", show)
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -203,17 +215,13 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
-        if like:
-            select = select.where(f"table_name LIKE '{like}'")
+        select = select.where(_equals("table_schema", db))
+        select = _where_like(select, "table_name", show)
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
-        if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+        select = _where_like(select, "schema_name", show)
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -241,11 +249,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(_equals("table_schema", db))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
@@ -257,17 +265,38 @@ def show_statement_to_info_schema_query(
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     show = exp.Show(
         this="COLUMNS",
-        target=exp.to_identifier(com_field_list.table),
+        target=exp.to_identifier(com_field_list.table, quoted=True),
     )
     if com_field_list.wildcard:
         show.set("like", exp.Literal.string(com_field_list.wildcard))
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
+def _equals(column: str, value: str) -> exp.Expression:
+    return exp.column(column).eq(exp.Literal.string(value))
+
+
+def _where_like(select: exp.Select, column: str, show: exp.Show) -> exp.Select:
+    like = show.args.get("like")
+    if like is None:
+        return select
+    return select.where(exp.column(column).like(exp.Literal.string(like.name)))
+
+
+def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
+    """Get a regex to be used with `fullmatch`"""
+    pattern = ""
+    chars = iter(like)
+    for char in chars:
+        if char == escape:
+            pattern += re.escape(next(chars, char))
+        elif char == "%":
+            pattern += ".*"
+        elif char == "_":
+            pattern += "."
+        else:
+            pattern += re.escape(char)
+    return re.compile(pattern, re.DOTALL)
 
 
 class BaseInfoSchema:
@@ -294,10 +323,24 @@ class InfoSchema(BaseInfoSchema):
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
         columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        dbs = [
+            (catalog, db, tables)
+            for catalog, dbs in _normalize_mapping(mapping).items()
+            for db, tables in dbs.items()
+        ]
+        return cls(
+            info_schema_tables(
+                columns,
+                tables=[
+                    (catalog, db, t) for catalog, db, tables in dbs for t in tables
+                ],
+                dbs=[(catalog, db) for catalog, db, _ in dbs],
+            )
+        )
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
-        return expression.transform(_remove_collate)
+        expression = expression.transform(_remove_collate).transform(replace_like)
+        return _unquote_info_schema(expression)
 
 
 def ensure_info_schema(schema: dict | BaseInfoSchema) -> BaseInfoSchema:
@@ -315,3 +358,48 @@ def _remove_collate(node: exp.Expression) -> exp.Expression:
     if isinstance(node, exp.Collate):
         return node.left
     return node
+
+
+def _unquote_info_schema(expression: exp.Expression) -> exp.Expression:
+    """
+    The names in INFORMATION_SCHEMA aren't case sensitive, even if they're quoted.
+
+    SQLGlot only ignores the case of unquoted identifiers.
+    """
+    names = {
+        name
+        for db, tables in INFO_SCHEMA.items()
+        for name in chain([db], tables, *tables.values())
+    }
+    aliases = {alias.alias for alias in expression.find_all(exp.Alias)}
+    for node in expression.find_all(exp.Column, exp.Table):
+        for part in node.parts:
+            if part.name.lower() in names and part.name not in aliases:
+                part.set("quoted", False)
+    return expression
+
+
+def _like(
+    value: Optional[str], pattern: Optional[str], escape: str = "\\"
+) -> Optional[bool]:
+    if value is None or pattern is None:
+        return None
+    return bool(like_to_regex(str(pattern), escape).fullmatch(str(value)))
+
+
+# SQLGlot's LIKE matches prefixes, and treats the pattern as a regex.
+ENV["MYSQL_LIKE"] = _like
+
+
+def replace_like(node: exp.Expression) -> exp.Expression:
+    """Have the executor evaluate LIKE the way MySQL does"""
+    if isinstance(node, exp.Like):
+        return exp.Anonymous(
+            this="MYSQL_LIKE", expressions=[node.this, node.expression]
+        )
+    if isinstance(node, exp.Escape) and isinstance(node.this, exp.Like):
+        return exp.Anonymous(
+            this="MYSQL_LIKE",
+            expressions=[node.this.this, node.this.expression, node.expression],
+        )
+    return node
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 640f8db..4e72f2d 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -30,6 +30,7 @@ from mysql_mimic.intercept import (
 from mysql_mimic.schema import (
     show_statement_to_info_schema_query,
     like_to_regex,
+    replace_like,
     BaseInfoSchema,
     ensure_info_schema,
 )
@@ -421,9 +422,10 @@ class Session(BaseSession):
             if not isinstance(q.expression.this, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            table = q.expression.this
+            return await self._show(
+                exp.Show(this="COLUMNS", target=table.this, db=table.args.get("db"))
+            )
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
@@ -512,7 +514,7 @@ class Session(BaseSession):
             expression.set("having", None)
             if having:
                 expression.where(having.this, copy=False)
-            result = execute(expression)
+            result = execute(expression.transform(replace_like))
             rows = result.rows[int(offset.expression.name) :] if offset else result.rows
             return rows, result.columns
         return await q.next()
@@ -635,9 +637,10 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
-        if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+        like = show.args.get("like")
+        if like is not None:
+            regex = like_to_regex(like.name)
+            rows = [(k, v) for k, v in rows if regex.fullmatch(k)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 01e21f4..ca72dee 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -17,6 +17,7 @@ import string
 
 from sqlglot import Dialect, expressions as exp
 from sqlglot.optimizer.scope import traverse_scope
+from sqlglot.tokens import Token, TokenType
 
 from mysql_mimic.errors import ErrorCode, MysqlError
 
@@ -67,7 +68,7 @@ def parse(dialect: Dialect, sql: str) -> List[Optional[exp.Expression]]:
 
     The parser backtracks. For some nested expressions, it needs exponential time.
     """
-    tokens = dialect.tokenize(sql)
+    tokens = _replace_show_in(dialect.tokenize(sql))
     parser = dialect.parser()
     advance = parser._advance  # pylint: disable=protected-access
     steps_left = 20_000 + 10 * len(tokens)
@@ -83,6 +84,31 @@ def parse(dialect: Dialect, sql: str) -> List[Optional[exp.Expression]]:
     return parser.parse(tokens, sql)
 
 
+def _replace_show_in(tokens: List[Token]) -> List[Token]:
+    """SQLGlot only knows the FROM of statements like SHOW TABLES {FROM | IN} db"""
+    result = []
+    in_show = False
+    previous = None
+    for token in tokens:
+        if previous is None or previous.token_type == TokenType.SEMICOLON:
+            in_show = token.token_type == TokenType.SHOW
+        elif token.token_type in (TokenType.LIKE, TokenType.WHERE):
+            in_show = False
+        previous = token
+        if in_show and token.token_type == TokenType.IN:
+            token = Token(
+                TokenType.FROM,
+                "FROM",
+                line=token.line,
+                col=token.col,
+                start=token.start,
+                end=token.end,
+                comments=token.comments,
+            )
+        result.append(token)
+    return result
+
+
 def find_tables(expression: exp.Expression) -> List[exp.Table]:
     """Find all tables in an expression"""
     if isinstance(
@@ -122,13 +148,10 @@ def dict_depth(d: dict) -> int:
         int: depth
     """
     try:
-        return 1 + dict_depth(next(iter(d.values())))
+        return 1 + max((dict_depth(v) for v in d.values()), default=0)
     except AttributeError:
         # d doesn't have attribute "values"
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From 6ff61aea327b6782f887a570538147dc7c492140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 26/33] fix: match LIKE patterns in polynomial time

---
 mysql_mimic/schema.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 7ca3fb8..32c77c4 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -285,17 +285,28 @@ def _where_like(select: exp.Select, column: str, show: exp.Show) -> exp.Select:
 
 def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
     """Get a regex to be used with `fullmatch`"""
-    pattern = ""
+    parts = [""]
     chars = iter(like)
     for char in chars:
         if char == escape:
-            pattern += re.escape(next(chars, char))
+            parts[-1] += re.escape(next(chars, char))
         elif char == "%":
-            pattern += ".*"
+            parts.append("")
         elif char == "_":
-            pattern += "."
+            parts[-1] += "."
         else:
-            pattern += re.escape(char)
+            parts[-1] += re.escape(char)
+
+    # The first match of what's between two wildcards is as good as any other. Never
+    # backtracking to another one (there's no backtracking into a lookahead) avoids
+    # exponential time.
+    first, *rest = parts
+    pattern = first
+    for i, part in enumerate(rest[:-1]):
+        if part:
+            pattern += f"(?=(?P<p{i}>.*?{part}))(?P=p{i})"
+    if rest:
+        pattern += ".*" + rest[-1]
     return re.compile(pattern, re.DOTALL)
 
 
-- 
2.43.0


From 78066da29b38903fee23eb34bdcaf7b126362710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 27/33] fix: don't treat comments after a semicolon as
 statements

---
 mysql_mimic/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 4e72f2d..5f35c03 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -320,7 +320,12 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in parse(self.dialect(), sql) if e]
+        # Comments next to a semicolon are parsed to expressions of their own, which aren't statements
+        return [
+            e
+            for e in parse(self.dialect(), sql)
+            if e and not isinstance(e, exp.Semicolon)
+        ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From 445c4220a3d0e1e2cc25da300035bbffff7adcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:02 +0000
Subject: [PATCH 28/33] fix: refuse character sets that aren't strings

---
 mysql_mimic/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 5f35c03..79cf127 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -628,8 +628,8 @@ class Session(BaseSession):
     def _assign(self, name: str, value: Any) -> None:
         """Set a variable, unless its value would break the session"""
         name = name.lower()
-        if name.startswith("character_set_") and isinstance(value, str):
-            value = _check_charset(value)
+        if name.startswith("character_set_") and value not in (None, DEFAULT):
+            value = _check_charset(str(value))
 
         previous = self.variables.get(name)
         self.variables.set(name, value)
-- 
2.43.0


From 1d8db9b7184cca2cf90cdba1c242fc92b98133bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 29/33] fix: infer decimals for integers that don't fit in 64
 bits

---
 mysql_mimic/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 8d9e462..79604d8 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -429,6 +429,8 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
 def infer_type(val: Any) -> ColumnType:
     for py_type, my_type in _PY_TO_MYSQL_TYPE.items():
         if isinstance(val, py_type):
+            if my_type is ColumnType.LONGLONG and not -(1 << 63) <= val < 1 << 63:
+                return ColumnType.NEWDECIMAL
             return my_type
     return ColumnType.VARCHAR
 
-- 
2.43.0


From 83012a7afb6e0d82561652f7e9a80012efcb59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 30/33] fix: keep the characters of latin1 that cp1252 lacks in
 error messages

---
 mysql_mimic/charset.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index b49a4e0..fd172c6 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import codecs
+import re
 from enum import IntEnum
 from typing import Optional, Tuple, Union
 
@@ -21,6 +22,7 @@ _CODECS = {
 }
 
 _LATIN1_ERRORS = "mysql_mimic_latin1"
+_LATIN1_EXTRA = "\x81\x8d\x8f\x90\x9d"
 
 
 def _latin1_errors(e: UnicodeError) -> Tuple[Union[str, bytes], int]:
@@ -29,7 +31,7 @@ def _latin1_errors(e: UnicodeError) -> Tuple[Union[str, bytes], int]:
         return e.object[e.start : e.end].decode("iso8859_1"), e.end
     assert isinstance(e, UnicodeEncodeError)
     chars = e.object[e.start : e.end]
-    if any(c not in "\x81\x8d\x8f\x90\x9d" for c in chars):
+    if any(c not in _LATIN1_EXTRA for c in chars):
         raise e
     return chars.encode("iso8859_1"), e.end
 
@@ -93,9 +95,15 @@ class CharacterSet(IntEnum):
         return b.decode(self.codec, errors=errors)
 
     def encode(self, s: str, errors: Optional[str] = None) -> bytes:
+        if self is not CharacterSet.latin1:
+            return s.encode(self.codec, errors=errors or "strict")
         if not errors:
-            errors = _LATIN1_ERRORS if self is CharacterSet.latin1 else "strict"
-        return s.encode(self.codec, errors=errors)
+            return s.encode(self.codec, errors=_LATIN1_ERRORS)
+        # Only one error handler can be given, so encode what cp1252 lacks separately
+        return b"".join(
+            part.encode("iso8859_1" if i % 2 else self.codec, errors=errors)
+            for i, part in enumerate(re.split(f"([{_LATIN1_EXTRA}]+)", s))
+        )
 
 
 class Collation(IntEnum):
-- 
2.43.0


From 3f6fadbc11d9198c6dc1cea87386469a359e8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 31/33] fix: announce result metadata in binary results and
 prepared statements, too

With CLIENT_OPTIONAL_RESULTSET_METADATA, clients expect the marker in the response of
COM_STMT_EXECUTE and in COM_STMT_PREPARE_OK as well.
---
 mysql_mimic/connection.py |  8 ++++++--
 mysql_mimic/packets.py    | 13 ++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index acf4c6e..7e6ff38 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -573,7 +573,11 @@ class Connection:
             await self.stream.write(self.ok())
             return
 
-        await self.stream.write(types.uint_len(len(result_set.columns)))
+        await self.stream.write(
+            packets.make_column_count(
+                capabilities=self.capabilities, column_count=len(result_set.columns)
+            )
+        )
 
         for column in result_set.columns:
             await self.stream.write(
@@ -753,7 +757,7 @@ class Connection:
     def com_stmt_prepare_response(
         self, statement: PreparedStatement
     ) -> Iterator[bytes]:
-        yield packets.make_com_stmt_prepare_ok(statement)
+        yield packets.make_com_stmt_prepare_ok(self.capabilities, statement)
         if statement.num_params:
             for _ in range(statement.num_params):
                 yield packets.make_column_definition_41(
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index d3ecb2b..d45d39e 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -398,15 +398,22 @@ def make_text_resultset_row(
     return _concat(*parts)
 
 
-def make_com_stmt_prepare_ok(statement: PreparedStatement) -> bytes:
-    return _concat(
+def make_com_stmt_prepare_ok(
+    capabilities: Capabilities, statement: PreparedStatement
+) -> bytes:
+    parts = [
         uint_1(0),  # OK
         uint_4(statement.stmt_id),
         uint_2(0),  # number of columns
         uint_2(statement.num_params),
         uint_1(0),  # filler
         uint_2(0),  # number of warnings
-    )
+    ]
+
+    if Capabilities.CLIENT_OPTIONAL_RESULTSET_METADATA in capabilities:
+        parts.append(uint_1(ResultsetMetadata.RESULTSET_METADATA_FULL))
+
+    return _concat(*parts)
 
 
 def parse_com_stmt_send_long_data(data: bytes) -> ComStmtSendLongData:
-- 
2.43.0


From a48e2aad65596f953f313f26b6a84102c6ee6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 32/33] fix: encode booleans in numeric columns as numbers

A bool among the values of an integer, floating-point or decimal column was sent as
'True' or 'False' by the text protocol, which no client can decode.
---
 mysql_mimic/results.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 79604d8..a894f8a 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -181,6 +181,11 @@ def _binary_encode_bool(col: ResultColumn, val: Any) -> bytes:
     return uint_1(int(bool(val)))
 
 
+def _binary_encode_decimal(col: ResultColumn, val: Any) -> bytes:
+    # bool is a subclass of int
+    return _binary_encode_str(col, int(val) if isinstance(val, bool) else val)
+
+
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
     if not isinstance(val, bytes):
         val = str(val)
@@ -320,6 +325,11 @@ def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, text)
 
 
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    # bool is a subclass of int
+    return _text_encode_str(col, int(val) if isinstance(val, bool) else val)
+
+
 def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
@@ -352,20 +362,20 @@ _PY_TO_MYSQL_TYPE = {
 
 
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _text_encode_str,
+    ColumnType.DECIMAL: _text_encode_number,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
@@ -376,7 +386,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.INVALID: _unsupported,
     ColumnType.BOOL: _text_encode_bool,
     ColumnType.JSON: _text_encode_str,
-    ColumnType.NEWDECIMAL: _text_encode_str,
+    ColumnType.NEWDECIMAL: _text_encode_number,
     ColumnType.ENUM: _text_encode_str,
     ColumnType.SET: _text_encode_str,
     ColumnType.TINY_BLOB: _text_encode_str,
@@ -389,7 +399,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
 }
 
 _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _binary_encode_str,
+    ColumnType.DECIMAL: _binary_encode_decimal,
     ColumnType.TINY: _binary_encode_tiny,
     ColumnType.SHORT: _binary_encode_short,
     ColumnType.LONG: _binary_encode_long,
@@ -413,7 +423,7 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.INVALID: _unsupported,
     ColumnType.BOOL: _binary_encode_bool,
     ColumnType.JSON: _binary_encode_str,
-    ColumnType.NEWDECIMAL: _binary_encode_str,
+    ColumnType.NEWDECIMAL: _binary_encode_decimal,
     ColumnType.ENUM: _binary_encode_str,
     ColumnType.SET: _binary_encode_str,
     ColumnType.TINY_BLOB: _binary_encode_str,
-- 
2.43.0


From 32f53cce5766d4388fc6af5f36174b43266a1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 33/33] fix: don't let a kill cut a payload of several packets
 short

---
 mysql_mimic/stream.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index e377b90..f72b3a5 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -80,12 +80,15 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
-                return
+                break
+
+        # Only wait once all of the packets are buffered. Otherwise, whatever is written
+        # after an interruption (e.g. KILL QUERY) would be taken for the rest of this payload.
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
 
     def _flush(self) -> None:
         if self._buffer:
-- 
2.43.0

