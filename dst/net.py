"""Simulated kernel: sockets, selector, clock, and the event loop over them.

The asyncio event loop, its socket transports, StreamReader/StreamWriter, the
SSL protocol and asyncio.Server are the real ones.  Only what lies below them
is simulated: sockets, the selector and the clock.
"""
import asyncio
import errno
import itertools
import selectors
import socket
from collections import deque

BIG = 1 << 40


class Hang(KeyboardInterrupt):
    """Raised inside a run by the CPU watchdog or a step cap.

    A KeyboardInterrupt, so that no `except Exception` of the code under test
    and no asyncio callback wrapper swallows it.
    """


class Pipe:
    """One TCP connection as the kernel of the server host sees it."""

    def __init__(self, net, cid):
        self.net = net
        self.cid = cid
        # client -> server
        self.wire = bytearray()  # sent by the client, still in the network
        self.rcvbuf = bytearray()  # in the server's receive buffer
        self.fin_sent = False  # client half-closed / closed
        self.fin_arrived = False
        self.rst = False  # connection reset as seen by the server
        self.rst_read = False
        self.recv_errno = None  # injected recv error
        # server -> client
        self.s2c = bytearray()
        self.sndbuf = BIG
        self.slow_until = 12000  # bytes after which the tiniest buffers grow, so that big answers end
        self.send_fail = None  # ("at", nbytes_total, errno)
        self.dead_sends = None  # sends accepted after the peer vanished
        self.client_gone = False
        self.srv_closed = False
        self.srv_shutdown = False
        self.partial = 0  # 0: full sends, n: at most n bytes a send
        self.total_sent = 0  # bytes accepted from the server
        self.total_recv = 0  # bytes handed to the server
        self.accepted = False

    def readable(self):
        return bool(self.rcvbuf) or self.fin_arrived or self.rst or self.recv_errno is not None

    def writable(self):
        if self.rst or self.client_gone or self.send_fail is not None and self._fail_due():
            return True
        return len(self.s2c) < self.eff(self.sndbuf, 8192)

    def eff(self, n, floor):
        return n if self.total_sent < self.slow_until else max(n, floor)

    def _fail_due(self):
        return self.total_sent >= self.send_fail[0]


class SimSocket:
    family = socket.AF_UNIX if False else socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, net, pipe=None):
        self.net = net
        self.pipe = pipe
        self.fd = next(net.fds)
        net.by_fd[self.fd] = self
        self.closed = False
        self.listening = False
        self.backlog = deque()
        self.accept_errno = deque()

    # -- bits asyncio asks for
    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        pass

    def gettimeout(self):
        return 0.0

    def settimeout(self, t):
        pass

    def getsockname(self):
        return ("10.0.0.1", 3306)

    def getpeername(self):
        return ("10.0.1.%d" % (self.pipe.cid % 250), 40000 + self.pipe.cid % 20000) if self.pipe else ("0.0.0.0", 0)

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        pass

    def listen(self, backlog=100):
        self.listening = True

    def accept(self):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if not self.backlog:
            raise BlockingIOError(errno.EAGAIN, "no connection")
        if self.accept_errno:
            e = self.accept_errno.popleft()
            self.net.count("accept_error_%s" % errno.errorcode[e])
            raise OSError(e, errno.errorcode[e])
        pipe = self.backlog.popleft()
        pipe.accepted = True
        s = SimSocket(self.net, pipe)
        pipe.sock = s
        self.net.note("accept", pipe.cid)
        return s, s.getpeername()

    def recv(self, n):
        p = self.pipe
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if p.recv_errno is not None:
            e, p.recv_errno = p.recv_errno, None
            p.rst = True
            self.net.count("recv_error")
            raise OSError(e, errno.errorcode[e])
        if p.rst and not p.rcvbuf:
            self.net.count("recv_reset")
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        if p.rcvbuf:
            out = bytes(p.rcvbuf[:n])
            del p.rcvbuf[:n]
            p.total_recv += len(out)
            self.net.note("recv", p.cid, len(out))
            return out
        if p.fin_arrived:
            self.net.note("recv", p.cid, 0)
            return b""
        raise BlockingIOError(errno.EAGAIN, "again")

    def recv_into(self, buf):
        data = self.recv(len(buf))
        buf[: len(data)] = data
        return len(data)

    def send(self, data, flags=0):
        p = self.pipe
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if p.rst:
            self.net.count("send_reset")
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        if p.srv_shutdown:
            raise BrokenPipeError(errno.EPIPE, "shut down")
        if p.send_fail is not None and p._fail_due():
            e = p.send_fail[1]
            p.rst = True
            self.net.count("send_error")
            self.net.note("send_error", p.cid, e)
            raise OSError(e, errno.errorcode[e])
        if p.client_gone:
            # The peer closed: its kernel answers the first data with RST.
            if p.dead_sends and p.dead_sends > 0:
                p.dead_sends -= 1
                self.net.count("send_into_closed")
                p.total_sent += len(data)
                return len(data)
            self.net.count("send_epipe")
            raise BrokenPipeError(errno.EPIPE, "peer gone")
        space = p.eff(p.sndbuf, 8192) - len(p.s2c)
        if space <= 0:
            raise BlockingIOError(errno.EAGAIN, "again")
        n = min(space, len(data))
        if p.send_fail is not None:
            n = min(n, max(1, p.send_fail[0] - p.total_sent))
        if p.partial:
            n = min(n, p.eff(p.partial, 2000))
        if n < len(data):
            self.net.count("partial_send")
        p.s2c += bytes(data[:n])
        p.total_sent += n
        self.net.note("send", p.cid, n)
        return n

    def sendmsg(self, buffers, *a):
        total = 0
        out = bytearray()
        cap = self.pipe.eff(self.pipe.sndbuf, 8192) - len(self.pipe.s2c) if self.pipe else 0
        for b in buffers:
            out += b
            if len(out) > max(cap, 1 << 16):
                break
        return self.send(bytes(out)) + total

    def shutdown(self, how):
        if self.pipe is not None:
            self.pipe.srv_shutdown = True
            self.net.note("shutdown", self.pipe.cid)

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.by_fd.pop(self.fd, None)
            if self.pipe is not None:
                self.pipe.srv_closed = True
                self.net.note("close", self.pipe.cid)

    def detach(self):
        self.close()
        return -1

    def __repr__(self):
        return "<SimSocket fd=%d>" % self.fd

    # readiness
    def readable(self):
        if self.listening:
            return bool(self.backlog)
        return self.pipe.readable()

    def writable(self):
        return self.pipe is not None and self.pipe.writable()


class Net:
    def __init__(self, world):
        self.world = world
        self.fds = itertools.count(1_000_000)
        self.by_fd = {}
        self.pipes = []
        self.listener = None

    def count(self, kind, n=1):
        self.world.count(kind, n)

    def note(self, *ev):
        self.world.note(*ev)


class SimSelector:
    """Selector whose select() is the environment of the simulation."""

    def __init__(self, net):
        self.net = net
        self.keys = {}

    def _fd(self, fileobj):
        return fileobj if isinstance(fileobj, int) else fileobj.fileno()

    def register(self, fileobj, events, data=None):
        fd = self._fd(fileobj)
        if fd in self.keys:
            raise KeyError("already registered")
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.keys[fd] = key
        return key

    def modify(self, fileobj, events, data=None):
        fd = self._fd(fileobj)
        if fd not in self.keys:
            raise KeyError(fd)
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.keys[fd] = key
        return key

    def unregister(self, fileobj):
        return self.keys.pop(self._fd(fileobj))

    def get_key(self, fileobj):
        return self.keys[self._fd(fileobj)]

    def get_map(self):
        return self.keys

    def close(self):
        self.keys.clear()

    def ready(self):
        out = []
        for fd, key in list(self.keys.items()):
            s = self.net.by_fd.get(fd)
            if s is None:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and s.readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and s.writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        return self.net.world.env_select(self, timeout)


class SimLoop(asyncio.selector_events.BaseSelectorEventLoop):
    def __init__(self, net):
        self._sim_time = 1000.0
        super().__init__(SimSelector(net))
        self._clock_resolution = 1e-6

    def time(self):
        return self._sim_time

    def _make_self_pipe(self):
        self._ssock = self._csock = None
        self._internal_fds = 0

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        pass

    def run_in_executor(self, executor, func, *args):
        # One process, one thread: "another thread" runs to completion now.
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as e:  # noqa: BLE001
            fut.set_exception(e)
        return fut

    def has_ready(self):
        return bool(self._ready)
