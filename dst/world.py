"""The simulated world: environment scheduler, faults, clients, application."""
import asyncio
import errno
import gc
import hashlib
import random
import signal
import struct
import sys
import traceback
import warnings
from collections import Counter

from .bootstrap import Seams, real_perf_counter
from .net import Net, Pipe, SimLoop, SimSocket, Hang

warnings.simplefilter("ignore")


class Violation(Exception):
    """A property does not hold.  `kind` is a stable class used by the shrinker."""

    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = str(detail)


class Closed(Exception):
    """The server ended the connection while the client wanted bytes."""


# What a client script may yield
class _Tok:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


GO = _Tok("GO")  # wait until the scheduler picks this client
RECV = _Tok("RECV")  # wait for bytes or end of stream
QUIESCE = _Tok("QUIESCE")  # wait until nothing else can happen (time may not pass)
SETTLE = _Tok("SETTLE")  # as QUIESCE, after timers have fired as well


class Cond:
    def __init__(self, fn):
        self.fn = fn


class Sleep:
    def __init__(self, dt):
        self.dt = dt


class SimClient:
    def __init__(self, world, idx, script, cfg):
        self.world = world
        self.idx = idx
        self.cfg = cfg or {}
        self.weight = float(self.cfg.get("weight", 1.0))
        self.c2s = self.cfg.get("c2s", "all")
        self.pipe = None
        self.inbuf = bytearray()
        self.raw_in = 0
        self.eof = False
        self.rst = False
        self.refused = False
        self.reading = True
        self.read_max = self.cfg.get("read_max", 0)
        self.closed = False
        self.tls = None
        self.wake_at = None
        self.done = False
        self.error = None
        self.result = None
        self.wait = GO
        self.sent_bytes = 0
        self.fail_after = None  # fault: (client bytes on the wire, kind)
        self.after_recv = None  # fault: (bytes received from the server, kind)
        self.gen = script(self)

    # ---- transport as the script sees it
    def connect(self):
        w = self.world
        p = Pipe(w.net, self.idx)
        p.sndbuf = self.cfg.get("sndbuf", 1 << 40)
        p.partial = self.cfg.get("partial", 0)
        if "slow_until" in self.cfg:
            p.slow_until = self.cfg["slow_until"]
        sf = self.cfg.get("send_fail")
        if sf:
            p.send_fail = (sf[0], sf[1])
        p.dead_sends = self.cfg.get("dead_sends", 0)
        self.pipe = p
        w.net.pipes.append(p)
        lst = w.net.listener
        if lst is None or lst.closed:
            self.refused = True
            self.eof = True
            return
        lst.backlog.append(p)
        w.note("connect", self.idx)

    def send(self, data):
        """Bytes into the socket (through TLS when it is on)."""
        if self.tls is not None:
            self.tls.write(data)
            return
        self.send_raw(data)

    def send_raw(self, data):
        if self.closed or self.rst or self.pipe is None:
            return
        self.sent_bytes += len(data)
        self.pipe.wire += data
        self.world.note("csend", self.idx, len(data))

    def close(self, kind="fin"):
        """fin: orderly close; half: only our direction; rst: abort."""
        p = self.pipe
        if p is None or self.closed:
            return
        self.world.count("client_" + kind)
        self.world.note("cclose", self.idx, kind)
        if kind == "half":
            p.fin_sent = True
            return
        self.closed = True
        if kind == "rst":
            p.wire.clear()
            p.rcvbuf.clear()
            p.rst = True
            p.client_gone = True
            p.s2c.clear()
        else:
            p.fin_sent = True
            p.client_gone = True
            p.s2c.clear()

    def feed(self, data):
        self.raw_in += len(data)
        if self.tls is not None:
            self.tls.feed(data)
        else:
            self.inbuf += data

    # ---- driving the script
    def runnable(self):
        w = self.wait
        if self.done:
            return False
        if w is RECV:
            return self._mark != self.raw_in or self.eof or self.rst
        if isinstance(w, Cond):
            return bool(w.fn())
        if isinstance(w, Sleep):
            return self.world.loop.time() >= self.wake_at
        return False

    def step(self):
        w = self.world
        try:
            self.wait = next(self.gen)
        except StopIteration as e:
            self.done = True
            self.result = e.value
            w.note("cdone", self.idx)
            return
        except Violation as e:
            self.done = True
            self.error = e
            w.violate(e.kind, "client %d: %s" % (self.idx, e.detail))
            return
        except Closed as e:
            self.done = True
            self.error = e
            w.note("cclosed", self.idx)
            return
        except (ValueError, KeyError, IndexError, TypeError, AttributeError, struct.error) as e:
            # an answer of a shape no client expects
            self.done = True
            self.error = e
            at = traceback.extract_tb(e.__traceback__)[-1]
            # the place is part of the kind: a scenario shrunk to something inconsistent fails elsewhere
            w.violate("client-cannot-decode/%s:%d" % (at.filename.rsplit("/", 1)[-1], at.lineno), "client %d: %r\n%s" % (self.idx, e, _short_tb(e)))
            return
        self._mark = self.raw_in
        if isinstance(self.wait, Sleep):
            self.wake_at = w.loop.time() + self.wait.dt

    def pump(self):
        n = 0
        while not self.done and self.runnable():
            self.step()
            n += 1
            if n > 1_000_000:
                raise RuntimeError("client script spins")

    def __repr__(self):
        return "<client %d>" % self.idx


class World:
    STEP_CAP = 400_000

    def __init__(self, chooser, sched=None, trace=False, step_cap=None):
        self.ch = chooser
        self.sched = sched or {}
        self.busy_p = self.sched.get("busy", 0.3)
        self.kind_w = self.sched.get("w", {})
        self.trace = [] if trace else None
        self.counts = Counter()
        self.violations = []
        self.steps = 0
        self.step_cap = step_cap or self.STEP_CAP
        self.nevents = 0
        self._h = hashlib.blake2b(digest_size=16)
        self._sig = hashlib.blake2b(digest_size=8)
        self.nsig = 0
        self.net = Net(self)
        self.loop = None
        self.clients = []
        self.gates = []
        self.gate_seq = 0
        self.wall_offset = 0.0
        self.clock_jumps = []
        self.finished = False
        self.started = False
        self.tearing = False
        self.stop_on_violation = True
        self.hooks_after_event = []
        self.faults = []  # [(predicate-name, ...)] see add_fault
        self.ext_actions = []  # callables -> list of (weight, tag, fn)
        self.on_iteration = None
        self.loop_exceptions = []
        self.time_cap = self.sched.get("time_cap", 100_000.0)
        self.latency = self.sched.get("latency", 0.001)

    # ---- bookkeeping
    def count(self, kind, n=1):
        self.counts[kind] += n

    def note(self, *ev):
        self.nevents += 1
        self._h.update(repr(ev).encode())
        if self.trace is not None:
            t = self.loop.time() - 1000.0 if self.loop else 0.0
            self.trace.append("%6d t=%.3f %s" % (self.nevents, t, " ".join(map(str, ev))))

    def violate(self, kind, detail=""):
        self.note("VIOLATION", kind)
        self.violations.append((kind, str(detail)))

    def wall_time(self):
        t = self.loop.time() if self.loop is not None else 1000.0
        return Seams.base_epoch + (t - 1000.0) + self.wall_offset

    def note_blocking_sleep(self, secs):
        self.violate("blocking-sleep", "time.sleep(%r) on the event loop" % secs)

    def digest(self):
        return self._h.hexdigest()

    def signature(self):
        return self._sig.hexdigest()

    # ---- gates: places where the application waits for the scheduler
    async def gate(self, label, cid=-1):
        fut = self.loop.create_future()
        self.gate_seq += 1
        g = (self.gate_seq, label, cid, fut)
        self.gates.append(g)
        self.note("gate", label)
        try:
            await fut
        finally:
            if g in self.gates:
                self.gates.remove(g)

    def _release(self, g):
        self.note("release", g[1])
        self.gates.remove(g)
        if not g[3].done():
            g[3].set_result(None)

    def held(self, label):
        return False

    # ---- clients
    def client(self, script, cfg=None):
        c = SimClient(self, len(self.clients), script, cfg)
        self.clients.append(c)
        return c

    # ---- environment
    def _chunk(self, c, n):
        mode = c.c2s
        if mode == "all" or n <= 1:
            return n
        if mode in ("byte", "small") and c.pipe.total_recv > c.pipe.slow_until:
            return min(n, 2000)
        if mode == "byte":
            return 1
        if mode == "small":
            return min(n, 1 + self.ch.pick(7))
        if mode == "mtu":
            return min(n, 1460)
        if mode == "big":  # for payloads of many MiB
            return min(n, 65536 << self.ch.pick(5))
        if mode == "rand":
            k = self.ch.pick(4)
            if k == 0:
                return n
            if k == 1:
                return min(n, 1 + self.ch.pick(8))
            if k == 2:
                return min(n, 1 + self.ch.pick(64))
            return min(n, 1 + self.ch.pick(4096))
        if isinstance(mode, list):  # explicit cut points
            while mode:
                k = mode.pop(0)
                if k > 0:
                    return min(n, k)
            return n
        raise ValueError(mode)

    def _deliver(self, c):
        p = c.pipe
        k = self._chunk(c, len(p.wire))
        p.rcvbuf += p.wire[:k]
        del p.wire[:k]
        self.note("deliver", c.idx, k)
        if c.fail_after is not None:
            n, kind = c.fail_after
            if p.total_recv + len(p.rcvbuf) >= n:
                # the client dies once n of its bytes are on the server's side
                extra = p.total_recv + len(p.rcvbuf) - n
                if extra > 0:
                    del p.rcvbuf[len(p.rcvbuf) - extra:]
                p.wire.clear()
                c.fail_after = None
                self.count("crash_client_after_bytes")
                if kind == "rst":
                    c.close("rst")
                elif kind == "half":
                    c.close("half")
                else:
                    c.close("fin")

    def _read(self, c):
        p = c.pipe
        n = len(p.s2c)
        if c.read_max:
            n = min(n, p.eff(c.read_max, 2000))
        if c.after_recv is not None and c.raw_in + n >= c.after_recv[0]:
            n = max(0, c.after_recv[0] - c.raw_in)
            kind = c.after_recv[1]
            c.after_recv = None
            data = bytes(p.s2c[:n])
            del p.s2c[:n]
            self.note("cread", c.idx, n)
            if data:
                c.feed(data)
            c.pump()
            self.count("crash_client_mid_response")
            c.close(kind)
            return
        data = bytes(p.s2c[:n])
        del p.s2c[:n]
        self.note("cread", c.idx, n)
        c.feed(data)

    def _eof(self, c):
        c.eof = True
        self.note("ceof", c.idx)

    def _rst(self, c):
        c.rst = True
        self.note("crst", c.idx)

    def _fin(self, c):
        c.pipe.fin_arrived = True
        self.note("fin", c.idx)

    def actions(self):
        acts = []
        kw = self.kind_w
        for c in self.clients:
            if c.done and (c.pipe is None or c.closed and not c.pipe.fin_sent):
                continue
            p = c.pipe
            wt = c.weight
            if not c.done and c.wait is GO:
                acts.append((wt * kw.get("go", 1.0), "go", c.idx, c.step))
            if p is None or c.refused:
                continue
            if p.wire:
                if not p.srv_closed:
                    acts.append((wt * kw.get("deliver", 1.0), "deliver", c.idx, lambda c=c: self._deliver(c)))
                else:
                    p.wire.clear()
            elif p.fin_sent and not p.fin_arrived and not p.srv_closed:
                acts.append((wt * kw.get("fin", 1.0), "fin", c.idx, lambda c=c: self._fin(c)))
            if not c.closed:
                if p.s2c and c.reading:
                    acts.append((wt * kw.get("cread", 1.0), "cread", c.idx, lambda c=c: self._read(c)))
                elif not p.s2c and (p.srv_closed or p.srv_shutdown) and not c.eof and not p.rst:
                    acts.append((wt, "ceof", c.idx, lambda c=c: self._eof(c)))
                elif p.rst and not c.rst and not p.s2c:
                    acts.append((wt, "crst", c.idx, lambda c=c: self._rst(c)))
        gw = kw.get("gate", 1.0)
        for g in self.gates:
            acts.append((gw, "gate", g[2], lambda g=g: self._release(g)))
        for fn in self.ext_actions:
            acts.extend(fn())
        return acts

    def act(self, acts=None):
        if acts is None:
            acts = self.actions()
        if not acts:
            return False
        i = self.ch.choose([a[0] for a in acts])
        a = acts[i]
        self._sig.update(b"%s%d;" % (a[1].encode(), a[2]))
        self.nsig += 1
        if self.latency:
            self.loop._sim_time += self.latency
        a[3]()
        self.poll()
        return True

    def poll(self):
        for c in self.clients:
            if not c.done:
                c.pump()

    def env_select(self, sel, timeout):
        if self.tearing:
            self._tear_left -= 1
            if self._tear_left <= 0:
                self.loop.stop()
            return sel.ready()
        self.steps += 1
        if self.steps > self.step_cap:
            raise Hang("step cap")
        if self.on_iteration is not None:
            self.on_iteration()
        if self.violations and self.stop_on_violation:
            self.loop.stop()
            return []
        if not self.started:
            return sel.ready()
        self.poll()
        ready = sel.ready()
        if ready or (timeout is not None and timeout <= 0) or self.loop._ready:
            if self.ch.flip(self.busy_p):
                self.act()
                self._sig.update(b"|")
                return sel.ready()
            self._sig.update(b"|")
            return ready
        # idle: the environment must move
        while True:
            if self.act():
                ready = sel.ready()
                if ready or self.loop._ready or (self.violations and self.stop_on_violation):
                    return ready
                continue
            # nothing enabled
            q = next((c for c in self.clients if not c.done and c.wait is QUIESCE), None)
            if q is not None:
                self.note("quiesce", q.idx)
                q.step()
                self.poll()
                ready = sel.ready()
                if ready or self.loop._ready:
                    return ready
                continue
            sleepers = [c for c in self.clients if not c.done and isinstance(c.wait, Sleep)]
            if sleepers:
                t = min(c.wake_at for c in sleepers)
                if timeout is None or self.loop._sim_time + timeout >= t:
                    self.loop._sim_time = max(self.loop._sim_time, t)
                    self.poll()
                    if sel.ready() or self.loop._ready:
                        return sel.ready()
                    continue
            if timeout is not None and self.loop._sim_time < self.time_cap:
                self.loop._sim_time += max(timeout, 1e-6)
                self.note("advance")
                self.count("clock_advance")
                return []
            q = next((c for c in self.clients if not c.done and c.wait is SETTLE), None)
            if q is not None:
                self.note("settle", q.idx)
                q.step()
                self.poll()
                ready = sel.ready()
                if ready or self.loop._ready:
                    return ready
                continue
            self.finished = True
            self.note("quiescent")
            self.loop.stop()
            return []

    # ---- running
    def run(self, server_factory, setup=None, cpu_limit=20.0):
        """server_factory() -> MysqlServer.  Returns when the world is quiescent."""
        Seams.world = self
        old_asyncio_policy_loop = None
        self.loop = SimLoop(self.net)
        self.loop.set_exception_handler(self._loop_exc)
        asyncio.set_event_loop(self.loop)
        gc.disable()
        t0 = real_perf_counter()
        try:
            self.server = server_factory()

            async def boot():
                lst = SimSocket(self.net)
                self.net.listener = lst
                await self.server.start_server(sock=lst, port=None)
                if setup:
                    r = setup()
                    if asyncio.iscoroutine(r):
                        await r
                self.started = True

            self.boot_task = self.loop.create_task(boot())
            with CpuLimit(cpu_limit):
                self.loop.run_forever()
            if self.boot_task.done() and self.boot_task.exception() is not None:
                raise self.boot_task.exception()
        except Hang as e:
            self.note("HANG")
            self.violate("hang", "event loop stuck or step cap reached: %s\n%s" % (e, _short_tb(e)))
        finally:
            self.wall = real_perf_counter() - t0
        return self

    def _loop_exc(self, loop, ctx):
        exc = ctx.get("exception")
        self.loop_exceptions.append((ctx.get("message"), type(exc).__name__ if exc else None))
        if isinstance(exc, (Hang,)):
            raise exc

    def live_tasks(self):
        return [t for t in asyncio.all_tasks(self.loop) if t is not self.boot_task and not t.done()]

    def teardown(self):
        """Release everything of this run."""
        try:
            for c in self.clients:
                c.gen.close()
        except BaseException:  # noqa: BLE001
            pass
        try:
            self.tearing = True
            for _ in range(3):
                self._tear_left = 25
                for t in asyncio.all_tasks(self.loop):
                    t.cancel()
                with CpuLimit(2.0):
                    self.loop.run_forever()
                if not asyncio.all_tasks(self.loop):
                    break
        except BaseException:  # noqa: BLE001
            pass
        try:
            self.loop.close()
        except BaseException:  # noqa: BLE001
            pass
        asyncio.set_event_loop(None)
        Seams.world = None
        self.hooks_after_event = []


def _short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "\n".join("  %s:%d %s" % (f.filename.split("/site-packages/")[-1], f.lineno, f.name) for f in tb[-6:])


class CpuLimit:
    """Raise Hang after `limit` seconds of CPU time of this process."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        def on(sig, frame):
            raise Hang("CPU limit")

        self.old = signal.signal(signal.SIGVTALRM, on)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.limit, 0.5)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


def seed_world(seed):
    """All randomness of the code under test is a function of `seed`."""
    Seams.rng = random.Random("urandom-%s" % seed)
    random.seed("random-%s" % seed)
