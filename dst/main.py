"""Command line: check / replay / selftest."""
import argparse
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", "-m", "dst.main"] + sys.argv[1:])

sys.path.insert(0, HERE)
from dst import bootstrap  # noqa: E402

rmono = bootstrap.real_monotonic
rtime = bootstrap.real_time


class Outcome:
    """What one simulated run produced."""

    def __init__(self):
        self.violations = []
        self.counts = Counter()  # fault kinds fired
        self.probes = Counter()  # situations reached
        self.states = set()
        self.digest = ""
        self.sig = ""
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = True
        self.trace = None
        self.note = None

    @classmethod
    def of(cls, world):
        o = cls()
        o.take(world)
        return o

    def take(self, world):
        self.violations.extend(world.violations)
        self.counts.update(world.counts)
        self.digest += world.digest()
        self.sig += world.signature()
        self.sim_time += world.loop.time() - 1000.0
        self.steps += world.steps
        if world.trace is not None:
            self.trace = (self.trace or []) + world.trace
        return self


def load(pid):
    bootstrap.install()
    mod = importlib.import_module("checks." + pid.lower())
    return mod


def one(mod, sc, seed=None, decisions=None, trace=False, rseed=None):
    """Run one scenario.  -> (Outcome, decisions)"""
    from dst.chooser import Chooser
    from dst.world import seed_world

    seed_world(rseed if rseed is not None else sc.get("rseed", 0))
    ch = Chooser(seed=seed, decisions=decisions)
    o = mod.run(sc, ch, trace)
    return o, ch.rec


def seeds_for(pid, base, i):
    return "%s-%s-%s" % (pid, base, i)


def make(mod, pid, base, i, tier):
    rng = random.Random("gen-" + seeds_for(pid, base, i))
    sc = mod.gen(rng, i, tier)
    sc.setdefault("rseed", rng.randrange(1 << 30))
    # JSON round trip: what runs is what the replay file can hold
    return json.loads(json.dumps(sc))


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def worker(mod, pid, base, tier, n, w, nw, best, fd, deadline):
    import gc

    limits()
    gc.collect()
    gc.freeze()
    out = {"runs": 0, "counts": Counter(), "probes": Counter(), "sigs": set(), "digs": set(), "states": set(),
           "sim": 0.0, "steps": 0, "viol": None, "errors": [], "nontrivial": set(), "samples": [],
           "truncated": False, "replayed": 0, "replay_diff": 0, "ndec": 0}
    view = memoryview(best)
    for i in range(w, n, nw):
        if i > struct.unpack("<q", view[:8])[0]:
            break
        if rmono() > deadline:
            out["truncated"] = True
            break
        os.write(fd, struct.pack("<q", i))
        try:
            sc = make(mod, pid, base, i, tier)
            o, dec = one(mod, sc, seed=seeds_for(pid, base, i))
        except Exception:  # noqa: BLE001
            out["errors"].append((i, traceback.format_exc()))
            if len(out["errors"]) >= 3:
                break
            continue
        out["runs"] += 1
        out["counts"].update(o.counts)
        out["probes"].update(o.probes)
        out["sigs"].add(o.sig)
        out["states"].update(o.states)
        out["sim"] += o.sim_time
        out["steps"] += o.steps
        out["ndec"] += len(dec)
        if o.nontrivial:
            out["nontrivial"].add(o.digest)
        if i < 3 or (len(out["samples"]) < 1 and o.nontrivial and w == 0):
            s = json.dumps(sc)
            out["samples"].append({"index": i, "decisions": len(dec), "scenario": sc if len(s) < 3000 else s[:3000]})
        new = [v for v in o.violations]
        if new:
            known, fresh = split_known(mod, pid, sc, new)
            for k in known:
                out.setdefault("known", set()).add(k)
            if fresh:
                out["viol"] = (i, sc, dec, fresh)
                cur = struct.unpack("<q", view[:8])[0]
                if i < cur:
                    view[:8] = struct.pack("<q", i)
                break
        elif i < 4 * nw and i % 4 == 0:
            # exact replay from the recorded decisions, every tier, every run
            o2, dec2 = one(mod, sc, decisions=dec)
            out["replayed"] += 1
            if o2.digest != o.digest or dec2 != dec:
                out["replay_diff"] += 1
                out["errors"].append((i, "nondeterministic: replay of run %d differs" % i))
        if out["runs"] % 25 == 0:
            gc.collect()
    return out


def known_list():
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def split_known(mod, pid, sc, viols):
    known, fresh = [], []
    ks = [k for k in known_list() if k.get("property") == pid and k.get("status") == "known"]
    for v in viols:
        hit = None
        for k in ks:
            fn = getattr(mod, "is_known", None)
            if fn and fn(k["id"], v, sc):
                hit = k["id"]
                break
        if hit:
            known.append(hit)
        else:
            fresh.append(v)
    return known, fresh


def run_check(pid, tier, runs=None, workers=None, wall=None, verbose=False):
    t0 = rmono()
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = load(pid)
    n = runs or (mod.THOROUGH_RUNS if tier == "thorough" else mod.QUICK_RUNS)
    nw = workers or min(8, os.cpu_count() or 1)
    cap = wall or (float(os.environ.get("VERIF_WALL", 0)) or (3000.0 if tier == "thorough" else 400.0))
    deadline = t0 + cap
    hang_limit = getattr(mod, "WALL_PER_RUN", 150.0)

    best = mmap.mmap(-1, 16)
    best[:8] = struct.pack("<q", 1 << 60)
    tmp = tempfile.mkdtemp(prefix="dst-")
    kids = {}
    for w in range(nw):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                os.close(r)
                out = worker(mod, pid, base, tier, n, w, nw, best, wr, deadline)
                with open(os.path.join(tmp, "%d.pkl" % w), "wb") as f:
                    pickle.dump(out, f)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        kids[r] = {"pid": pid_, "w": w, "last": rmono(), "idx": None}
    stuck = []
    open_fds = set(kids)
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        now = rmono()
        for r in rd:
            b = os.read(r, 8 * 512)
            k = kids[r]
            if not b:
                open_fds.discard(r)
                continue
            k["last"] = now
            k["idx"] = struct.unpack("<q", b[-8:])[0]
        for r in list(open_fds):
            k = kids[r]
            if now - k["last"] > hang_limit:
                # a run that neither ends nor reacts to the CPU watchdog
                os.kill(k["pid"], signal.SIGKILL)
                stuck.append(k["idx"])
                open_fds.discard(r)
    codes = {}
    for r, k in kids.items():
        _, st = os.waitpid(k["pid"], 0)
        codes[k["w"]] = (st, k["idx"])
        os.close(r)

    tot = {"runs": 0, "counts": Counter(), "probes": Counter(), "sigs": set(), "states": set(), "sim": 0.0,
           "steps": 0, "errors": [], "nontrivial": set(), "samples": [], "truncated": False, "known": set(),
           "replayed": 0, "replay_diff": 0, "ndec": 0}
    viols = []
    crashed = []
    for w in range(nw):
        try:
            with open(os.path.join(tmp, "%d.pkl" % w), "rb") as f:
                o = pickle.load(f)
        except Exception:  # noqa: BLE001
            if codes[w][1] not in stuck:
                crashed.append((w, codes[w]))
            continue
        for k in ("counts", "probes"):
            tot[k].update(o[k])
        for k in ("sigs", "states", "nontrivial"):
            tot[k] |= o[k]
        tot["known"] |= o.get("known", set())
        for k in ("runs", "sim", "steps", "replayed", "replay_diff", "ndec"):
            tot[k] += o[k]
        tot["errors"] += o["errors"]
        tot["samples"] += o["samples"]
        tot["truncated"] |= o["truncated"]
        if o["viol"]:
            viols.append(o["viol"])
        try:
            os.unlink(os.path.join(tmp, "%d.pkl" % w))
        except OSError:
            pass
    os.rmdir(tmp)
    wall_search = rmono() - t0

    rc = 0
    replay_path = None
    vio_lines = []
    if viols:
        viols.sort(key=lambda v: v[0])
        i, sc, dec, vs = viols[0]
        replay_path = report(mod, pid, base, tier, i, sc, dec, vs)
        vio_lines.append("VIOLATION property=%s replay=%s" % (pid, replay_path))
        rc = 1
    elif stuck:
        i = min(x for x in stuck if x is not None)
        sc = make(mod, pid, base, i, tier)
        replay_path = write_replay(pid, base, i, sc, None, [("hang-wall", "run did not end within %.0f s" % hang_limit)],
                                   "", None, minimised=False)
        vio_lines.append("VIOLATION property=%s replay=%s" % (pid, replay_path))
        rc = 1
    elif tot["errors"] or crashed:
        rc = 2
    elif tot["runs"] == 0:
        rc = 2

    tot["samples"].sort(key=lambda s: s["index"])
    wall_s = rmono() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": base,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(tot["nontrivial"]),
            "rule": mod.RULE,
            "samples": tot["samples"][:3],
            "simulated_runs_per_hour": int(tot["runs"] / max(wall_search, 1e-9) * 3600),
            "simulated_time_s": round(tot["sim"], 3),
            "event_loop_iterations": tot["steps"],
            "scheduler_decisions": tot["ndec"],
            "distinct_interleavings": len(tot["sigs"]),
            "interleaving_measure": "hash of the order of environment actions (connect, deliver, client read, EOF, "
                                    "reset, gate release, kill, clock) per connection and of event-loop iteration boundaries",
            "distinct_states": len(tot["states"]),
            "state_measure": getattr(mod, "STATE_RULE", "abstract situations named by the oracle (see probes)"),
            "faults_injected": dict(sorted(tot["counts"].items())),
            "probes_reached": dict(sorted(tot["probes"].items())),
            "runs_replayed_from_decisions": tot["replayed"],
            "replays_that_differed": tot["replay_diff"],
            "real_components": getattr(mod, "REAL", REAL),
            "stub_components": getattr(mod, "STUB", STUB),
            "stopped_by_wall_cap": tot["truncated"],
            "workers": nw,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": len(viols) + (1 if stuck and not viols else 0),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    for k in known_list():
        if k.get("property") == pid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for i, e in tot["errors"][:3]:
        print("HARNESS-ERROR property=%s run=%s\n%s" % (pid, i, e))
    for c in crashed:
        print("HARNESS-ERROR property=%s worker died: %s" % (pid, c))
    print("%s %s: %d runs, %d distinct interleavings, %.1f s simulated, %.1f s wall%s" % (
        pid, tier, tot["runs"], len(tot["sigs"]), tot["sim"], wall_s, " (wall cap)" if tot["truncated"] else ""))
    if verbose:
        print(json.dumps({k: ev["coverage"][k] for k in ("faults_injected", "probes_reached", "distinct_nontrivial", "distinct_states")}, indent=1))
    for line in vio_lines:
        print(line)
    sys.stdout.flush()
    return rc


REAL = ["mysql_mimic (all modules, unmodified import from /repo)", "asyncio event loop, selector transports, "
        "StreamReader/StreamWriter, asyncio.Server", "ssl / asyncio SSLProtocol (TLS scenarios)", "sqlglot"]
STUB = ["kernel sockets and selector (simulated)", "clock (virtual)", "os.urandom / random (seeded)",
        "MySQL clients (independent strict protocol implementation)", "application session (table-driven, recording)"]


def fails_like(mod, kinds):
    """test function for the shrinker"""
    def test(sc, dec):
        try:
            o, used = one(mod, sc, decisions=list(dec))
        except Exception:  # noqa: BLE001
            return False, None
        except BaseException:  # noqa: BLE001
            return False, None
        _, fresh = split_known(mod, mod.ID, sc, o.violations)
        return any(k in kinds for k, _ in fresh), used
    return test


def report(mod, pid, base, tier, i, sc, dec, vs):
    """Minimise in a child process, write the replay file, confirm it in a fresh process."""
    from dst import shrink

    kinds = {vs[0][0]}
    path0 = write_replay(pid, base, i, sc, dec, vs, "", None, minimised=False)
    budget = float(os.environ.get("VERIF_SHRINK", "30"))
    if "hang" in vs[0][0]:
        budget = min(budget, 30.0)
    r, w = os.pipe()
    child = os.fork()
    if child == 0:
        try:
            os.close(r)
            limits()
            test = fails_like(mod, kinds)
            ok, used = test(sc, dec)
            if ok:
                s2, d2 = shrink.minimise(sc, dec, test, secs=budget)
                o, used = one(mod, s2, decisions=list(d2), trace=True)
                if any(k in kinds for k, _ in o.violations):
                    p = write_replay(pid, base, i, s2, d2, o.violations, o.digest, o.trace, minimised=True)
                    os.write(w, p.encode())
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    end = rmono() + budget * 2 + 60
    buf = b""
    while True:
        rd, _, _ = select.select([r], [], [], max(0.1, end - rmono()))
        if not rd:
            os.kill(child, signal.SIGKILL)
            break
        b = os.read(r, 4096)
        if not b:
            break
        buf += b
    os.waitpid(child, 0)
    os.close(r)
    path = buf.decode() or path0
    kind, detail = vs[0]
    try:
        with open(path) as f:
            d = json.load(f)
        kind, detail = d["violations"][0]
    except Exception:  # noqa: BLE001
        pass
    print("property %s violated: %s" % (pid, kind))
    print("  " + str(detail)[:1500].replace("\n", "\n  "))
    # a fresh process must fail the same way
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "dst.main", "replay", path], cwd=HERE, capture_output=True,
                           text=True, timeout=200, env=dict(os.environ))
        same = p.returncode == 1 and "REPRODUCED" in p.stdout
    except subprocess.TimeoutExpired:
        same = False
    print("  replay in a fresh process: %s" % ("reproduced exactly" if same else "NOT reproduced"))
    return path


def write_replay(pid, base, i, sc, dec, vs, digest, trace, minimised):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s%s.json" % (pid, base, i, "" if minimised else "-raw"))
    with open(p, "w") as f:
        json.dump({"property": pid, "seed": base, "index": i, "violations": [list(v) for v in vs], "scenario": sc,
                   "decisions": dec, "digest": digest, "minimised": minimised,
                   "run_seed": seeds_for(pid, base, i), "trace": trace}, f, indent=1)
    return p


def replay(path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    limits()
    if d["decisions"] is None:
        o, used = one(mod, d["scenario"], seed=d["run_seed"], trace=True)
    else:
        o, used = one(mod, d["scenario"], decisions=list(d["decisions"]), trace=True)
    want = {v[0] for v in d["violations"]}
    got = {v[0] for v in o.violations}
    if not quiet:
        for line in (o.trace or [])[-400:]:
            print(line)
        print("scenario: " + json.dumps(d["scenario"])[:4000])
        for v in o.violations:
            print("VIOLATED %s: %s" % (v[0], v[1]))
    if want & got:
        if not d["digest"] or d["digest"] == o.digest:
            print("REPRODUCED")
        else:
            print("REPRODUCED-KIND-ONLY (event log differs: %s)" % o.digest)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced")
    return 0


def digests(pid, tier, n, start=0):
    """Print one line per run: used by the determinism self-test."""
    mod = load(pid)
    base = int(os.environ.get("VERIF_SEED", "1"))
    for i in range(start, start + n):
        sc = make(mod, pid, base, i, tier)
        o, dec = one(mod, sc, seed=seeds_for(pid, base, i))
        print(i, o.digest, len(dec), sorted(set(k for k, _ in o.violations)))


def show(pid, tier, i):
    mod = load(pid)
    base = int(os.environ.get("VERIF_SEED", "1"))
    sc = make(mod, pid, base, i, tier)
    o, dec = one(mod, sc, seed=seeds_for(pid, base, i), trace=True)
    print(json.dumps(sc, indent=1)[:6000])
    print("\n".join((o.trace or [])[:300]))
    print(o.violations, dict(o.probes), dict(o.counts))


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    a = sub.add_parser("check")
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--runs", type=int)
    a.add_argument("--workers", type=int)
    a.add_argument("--wall", type=float)
    a.add_argument("-v", action="store_true")
    a = sub.add_parser("replay")
    a.add_argument("path")
    a.add_argument("-q", action="store_true")
    a = sub.add_parser("digests")
    a.add_argument("id")
    a.add_argument("n", type=int)
    a.add_argument("--start", type=int, default=0)
    a.add_argument("--tier", default="quick")
    a = sub.add_parser("show")
    a.add_argument("id")
    a.add_argument("i", type=int)
    a.add_argument("--tier", default="quick")
    args = ap.parse_args()
    if args.cmd == "check":
        rc = run_check(args.id, args.tier, args.runs, args.workers, args.wall, args.v)
    elif args.cmd == "replay":
        rc = replay(args.path, args.q)
    elif args.cmd == "digests":
        digests(args.id, args.tier, args.n, args.start)
        rc = 0
    else:
        show(args.id, args.tier, args.i)
        rc = 0
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
