"""Determinism of the simulator: the digest of run i must not depend on the
process it is made in, on the runs made before it, or on the load of the machine.

    python tools/selftest.py [n] [ids...]
"""
import concurrent.futures
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def digests(pid, n, start):
    p = subprocess.run([PY, "-B", "-m", "dst.main", "digests", pid, str(n), "--start", str(start)],
                       cwd=HERE, capture_output=True, text=True, timeout=3600)
    return [l for l in p.stdout.splitlines() if l and l[0].isdigit()]


def test(pid, n):
    a = digests(pid, n, 0)
    b = digests(pid, n, 0)
    c = digests(pid, n - n // 2, n // 2)
    bad = [x for x, y in zip(a, b) if x != y] + [x for x, y in zip(a[n // 2:], c) if x != y]
    ok = len(a) == len(b) == n and len(c) == n - n // 2 and not bad
    return pid, ok, len(a), bad[:3]


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 19)]
    rc = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for pid, ok, k, bad in ex.map(lambda p: test(p, n), ids):
            print(pid, "deterministic" if ok else "DIFFERS", k, *bad, flush=True)
            rc |= not ok
    sys.exit(rc)
