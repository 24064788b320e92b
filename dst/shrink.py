"""Minimise (scenario, decisions) while the same class of violation persists."""
import copy

from .bootstrap import real_monotonic


class Budget:
    def __init__(self, secs, tries):
        self.end = real_monotonic() + secs
        self.tries = tries

    def ok(self):
        return self.tries > 0 and real_monotonic() < self.end


def paths(x, pre=()):
    """All container positions, outermost first."""
    out = []
    if isinstance(x, dict):
        for k in x:
            out.append(pre + (k,))
            out.extend(paths(x[k], pre + (k,)))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out.append(pre + (i,))
            out.extend(paths(v, pre + (i,)))
    return out


def get(x, path):
    for p in path:
        x = x[p]
    return x


def minimise(sc, dec, test, secs=40.0, tries=4000):
    """test(sc, dec) -> (still fails, decisions actually used)"""
    b = Budget(secs, tries)

    def t(s, d):
        if not b.ok():
            return None
        b.tries -= 1
        ok, used = test(s, d)
        return used if ok else None

    # decisions first: the default schedule is the simplest explanation
    u = t(sc, [])
    if u is not None:
        dec = _strip(u)
    else:
        dec = _shrink_dec(sc, dec, t, b, coarse=True)
    changed = True
    rounds = 0
    while changed and b.ok() and rounds < 6:
        rounds += 1
        changed = False
        sc2, dec2 = _shrink_sc(sc, dec, t, b)
        if sc2 != sc:
            changed = True
        sc, dec = sc2, dec2
        d2 = _shrink_dec(sc, dec, t, b, coarse=False)
        if d2 != dec:
            changed = True
            dec = d2
    return sc, dec


def _strip(d):
    d = list(d)
    while d and d[-1] == 0:
        d.pop()
    return d


def _shrink_dec(sc, dec, t, b, coarse):
    dec = _strip(dec)
    # truncate
    lo = len(dec)
    step = lo // 2
    while step >= 1 and b.ok():
        if len(dec) - step >= 0:
            u = t(sc, dec[: len(dec) - step])
            if u is not None:
                dec = _strip(dec[: len(dec) - step])
                step = min(step, len(dec) // 2) or (0 if not dec else 1)
                continue
        step //= 2
    # delete / zero blocks
    size = max(1, len(dec) // 2)
    floor = max(1, len(dec) // 32) if coarse else 1
    while size >= floor and b.ok():
        i = 0
        while i < len(dec) and b.ok():
            cand = dec[:i] + dec[i + size:]
            if t(sc, cand) is not None:
                dec = _strip(cand)
                continue
            blk = dec[i:i + size]
            if any(blk):
                cand = dec[:i] + [0] * len(blk) + dec[i + size:]
                if t(sc, cand) is not None:
                    dec = _strip(cand)
            i += size
        size //= 2
    return dec


def _set(x, path, v):
    y = copy.deepcopy(x)
    get(y, path[:-1])[path[-1]] = v
    return y


def _del(x, path):
    y = copy.deepcopy(x)
    del get(y, path[:-1])[path[-1]]
    return y


def _shrink_sc(sc, dec, t, b):
    # delete list elements (last first), chunks then singles
    i = 0
    ps = paths(sc)
    while i < len(ps) and b.ok():
        p = ps[i]
        try:
            v = get(sc, p)
        except (KeyError, IndexError, TypeError):
            i += 1
            continue
        if isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1 and b.ok():
                j = len(get(sc, p)) - size
                while j >= 0 and b.ok():
                    cur = get(sc, p)
                    cand = _set(sc, p, cur[:j] + cur[j + size:])
                    u = t(cand, dec)
                    if u is not None:
                        sc = cand
                        j = min(j, len(get(sc, p)) - size)
                        continue
                    j -= size
                size //= 2
            ps = paths(sc)
        i += 1
    # simplify scalars, drop dict keys
    for p in sorted(paths(sc), key=len):
        if not b.ok():
            break
        try:
            v = get(sc, p)
        except (KeyError, IndexError, TypeError):
            continue
        parent = get(sc, p[:-1])
        if isinstance(parent, dict) and isinstance(p[-1], str):
            cand = _del(sc, p)
            if t(cand, dec) is not None:
                sc = cand
                continue
        cands = []
        if isinstance(v, bool):
            cands = [False] if v else []
        elif isinstance(v, int):
            cands = [c for c in (0, 1, v // 2, v - 1) if c != v and abs(c) < abs(v)] if v else []
        elif isinstance(v, float):
            cands = [0.0, 1.0] if v not in (0.0, 1.0) else []
        elif isinstance(v, str) and len(v) > 16:
            # short strings name operations: a part of one would mean nothing
            cands = [v[: len(v) // 2], v[len(v) // 2:], v[:-1], v[1:]]
        for c in cands:
            if not b.ok():
                break
            cand = _set(sc, p, c)
            if t(cand, dec) is not None:
                sc = cand
                break
    return sc, dec
