"""Decides texts of several characters for whole sets of characters per position.

Characters are grouped by everything UAX #15 looks at: two characters of one group (no decomposition, part of no composition,
same combining class) are interchangeable, so the expected text of a region is one pattern per combination of groups."""
import functools, itertools
import numpy as np
import oracle as o
from lib import N, size
from pairs import indices


@functools.lru_cache(None)
def firsts():
    return frozenset({a for a, _ in o.pairs()} | set(range(o.LB, o.LB + o.LC)) | set(range(o.SB, o.SB + o.SC, o.TC)))


@functools.lru_cache(None)
def seconds():
    return frozenset({b for _, b in o.pairs()} | set(range(o.VB, o.VB + o.VC)) | set(range(o.TB + 1, o.TB + o.TC)))


@functools.lru_cache(None)
def groups(compat):
    """group number per code point: -(class) - 1 for interchangeable characters, the code point itself for the others"""
    r = o.ranks()
    g = -(r.astype(np.int64)) - 1
    for c in set(o.COMPAT if compat else o.CANON) | set(range(o.SB, o.SB + o.SC)) | firsts() | seconds():
        g[c] = c
    return g


def check_family(form, result, limit=20):
    """returns (texts, cells, cells right, [(text, got, how many)])"""
    fn = o.FORMS[form]
    g = groups(form in ("nfkd", "nfkc"))
    n = cells = ok = 0
    bad = []
    for c in result["cells"]:
        regs, out = c["regs"], c["out"]["s"]
        k = size(regs)
        n += k
        cells += 1
        idx = [indices(r) for r in regs]
        parts = []
        for i in idx:
            gi = g[i]
            u, first, inv = np.unique(gi, return_index=True, return_inverse=True)
            order = np.argsort(inv.reshape(-1), kind="stable")
            cuts = np.split(order, np.cumsum(np.bincount(inv.reshape(-1)))[:-1])
            parts.append([(int(a), q) for a, q in zip(u, cuts)])
        vals = []
        for v in out:
            if "c" in v:
                vals.append((None, v["c"]))
            elif "f" in v:
                a = np.full(N, -1, dtype=np.int64) if False else {}
                s = v["f"]
                arr = np.full(len(idx[s]), -1, dtype=np.int64)
                for p in v["p"]:
                    m = (idx[s] >= p[0]) & (idx[s] <= p[1])
                    arr[m] = p[2] if len(p) == 3 else p[2] + p[3] * (idx[s][m] - p[0])
                vals.append((s, arr))
            else:
                vals = None
                break
        if vals is None:
            continue
        wrong = 0
        for combo in itertools.product(*parts):
            t = [int(idx[j][q[0]]) for j, (a, q) in enumerate(combo)]
            cnt = 1
            for a, q in combo:
                cnt *= len(q)
            # tokens: interchangeable characters stay symbolic, as one distinct stand-in per position
            tok = trace(fn, t, [a < 0 for a, _ in combo])
            why = None
            if len(tok) != len(vals):
                why = 0
            else:
                for (kind, w), (s, v) in zip(tok, vals):
                    if kind == "c":
                        if s is None:
                            if v != w:
                                why = 0
                                break
                        else:
                            q = combo[s][1]
                            z = np.nonzero(v[q] != w)[0]
                            if len(z):
                                t[s] = int(idx[s][q[z[0]]])
                                why = 0
                                break
                    else:
                        q = combo[w][1]
                        want = idx[w][q]
                        if s == w:
                            z = np.nonzero(v[q] != want)[0]
                            if len(z):
                                t[w] = int(want[z[0]])
                                why = 0
                                break
                        else:
                            have = v if s is None else int(v[combo[s][1][0]])
                            z = np.nonzero(want != have)[0]
                            if len(z):
                                t[w] = int(want[z[0]])
                                why = 0
                                break
                            if s is not None:
                                q2 = combo[s][1]
                                z = np.nonzero(v[q2] != have)[0]
                                if len(z):
                                    t[s] = int(idx[s][q2[z[0]]])
                                    why = 0
                                    break
            if why is not None:
                wrong += cnt
                if len(bad) < limit:
                    got = []
                    for s, v in vals:
                        got.append(int(v) if s is None else int(v[int(np.nonzero(idx[s] == t[s])[0][0])]))
                    bad.append((tuple(t), tuple(got), cnt))
        ok += wrong == 0
    return n, cells, ok, bad


def trace(fn, t, free):
    """the expected text, with the characters that are interchangeable given as the position they come from"""
    # equal characters at two free positions keep their order (ordering is stable), so the j-th occurrence in the result is
    # the j-th free position holding it
    res = fn(tuple(t))
    src = {}
    for j, c in enumerate(t):
        if free[j]:
            src.setdefault(c, []).append(j)
    out = []
    for c in res:
        if src.get(c):
            out.append(("s", src[c].pop(0)))
        else:
            out.append(("c", c))
    return out


def ranges(chars):
    """job syntax for a set of characters"""
    cs = sorted(set(chars))
    out = []
    a = b = cs[0]
    for c in cs[1:]:
        if c == b + 1:
            b = c
            continue
        out.append((a, b))
        a = b = c
    out.append((a, b))
    return ",".join(f"{x:#x}-{y:#x}" if x != y else f"{x:#x}" for x, y in out)


@functools.lru_cache(None)
def marks():
    return tuple(int(c) for c in np.nonzero(o.ranks())[0])


def mark_sample(per=1):
    """marks: every one that takes part in a composition or decomposition, and `per` of each combining class besides"""
    g = groups(True)
    out, seen = [], {}
    for c in marks():
        if g[c] >= 0:
            out.append(c)
        elif seen.get(g[c], 0) < per:
            seen[g[c]] = seen.get(g[c], 0) + 1
            out.append(c)
    return out
