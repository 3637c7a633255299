"""Decides, for every pair of characters at once, whether the text an entry computes for <x, y> is the one UAX #15 defines.

The expected text is nfX(x) ++ nfX(y) except where x ends in something y can interact with; those pairs are enumerated."""
import functools
import numpy as np
import oracle as o
from lib import N, size

class Form:
    def __init__(self, form):
        self.form, self.fn = form, o.FORMS[form]
        compat, comp = form in ("nfkd", "nfkc"), form in ("nfc", "nfkc")
        r = o.ranks()
        self.len = np.ones(N, dtype=np.int32)
        self.text = {}                     # only the characters whose form is not themselves
        firsts, seconds = set(), set()
        for a, b in o.pairs():
            firsts.add(a)
            seconds.add(b)
        firsts |= set(range(o.LB, o.LB + o.LC)) | set(range(o.SB, o.SB + o.SC, o.TC))
        seconds |= set(range(o.VB, o.VB + o.VC)) | set(range(o.TB + 1, o.TB + o.TC))
        dec = set(o.COMPAT if compat else o.CANON) | set(range(o.SB, o.SB + o.SC))
        self.xs = np.zeros(N, dtype=bool)  # x after which some y may not simply be appended
        self.ys = np.zeros(N, dtype=bool)  # y which may not simply be appended after some x
        nz = set(np.nonzero(r)[0].tolist())
        for c in dec | nz | firsts | seconds:
            d = (o.nfkd if compat else o.nfd)((c,))
            t = self.fn((c,))
            if t != (c,):
                self.text[c] = t
                self.len[c] = len(t)
            self.xs[c] = r[d[-1]] != 0 or (comp and t[-1] in firsts)
            self.ys[c] = r[d[0]] != 0 or (comp and d[0] in seconds)
        self.maxlen = int(self.len.max())
        self.cols = []                     # cols[i][c] = i-th character of the form of c, -1 past its end
        ident = np.arange(N, dtype=np.int64)
        for i in range(self.maxlen):
            a = ident.copy() if i == 0 else np.full(N, -1, dtype=np.int64)
            for c, t in self.text.items():
                a[c] = t[i] if i < len(t) else -1
            self.cols.append(a)


@functools.lru_cache(None)
def form(f):
    return Form(f)


def indices(reg):
    return np.concatenate([np.arange(l, h + 1) for l, h in reg])


_scratch = np.zeros(N, dtype=np.int64)


def evaluate(v, regs, idx):
    """(symbol or None, values over idx[symbol] or the constant); None if it is not a number"""
    if "u" in v or "ptr" in v:
        return None
    if "c" in v:
        return None, v["c"]
    for p in v["p"]:
        l, h = p[0], p[1]
        _scratch[l:h + 1] = p[2] if len(p) == 3 else p[2] + p[3] * np.arange(h - l + 1, dtype=np.int64)
    return v["f"], _scratch[idx[v["f"]]]


def check_pairs(form_name, result):
    """compares every cell of a two-character entry.  Returns (pairs, cells, cells right, [((x, y), got, how many)])"""
    F = form(form_name)
    n = cells = ok = 0
    bad = []
    for c in result["cells"]:
        k = size(c["regs"])
        b = check_cell(F, c)
        n += k
        cells += 1
        if b is None:
            continue
        ok += not b
        if len(bad) < 200:
            bad += [((x, y), got, cnt) for x, y, got, cnt in b[:20]]
    return n, cells, ok, bad


def check_cell(F, c):
    regs, out = c["regs"], c["out"]["s"]
    idx = [indices(r) for r in regs]
    vals = []
    for v in out:
        e = evaluate(v, regs, idx)
        if e is None:
            return None
        vals.append(e)
    m = len(out)
    bad = []
    lens = [F.len[i] for i in idx]
    free = [~F.xs[idx[0]], ~F.ys[idx[1]]]

    def at(i, p, q):
        s, v = vals[i]
        return int(v if s is None else v[(p, q)[s]])

    def miss(p, q, k):
        bad.append((int(idx[0][p]), int(idx[1][q]), tuple(at(i, p, q) for i in range(m)), int(k)))

    def product(ma, mb):
        """all pairs of the two subsets must be the concatenation of the two single forms"""
        if not ma.any() or not mb.any():
            return
        subs = []
        for side, mask in ((0, ma), (1, mb)):
            pos = np.nonzero(mask)[0]
            ls = lens[side][pos]
            subs.append([(int(a), pos[ls == a]) for a in np.unique(ls)])
        for a, xa in subs[0]:
            for b, yb in subs[1]:
                if a + b != m:
                    miss(xa[0], yb[0], len(xa) * len(yb))
                    continue
                for i in range(m):
                    side, pos, other = (0, xa, yb) if i < a else (1, yb, xa)
                    want = F.cols[i if side == 0 else i - a][idx[side][pos]]
                    s, v = vals[i]
                    if s == side:
                        w = np.nonzero(v[pos] != want)[0]
                        if len(w):
                            p, q = pos[w[0]], other[0]
                            miss(*((p, q) if side == 0 else (q, p)), len(w) * len(other))
                            break
                        continue
                    # wanted as a function of one character, computed from the other or from none: both must be constant
                    g = v if s is None else v[other[0]]
                    w = np.nonzero(want != g)[0]
                    u = np.zeros(0) if s is None else np.nonzero(v[other] != g)[0]
                    if len(w):
                        p, q = pos[w[0]], other[0]
                        miss(*((p, q) if side == 0 else (q, p)), len(w))
                        break
                    if len(u):
                        p, q = pos[0], other[u[0]]
                        miss(*((p, q) if side == 0 else (q, p)), len(u))
                        break

    every = np.ones(len(idx[0]), dtype=bool)
    product(every, free[1])
    product(free[0], ~free[1])
    sx = np.nonzero(~free[0])[0].tolist()
    sy = np.nonzero(~free[1])[0].tolist()
    if sx and sy:
        lx, ly = idx[0].tolist() if len(idx[0]) < 100000 else idx[0], idx[1].tolist() if len(idx[1]) < 100000 else idx[1]
        cols = [(s, v if s is None else v.tolist() if len(v) < 100000 else v) for s, v in vals]
        pair = F.fn
        for p in sx:
            x = int(lx[p])
            for q in sy:
                g = tuple(v if s is None else v[q] if s else v[p] for s, v in cols)
                if g != pair((x, int(ly[q]))):
                    miss(p, q, 1)
    return bad
