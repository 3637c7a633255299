"""UAX #29 extended grapheme cluster boundaries as an automaton, and the comparison of analysed cells with it."""
import functools, itertools
import numpy as np
import oracle as o

GV, WV = o.values("gcb"), o.values("incb")
G = {v: i for i, v in enumerate(GV)}
W = {v: i for i, v in enumerate(WV)}


@functools.lru_cache(None)
def classes():
    """(class number per code point, [(gcb, incb, pict)] per class)"""
    key = o.enum("gcb") * 100 + o.enum("incb") * 2 + o.binary("ext_pict")
    u, inv = np.unique(key, return_inverse=True)
    return inv.reshape(-1).astype(np.int32), [(int(k) // 100, int(k) % 100 // 2, int(k) % 2) for k in u]


@functools.lru_cache(None)
def rep():
    inv, cs = classes()
    return [int(np.argmax(inv == i)) for i in range(len(cs))]


@functools.lru_cache(None)
def class_runs():
    """the code points as runs of one class: (starts, class of each)"""
    inv, _ = classes()
    st = np.concatenate([[0], np.nonzero(np.diff(inv))[0] + 1])
    return st, inv[st]


# state: (gcb of the last character, GB11 progress, GB9c progress, parity of trailing regional indicators)
def start(c):
    g, w, p = c
    return (g, 1 if p else 0, 1 if w == W["Consonant"] else 0, 1 if g == G["RI"] else 0)


@functools.lru_cache(None)
def step(st, c):
    """(is there a boundary before c, state after c inside the same cluster)"""
    a, e, k, r = st
    g, w, p = c
    C, CR, LF = G["CN"], G["CR"], G["LF"]
    if a == CR and g == LF:
        join = True
    elif a in (C, CR, LF) or g in (C, CR, LF):
        join = False
    elif a == G["L"] and g in (G["L"], G["V"], G["LV"], G["LVT"]):
        join = True
    elif a in (G["LV"], G["V"]) and g in (G["V"], G["T"]):
        join = True
    elif a in (G["LVT"], G["T"]) and g == G["T"]:
        join = True
    elif g in (G["EX"], G["ZWJ"], G["SM"]) or a == G["PP"]:
        join = True
    elif k == 2 and w == W["Consonant"]:
        join = True
    elif e == 2 and p:
        join = True
    elif a == G["RI"] and g == G["RI"] and r == 1:
        join = True
    else:
        join = False
    if not join:
        return True, None
    e2 = 1 if p else 1 if e == 1 and g == G["EX"] else 2 if e == 1 and g == G["ZWJ"] else 0
    if w == W["Consonant"]:
        k2 = 1
    elif w == W["Linker"] and k:
        k2 = 2
    elif w == W["Extend"] and k:
        k2 = k
    else:
        k2 = 0
    r2 = (r + 1) % 2 if g == G["RI"] and a == G["RI"] else 1 if g == G["RI"] else 0
    return False, (g, e2, k2, r2)


def selftest(n=4):
    """the automaton against the rules read directly, for all class sequences of length n"""
    _, cs = classes()
    rp = rep()
    cnt = 0
    for t in itertools.product(range(len(cs)), repeat=n):
        s = [rp[i] for i in t]
        st, cut = start(cs[t[0]]), n
        for i in range(1, n):
            b, st = step(st, cs[t[i]])
            if b:
                cut = i
                break
        want = next((i for i in range(1, n) if o.boundary(s, i)), n)
        assert cut == want, s
        cnt += 1
    return cnt


@functools.lru_cache(200000)
def class_set(reg):
    st, cl = class_runs()
    out = set()
    for l, h in reg:
        a, b = np.searchsorted(st, [l, h], side="right")
        out.update(int(x) for x in cl[a - 1:b])
    return tuple(sorted(out))


def frozen(regs):
    return [tuple((l, h) for l, h in r) for r in regs]


def check_cuts(regs, cuts, whole):
    """checks that every text of the region has its boundaries exactly at `cuts` (character positions; with whole=False only
    the first one is looked at).  Returns None or a path of classes that contradicts it"""
    _, cs = classes()
    sets = [class_set(r) for r in frozen(regs)]
    n = len(sets)
    want = set(cuts)
    front = {start(cs[c]): (c,) for c in sets[0]}
    for i in range(1, n):
        new = {}
        at = i in want
        for st, path in front.items():
            for c in sets[i]:
                b, st2 = step(st, cs[c])
                if b != at:
                    return path + (c,)
                new.setdefault(start(cs[c]) if b else st2, path + (c,))
        if at and not whole:
            return None
        front = new
    return None


def witness(regs, path):
    """concrete characters of the region for a class path (padding with any character)"""
    st, cl = class_runs()
    out = []
    for i, r in enumerate(frozen(regs)):
        pick = r[0][0]
        if i < len(path):
            for l, h in r:
                a, b = np.searchsorted(st, [l, h], side="right")
                k = [j for j in range(a - 1, b) if cl[j] == path[i]]
                if k:
                    pick = max(l, int(st[k[0]]))
                    break
        out.append(int(pick))
    return out


UTF8 = ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF))


def by_length(regs, upto):
    """splits a region so that the first `upto` characters have a known number of UTF-8 bytes"""
    opts = []
    for reg in regs[:upto]:
        opt = []
        for k, (a, b) in enumerate(UTF8):
            q = [[max(l, a), min(h, b)] for l, h in reg if max(l, a) <= min(h, b)]
            if q:
                opt.append((q, k + 1))
        opts.append(opt)
    for pick in itertools.product(*opts):
        yield [q for q, _ in pick] + list(regs[upto:]), tuple(k for _, k in pick)
