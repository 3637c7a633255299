#!/usr/bin/env python3-vt
"""python3-vt checks/check.py ID : decides one property on the current tree of /repo."""
import itertools, multiprocessing, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import lib, oracle as o
from lib import (N, OK, PANIC, UNDEC, Broken, Report, Table, analyse, incident, record, runs, seq, show, size)

THOROUGH = lib.TIER == "thorough"
METHOD = "abstract interpretation of rustc MIR over partitioned input sets (exact on every cell), compared with frozen Unicode 15.1.0 data"
SCALARS = 0x110000 - 2048

ENUMS = ["bc", "ccc", "dt", "gc", "gcb", "wb", "hst", "insc", "incb", "blk", "sc", "age"]
DERIVED = ["math", "alpha", "lower", "upper", "cased", "ci", "di", "gr_ext", "ids", "idc", "ce", "comp_ex"]
XID = ["xids", "xidc"]
BOOLS = list(o.PROPLIST) + list(o.EMOJI) + DERIVED + XID
MODULE = {}


# ------------------------------------------------------------------ where
def path(r, k=5):
    """the functions of the crate a result depends on: what to look at when it is wrong"""
    fs = [f for f in r.get("local_functions", []) if "/repo/" in f]
    dull = ("CodePoint::new", "CodePoint::to_u32", "TwoStageTable::<'a, T, IndexT>::new")
    fs = [f for f in fs if not any(d in f for d in dull)]
    fs = [f.replace("seshat::unicode::", "").replace("/repo/", "") for f in fs]
    inner = [f for f in fs if not f.startswith("<")] or fs
    return "; ".join(inner[:k]) + (f"; {len(inner) - k} more" if len(inner) > k else "")


# ------------------------------------------------------------------ tables
def panics(rep, r, what):
    for p in r["panics"]:
        rs = [tuple(x) for x in p["regs"][0]] if p["regs"] else []
        rep.violation(f"{what} panic {show(rs, 1)}", f"{what} for {show(rs)}: panics: {incident(r, p)}")


def compare(rep, r, got, status, want, what, say):
    """one value per code point"""
    t = status == OK
    bad = t & (got != want)
    rep.count(int((status != lib.NONE).sum()), int((t & ~bad).sum()))
    if not bad.any():
        return
    seen = 0
    for pair in sorted({(int(a), int(b)) for a, b in zip(got[bad], want[bad])}):
        idx = np.nonzero(bad & (got == pair[0]) & (want == pair[1]))[0]
        rs = runs(idx)
        rep.violation(f"{what} {show(rs, 1)}", f"{what} is {say(pair[0])} for {show(rs)} ({len(idx)} code points), Unicode says {say(pair[1])}"
                      f" [computed by {path(r)}]")
        seen += 1
        if seen >= 12:
            break


def variant_ids(r, prop):
    if r["type"] is None:
        return {}
    if not isinstance(r["type"], dict):
        raise Broken(f"{prop} does not return an enumeration")
    ids = o.value_ids(prop)
    m = {}
    for d, v in r["type"]["enum"].items():
        m[int(d)] = ids.get(o.loose(v), 10000 + int(d))
    return m


def enum_values(r, prop):
    """(status, canonical value per code point, how to say a value)"""
    t = Table(r)
    raw = t.ints()
    m = variant_ids(r, prop)
    top = max([int(raw.max())] + list(m) + [0]) + 2
    lut = np.full(top + 1, 20000, dtype=np.int64)
    for d, i in m.items():
        lut[d] = i
    got = lut[np.where(raw < 0, top, raw)]
    names = o.values(prop)
    return t, got, lambda i: names[i] if 0 <= i < len(names) else f"a value Unicode does not have ({i})"


def enum_check(rep, r, prop):
    t, got, say = enum_values(r, prop)
    compare(rep, r, got, t.status, o.enum(prop), prop, say)
    panics(rep, r, prop)


def bool_check(rep, r, prop):
    t = Table(r)
    got = t.ints()
    compare(rep, r, got, t.status, o.binary(prop).astype(np.int64), prop, lambda i: "Yes" if i else "No")
    panics(rep, r, prop)


class Texts:
    """an expected text per code point: length and one column per position"""

    def __init__(self, pairs):
        n = max((len(t) for _, t in pairs), default=0)
        self.len = np.zeros(N, dtype=np.int64)
        self.cols = [np.full(N, -1, dtype=np.int64) for _ in range(n)]
        for c, t in pairs:
            self.len[c] = len(t)
            for i, x in enumerate(t):
                self.cols[i][c] = x

    def at(self, c):
        return tuple(int(self.cols[i][c]) for i in range(self.len[c]))


def text_check(rep, r, want, what, say=seq):
    t = Table(r)
    good = np.zeros(N, dtype=bool)
    wrong = []
    for idx, cols in t.texts():
        g = want.len[idx] == len(cols)
        for i, c in enumerate(cols):
            if i < len(want.cols):
                g &= c == want.cols[i][idx]
        good[idx[g]] = True
        for k in np.nonzero(~g)[0][:6]:
            wrong.append((int(idx[k]), tuple(int(c[k]) for c in cols)))
    ok = t.status == OK
    rep.count(int(t.dom.sum()), int((ok & good).sum()))
    left = np.nonzero(ok & ~good)[0]
    if len(left):
        for c, got in sorted(wrong)[:8]:
            rep.violation(f"{what} {c:04X}", f"{what} of {c:04X} is {say(got)}, Unicode says {say(want.at(c))} ({len(left)} code points differ:"
                          f" {show(runs(left))}) [computed by {path(r)}]")
    panics(rep, r, what)


def simple(rep, names):
    """the named property queries, asked of every code point"""
    rs = analyse([f"p_{n}" for n in names])
    rep.saw(*rs)
    for n, r in zip(names, rs):
        enum_check(rep, r, n) if n in ENUMS else bool_check(rep, r, n)
        rep.sample(f"{n}: {len(r['cells'])} cells over {sum(size(c['regs']) for c in r['cells'])} code points")
    return rs


TABLE_RULE = ("For every code point 0..10FFFF (all in one abstract run per property, split only where the code's control flow or its tables "
              "make it) the value the query's MIR computes equals the value frozen from the Unicode 15.1.0 data files. One obligation per "
              "code point and property.")
TRUST = ["std behaves as its MIR and the modelled primitives say", "the frozen data equal Unicode 15.1.0 (cross-checked against ICU 74)"]


def C01(rep):
    simple(rep, ["gc", "sc", "blk", "age"])
    return TABLE_RULE


def one_step():
    return [(c, t) for c in range(N) for t in [o.dm(c)] if t]


def C02(rep):
    simple(rep, ["ccc", "dt", "hst"])
    r, d = analyse(["p_ccc_rank", "p_dm"])
    rep.saw(r, d)
    t = Table(r)
    compare(rep, r, t.ints(), t.status, o.ranks().astype(np.int64), "ccc as u8", str)
    panics(rep, r, "ccc as u8")
    text_check(rep, d, Texts(one_step()), "dm")
    return TABLE_RULE


def C03(rep):
    simple(rep, ["gcb", "insc", "incb", "ext_pict"])
    return TABLE_RULE


def C04(rep):
    simple(rep, ["bc", "wb"])
    return TABLE_RULE


def C05(rep):
    simple(rep, list(o.PROPLIST))
    return TABLE_RULE


def C06(rep):
    simple(rep, list(o.EMOJI))
    return TABLE_RULE


def C07(rep):
    simple(rep, DERIVED)
    return TABLE_RULE


def C08(rep):
    rs = simple(rep, ["ids", "idc"] + XID)
    # closure, from the code's own answers: the NFKC form of what XID_Start and XID_Continue accept stays in the grammar
    start, cont = (Table(rs[2]).ints() == 1), (Table(rs[3]).ints() == 1)
    r, = analyse(["nfkc1"])
    rep.saw(r)
    t = Table(r)
    n = ok = 0
    bad = []
    for idx, cols in t.texts():
        for mask, first in ((start[idx], start), (cont[idx], cont)):
            n += int(mask.sum())
            g = mask.copy()
            for i, c in enumerate(cols):
                g &= (first if i == 0 else cont)[c]
            if not cols:
                g[:] = False
            ok += int(g.sum())
            bad += [int(x) for x in idx[mask & ~g]]
    rep.count(n, ok)
    for c in bad[:8]:
        rep.violation(f"xid closure {c:04X}", f"{c:04X} is accepted in identifiers but its NFKC form is not [derived_props.rs xids, xidc; {path(r)}]")
    return TABLE_RULE + " Besides, the NFKC form the code computes for every XID_Start (XID_Continue) character is again start, continue* (continue+)."


def C09(rep):
    names = o.names()
    r, = analyse(["p_na"])
    rep.saw(r)
    width = max(len(x) for x in names) + 1
    want = np.array(names, dtype=f"S{width}").view(np.uint8).reshape(N, width)
    wlen = (want != 0).sum(axis=1)
    t = Table(r)
    good = np.zeros(N, dtype=bool)
    glen = np.zeros(N, dtype=np.int64)
    have = np.zeros((N, max(width, 1)), dtype=np.uint8)
    wrong = []
    for idx, cols in t.texts():
        m = len(cols)
        glen[idx] = m
        g = wlen[idx] == m
        for i, c in enumerate(cols):
            if i < width:
                g &= c == want[idx, i]
                have[idx, i] = np.minimum(c, 255)
        good[idx[g]] = True
        for k in np.nonzero(~g)[0][:6]:
            wrong.append((int(idx[k]), "".join(chr(int(c[k])) for c in cols)))
    ok = t.status == OK
    rep.count(N, int((ok & good).sum()))
    left = np.nonzero(ok & ~good)[0]
    for c, got in sorted(wrong)[:8]:
        rep.violation(f"na {c:04X}", f"the name of {c:04X} is {got!r}, Unicode says {names[c]!r} ({len(left)} code points differ: {show(runs(left))})"
                      f" [computed by {path(r)}]")
    # unique, from the code's own answers
    idx = np.nonzero(ok & (glen > 0))[0]
    rows = np.ascontiguousarray(have[idx]).view(f"S{have.shape[1]}").reshape(-1)
    u, first, cnt = np.unique(rows, return_index=True, return_counts=True)
    rep.count(len(idx), len(u))
    for k in np.nonzero(cnt > 1)[0][:8]:
        twins = idx[rows == u[k]]
        rep.violation(f"na twice {int(twins[0]):04X}", f"{show(runs(twins))} share the name {u[k].decode('latin1')!r} [computed by {path(r)}]")
    panics(rep, r, "na")
    rep.sample(f"{len(idx)} names, {len(u)} distinct")
    return TABLE_RULE + " Besides, the names the code computes are pairwise different. One obligation per code point and per name."


def text_of(vals):
    return "".join(chr(v) if v is not None and 0 <= v < 0x110000 else "?" for v in vals)


def const_texts(c):
    """the (region, texts) of a cell whose outputs are texts, split until they are constants"""
    flat, lens = [], []
    for part in c["out"]:
        flat += part["s"]
        lens.append(len(part["s"]))
    for regs, vals in lib.constant_cells(c["regs"], flat):
        k, out = 0, []
        for n in lens:
            out.append(text_of(vals[k:k + n]))
            k += n
        yield regs, out


def C10(rep):
    rs = analyse([f"n_{e}" for e in ENUMS] + ["n_bin", "bin_from"])
    vs = analyse([f"p_{e}" for e in ENUMS])
    rep.saw(*rs)
    for e, r, v in zip(ENUMS, rs, vs):
        if v["type"] is None:
            continue
        enum = {int(d): n for d, n in v["type"]["enum"].items()}
        key_of = variant_ids(v, e)
        al = {i: (s, l) for i, (k, s, l) in ((o.values(e).index(k), (k, s, l)) for k, s, l in o.aliases(e) if k in o.values(e))}
        full, abbr, done = {}, {}, set()
        for c in r["cells"]:
            for regs, (f, a) in const_texts(c):
                for l, h in regs[0]:
                    for d in range(l, h + 1):
                        done.add(d)
                        ws, wl = al.get(key_of.get(d, -1), ("?", "?"))
                        right = f == wl and a == ws
                        rep.count(1, right)
                        if not right:
                            rep.violation(f"{e} {enum.get(d, d)}", f"{e}::{enum.get(d, d)} is named {f!r} / {a!r}, PropertyValueAliases says {wl!r} / {ws!r}"
                                          f" [{path(r)}]")
                        for tab, nm in ((full, f), (abbr, a)):
                            tab.setdefault(nm, []).append(enum.get(d, d))
        for tab, what in ((full, "long"), (abbr, "short")):
            for nm, ds in tab.items():
                rep.count(1, len(ds) == 1)
                if len(ds) > 1:
                    rep.violation(f"{e} {nm} twice", f"{e}: {' and '.join(map(str, ds))} share the {what} name {nm!r} [{path(r)}]")
        missing = set(enum) - done
        rep.count(len(missing), 0)
        panics(rep, r, f"{e} names")
        # a value Unicode has and the enumeration cannot express would show in C01..C04
    b, f = rs[-2], rs[-1]
    got = {}
    for c in b["cells"]:
        for regs, t in const_texts(c):
            for l, h in regs[0]:
                for d in range(l, h + 1):
                    got[d] = t
    panics(rep, b, "binary names")
    bt = {}
    for c in f["cells"]:
        for regs, (v,) in lib.constant_cells(c["regs"], [c["out"]]):
            for l, h in regs[0]:
                for d in range(l, h + 1):
                    bt[d] = v
    for truth, (wl, ws) in ((1, ("Yes", "Y")), (0, ("No", "N"))):
        g = got.get(bt.get(truth))
        right = g is not None and list(g) == [wl, ws]
        rep.count(1, right)
        if g is not None and not right:
            rep.violation(f"bin {truth}", f"{bool(truth)} is named {g[0]!r} / {g[1]!r}, not {wl!r} / {ws!r} [{path(b)}]")
    rep.sample("all variants of " + ", ".join(ENUMS) + ", BinaryProperty")
    return ("For every variant of every property enumeration, the pair of names property_value_name's MIR computes equals the variant's own line of "
            "PropertyValueAliases 15.1.0, and no two variants share a name. One obligation per variant and per name.")


def scalar_mask():
    m = np.ones(N, dtype=bool)
    m[0xD800:0xE000] = False
    return m


def C11(rep):
    names = ENUMS + BOOLS
    ps, cs = analyse([f"p_{n}" for n in names]), analyse([f"c_{n}" for n in names])
    rep.saw(*ps, *cs)
    sc = scalar_mask()
    for n, p, c in zip(names, ps, cs):
        tp, tc = Table(p), Table(c)
        a, b = tp.ints(), tc.ints()
        both = (tp.status == OK) & (tc.status == OK) & sc
        bad = both & (a != b)
        # one of them panics and the other does not
        odd = sc & (((tp.status == PANIC) & (tc.status == OK)) | ((tp.status == OK) & (tc.status == PANIC)))
        rep.count(SCALARS, int((both & ~bad).sum()))
        for mask, say in ((bad, "differ"), (odd, "differ: one panics")):
            if mask.any():
                rs = runs(np.nonzero(mask)[0])
                rep.violation(f"{n} {show(rs, 1)}", f"{n} of the char and of the CodePoint {say} for {show(rs)} [char: {path(c)} | CodePoint: {path(p)}]")
    for n in ("dm", "na"):
        p, c = analyse([f"p_{n}", f"c_{n}"])
        rep.saw(p, c)
        tp, tc = Table(p), Table(c)
        A, B = {}, {}
        la, lb = np.full(N, -1), np.full(N, -1)
        for t, l, D in ((tp, la, A), (tc, lb, B)):
            for idx, cols in t.texts():
                l[idx] = len(cols)
                for i, col in enumerate(cols):
                    D.setdefault(i, np.zeros(N, dtype=np.int64))[idx] = col
        both = (tp.status == OK) & (tc.status == OK) & sc
        bad = both & (la != lb)
        for i in set(A) | set(B):
            bad |= both & (A.get(i, 0) != B.get(i, 0))
        odd = sc & (((tp.status == PANIC) & (tc.status == OK)) | ((tp.status == OK) & (tc.status == PANIC)))
        rep.count(SCALARS, int((both & ~bad).sum()))
        for mask, say in ((bad, "differ"), (odd, "differ: one panics")):
            if mask.any():
                rs = runs(np.nonzero(mask)[0])
                rep.violation(f"{n} {show(rs, 1)}", f"{n} of the char and of the CodePoint {say} for {show(rs)} [char: {path(c)} | CodePoint: {path(p)}]")
    rep.sample(f"{len(names) + 2} queries, both receivers")
    return ("For every property query and every scalar value, the value computed by the MIR of the char implementation equals the one computed by the "
            "CodePoint implementation. One obligation per query and scalar value.")


def intervals(r, lo, hi, read):
    """cells of a one-symbol entry as (l, h, value or (base, slope))"""
    for c in r["cells"]:
        v = read(c["out"])
        for l, h in c["regs"][0]:
            if "c" in v:
                yield l, h, v["c"], 0
            elif "p" in v:
                for p in v["p"]:
                    a, b = max(l, p[0]), min(h, p[1])
                    if a <= b:
                        if len(p) == 3:
                            yield a, b, p[2], 0
                        else:
                            yield a, b, p[2] + p[3] * (a - p[0]), p[3]


def C12(rep):
    ok, rnd, ch, cpy, txt = analyse(["cp_new_ok dom0=0-0xFFFFFFFF", "cp_round", "cp_char", "cp_copy", "cp_text"])
    rep.saw(ok, rnd, ch, cpy, txt)
    n = 0
    for l, h, v, s in intervals(ok, 0, 2**32 - 1, lambda x: x):
        for a, b, want in ((l, min(h, 0x10FFFF), 1), (max(l, 0x110000), h, 0)):
            if a <= b:
                n += b - a + 1
                rep.count(b - a + 1, (b - a + 1) if v == want and s == 0 else 0)
                if v != want or s:
                    rep.violation(f"new {a:X}", f"CodePoint::new {'accepts' if v else 'rejects'} {a:X}..{b:X} [{path(ok)}]")
    rep.count(2**32 - n - sum(size(p["regs"]) for p in ok["panics"]), 0)
    panics(rep, ok, "CodePoint::new")
    for r, what in ((rnd, "CodePoint::new(c).to_u32()"), (ch, "char.to_code_point().to_u32()"), (cpy, "the number of a copied CodePoint")):
        t = Table(r)
        compare_identity(rep, r, t, what)
        panics(rep, r, what)
    want = Texts([])
    want.len = np.where(np.arange(N) > 0xFFFFF, 8, np.where(np.arange(N) > 0xFFFF, 7, 6))
    k = np.arange(N)
    digits = np.array([ord(c) for c in "0123456789ABCDEF"])
    want.cols = [np.full(N, ord("U")), np.full(N, ord("+"))]
    nd = want.len - 2
    for i in range(6):
        sh = 4 * (nd - 1 - i)
        want.cols.append(np.where(sh >= 0, digits[(k >> np.maximum(sh, 0)) & 15], -1))
    text_check(rep, txt, want, "Display", lambda t: "".join(map(chr, t)))
    return ("CodePoint::new is Ok exactly on 0..10FFFF over all 2^32 integers; the round trip, the conversion from char and a copy keep the number; Display is "
            "U+ and four to six upper-case hexadecimal digits. One obligation per integer and operation.")


def compare_identity(rep, r, t, what):
    got = t.ints()
    okm = t.status == OK
    bad = okm & (got != np.arange(N))
    rep.count(int(t.dom.sum()), int((okm & ~bad).sum()))
    if bad.any():
        rs = runs(np.nonzero(bad)[0])
        c = rs[0][0]
        rep.violation(f"{what} {c:04X}", f"{what} is {int(got[c]):X} for {show(rs)} [{path(r)}]")


def C13(rep):
    names = ENUMS + BOOLS + ["dm", "na"]
    rs = analyse([f"p_{n}" for n in names] + [f"c_{n}" for n in names] + ["p_ccc_rank"])
    rep.saw(*rs)
    for r in rs:
        total = size(r["domain"]) if r["domain"] else N
        t = Table(r)
        rep.count(total, int((t.status == OK).sum()))
        panics(rep, r, r["name"])
    rep.sample(f"{len(rs)} entry points, each over every code point or scalar value")
    return ("No path of any property query's MIR, of either receiver, over any code point reaches a panic (failed bounds or overflow assertion, unwrap of None, "
            "explicit panic) or an out-of-bounds access. One obligation per query and input.")


# ------------------------------------------------------------------ normalization
def single(rep, form):
    r, = analyse([f"{form}1"])
    rep.saw(r)
    fn = o.FORMS[form]
    want = Texts([])
    dec = set(o.COMPAT if form.startswith("nfk") else o.CANON) | set(range(o.SB, o.SB + o.SC))
    want.len = np.ones(N, dtype=np.int64)
    want.cols = [np.arange(N)]
    for c in sorted(dec):
        t = fn((c,))
        if t == (c,):
            continue
        want.len[c] = len(t)
        while len(want.cols) < len(t):
            want.cols.append(np.full(N, -1, dtype=np.int64))
        for i, x in enumerate(t):
            want.cols[i][c] = x
    text_check(rep, r, want, form.upper())
    rep.sample(f"{form}: {len(r['cells'])} cells, {len(dec)} decomposing characters")
    return r


def C14(rep):
    single(rep, "nfd")
    return ("For every scalar value, the text to_nfd's MIR computes for the one-character string is the full canonical decomposition in canonical order by "
            "definition over the frozen data. One obligation per scalar value.")


def C15(rep):
    single(rep, "nfkd")
    return ("For every scalar value, the text to_nfkd's MIR computes for the one-character string is the full compatibility decomposition in canonical order by "
            "definition over the frozen data. One obligation per scalar value.")


def C16(rep):
    single(rep, "nfc")
    single(rep, "nfkc")
    return ("For every scalar value, the texts to_nfc's and to_nfkc's MIR compute for the one-character string are the canonical composition (D117) of its full "
            "decomposition. One obligation per scalar value and form.")


def _pairs(a):
    import pairs
    return pairs.check_pairs(*a)


def _family(a):
    import family
    return family.check_family(*a)


def pool(f, items):
    with multiprocessing.Pool(8) as p:
        return p.map(f, items, chunksize=1)


def texts_check(rep, jobs, method=_family):
    """jobs: [(form, cost, job line)]: entries returning a text of several characters"""
    rs = analyse([(c, l) for _, c, l in jobs])
    rep.saw(*rs)
    for (form, _, _), r, (n, cells, ok, bad) in zip(jobs, rs, pool(method, [(f, r) for (f, _, _), r in zip(jobs, rs)])):
        rep.cells(r, n, cells, ok)
        for t, got, k in bad[:6]:
            rep.violation(f"{form} {seq(t)}", f"{form.upper()} of {seq(t)} is {seq(got)}, the definition gives {seq(o.FORMS[form](t))} ({lib.many(k)} texts like it) [{path(r)}]")
        for p in r["panics"][:6]:
            t = [x[0][0] for x in p["regs"]]
            rep.violation(f"{form} {seq(t)}", f"{form.upper()} of {seq(t)} panics: {incident(r, p)}")
    return rs


EIGHT = ('0-0x2ff', '0x300-0xfff', '0x1000-0x1fff', '0x2000-0xabff', '0xac00-0xd7a3', '0xd7a4-0xd7ff,0xe000-0x10fff', '0x11000-0x2ffff', '0x30000-0x10ffff')


def C17(rep):
    jobs = []
    L, V = "0x10ff-0x1160,0xa95f-0xa97d", "0x1160-0x11a8,0xd7af-0xd7c7"
    T = "0x11a6-0x1200,0xd7ca-0xd7fc"
    S = "0xabff-0xd7a4"
    for f in o.FORMS:
        jobs += [(f, 3, f"{f}1 dom0={S}"), (f, 5, f"{f}2 dom0={L} dom1={V}"), (f, 20, f"{f}2 dom0={S} dom1={T}"), (f, 20, f"{f}2 dom0={S} dom1={V}"),
                 (f, 5, f"{f}2 dom0={V} dom1={T}"), (f, 30, f"{f}3 dom0=0x10ff-0x1114 dom1=0x1160-0x1177 dom2=0x11a6-0x11c4")]
    texts_check(rep, jobs)
    return ("For every Hangul syllable alone, every <L,V>, <LV,T>, <LVT,T>, <S,V>, <V,T> pair and every <L,V,T> triple over the jamo and the code points just "
            "outside their ranges, the text each form's MIR computes is the arithmetic one of section 3.12. One obligation per cell: a set of texts the code treats alike.")


CHECKS = {}


def main():
    import more, prog
    table = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
    table.update(more.CHECKS)
    table.update(C27=prog.C27, C28=prog.C28)
    prop = sys.argv[1]
    level, technique = "proof", METHOD
    if prop in more.LEVELS:
        level, technique = more.LEVELS[prop]
    rep = Report(prop, level, technique)
    try:
        rule = table[prop](rep)
        if rep.obligations and not rep.discharged and not rep.found:
            raise Broken("nothing could be decided: " + "; ".join(rep.notes[:3]))
        return rep.finish(rule, TRUST, level == "proof")
    except Broken as e:
        print(f"{prop}: the check could not run: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
