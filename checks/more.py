"""The checks on texts of several characters, on the generic container, the version, and the program-level properties."""
import functools, itertools, random
import numpy as np
import lib, oracle as o, seg
from lib import N, OK, Table, analyse, incident, runs, seq, show, size
from family import firsts, groups, mark_sample, marks, ranges, seconds

THOROUGH = lib.TIER == "thorough"
METHOD = "abstract interpretation of rustc MIR over partitioned input sets (exact on every cell)"
FAMILIES = METHOD + ", for families of texts given by a set of characters per position"


def check():
    import sys
    return sys.modules["__main__"]


def job(form, sets, cost=1.0):
    """a text of len(sets) characters, position i taken from sets[i] (characters or job syntax)"""
    d = " ".join(f"dom{i}={s if isinstance(s, str) else ranges(s)}" for i, s in enumerate(sets))
    return (form, cost, f"{form}_s len0={len(sets)} {d}")


@functools.lru_cache(None)
def by_class():
    """combining class -> its interchangeable marks (no decomposition, in no composition, in any form)"""
    g = groups(True)
    out = {}
    for c in marks():
        if g[c] < 0:
            out.setdefault(int(-g[c] - 1), []).append(c)
    return out


STARTERS = [c for c in range(0x4E00, 0x4F00)]           # ideographs: interchangeable starters


def runs_of_marks():
    """patterns of combining classes (0: a starter): one abstract text covers every choice of marks of those classes"""
    rnd = random.Random(lib.SEED * 7919 + (1 if THOROUGH else 0))
    cl = sorted(by_class())
    out = []
    for n in list(range(2, 34)) + [40, 48, 64]:
        out.append([0] + [(230, 220)[i % 2] for i in range(n)])
        out.append([0] + [(220, 230)[i % 2] for i in range(n)])
    out.append([0] + cl[::-1])
    out.append(cl[::-1] + [0] + cl[::-1])
    out.append([0] + cl)
    out.append([0] + [c for c in cl[::-1] for _ in range(2)])
    out.append([0, 230, 0, 220, 0, 230, 220, 0, 0, 202, 1])
    for k in range(120 if THOROUGH else 40):
        n = rnd.randint(3, 64 if THOROUGH else 40)
        few = rnd.sample(cl, min(len(cl), rnd.randint(2, 12)))
        out.append([rnd.choice(few + ([0] if rnd.random() < 0.5 else [])) for _ in range(n)])
    return out


@functools.lru_cache(None)
def unmoved():
    """the characters with combining class 0 that take part in nothing: none of them may move"""
    g = groups(True)
    return [c for c in np.nonzero(g == -1)[0] if not 0xD800 <= c < 0xE000]


def long_texts():
    """texts of some hundred characters: decompositions and compositions repeated, at every offset modulo 2 and 3"""
    e, lv, lvt, ben = [[0x65], [0x301]], [[0x1100], [0x1161]], [[0x1112], [0x1175], [0x11C2]], [[0x9C7], [0x9BE]]
    mix = [[0x1E69], [0x78], [0x212B], [0xFB01], [0xAC01], [0x344], [0x1100], [0x1161], [0x11A8], [0x3A9], [0x313], [0x345], [0x301]]
    x = [[0x78]]
    return [(("nfd", "nfkd", "nfc", "nfkc"), [[0xE9]] * 270), (("nfd", "nfc"), [[0x212B]] * 270), (("nfkd", "nfkc"), [[0xBD]] * 260), (("nfd", "nfkc"), [[0xAC01]] * 260),
            (("nfc", "nfkd"), e * 150), (("nfc", "nfkc"), x + e * 150), (("nfc",), x + lv * 150), (("nfkc",), x * 2 + lvt * 90), (("nfc",), x + lvt * 90),
            (("nfc",), lvt * 90), (("nfc", "nfkc"), ben * 130), (("nfkc", "nfc"), x + ben * 130), (("nfc", "nfd", "nfkc", "nfkd"), mix * 21),
            (("nfc", "nfkd"), [STARTERS] * 280), (("nfd", "nfkc"), x + [[0xC5, 0xE5]] + [[0x323], [0x301]] * 3 + [STARTERS] * 260)]


def width(c):
    return 1 + (c > 0x7F) + (c > 0x7FF) + (c > 0xFFFF)


def pattern(p):
    """the marks of each class that take the most common number of bytes: the text then has one layout"""
    out = []
    for c in p:
        ms = STARTERS if c == 0 else by_class()[c]
        w = max((1, 2, 3, 4), key=lambda w: sum(width(m) == w for m in ms))
        out.append([m for m in ms if width(m) == w])
    return out


@functools.lru_cache(None)
def class_reps(k):
    """one mark of each of k combining classes, lowest and highest included, as short as possible"""
    r = o.ranks()
    best = {}
    for c in marks():
        best.setdefault(int(r[c]), c)
    cl = sorted(best)
    pick = sorted({cl[round(i * (len(cl) - 1) / (k - 1))] for i in range(k)} | {c for c in (1, 9, 220, 230) if k > 5})
    return [best[c] for c in pick]


def C18(rep):
    jobs = []
    few, some = class_reps(5), class_reps(10)
    for f in o.FORMS:
        w = 4 if f in ("nfc", "nfkc") else 1
        jobs.append(job(f, [[0x4E00], marks(), marks()], w))
        jobs.append(job(f, [marks(), marks()], w))
        jobs.append(job(f, [[0x4E00], some, some, some], w))
        jobs.append(job(f, [some] * 4 if w == 1 else [some] * 3, 3))
        jobs.append(job(f, [few] * 5, 4 * w))
        jobs.append(job(f, [few, unmoved(), few], w))
        jobs.append(job(f, [unmoved(), few, unmoved(), few], w))
        jobs.append(job(f, [few, few, unmoved()], w))
        if THOROUGH:
            jobs.append(job(f, [[0x4E00]] + [class_reps(55)] * 3, 60 * w))
            jobs.append(job(f, [few] * 6, 40 * w))
            jobs.append(job(f, [some] * 5, 40 * w))
    fs = ("nfd", "nfkd", "nfc", "nfkc")
    for i, p in enumerate(runs_of_marks()):
        for f in fs if THOROUGH else (fs[i % 2], fs[2 + i % 2]):
            jobs.append(job(f, pattern(p), len(p) / 40))
    check().texts_check(rep, jobs)
    rep.sample("starter and two marks: all " + str(len(marks())) + "^2 pairs of marks")
    rep.sample("runs of up to 64 marks of given classes, one abstract text per pattern of classes; classes " + " ".join(map(str, sorted(by_class()))))
    return ("For every text of the families (a starter and all pairs of marks; up to five marks over representatives of the classes; up to 64 marks whose combining classes follow a "
            "pattern, every mark of each class at once) the computed form has each run of non-starters stably sorted by class and the starters in place. One obligation per cell: a set of texts the code treats alike.")


def C19(rep):
    jobs = []
    cost = (4, 3, 3, 3, 3, 2, 2, 1)
    for f in ("nfc", "nfkc", "nfd", "nfkd"):
        w = 3 if f in ("nfc", "nfkc") else 1
        for c, d in zip(cost, check().EIGHT):
            jobs.append((f, c * w, f"{f}2 dom0={d}"))
    check().texts_check(rep, jobs, check()._pairs)
    rep.sample("all ordered pairs of scalar values, four forms")
    return ("For every ordered pair of scalar values (1,112,064^2) and every form, the text the MIR computes is the one UAX #15 defines: the pair composes exactly "
            "when its primary composite exists and is not excluded. One obligation per cell: a set of pairs the code treats alike.")


def C20(rep):
    jobs = []
    ms = mark_sample(1)
    f1 = sorted(firsts() - set(range(o.SB, o.SB + o.SC)))
    s0 = sorted(c for c in seconds() if o.ranks()[c] == 0)
    jam = [0x1100, 0x1112, 0xAC00, 0xAC01, 0xD788]
    starters = [0x61, 0x915] + s0[:40] + [0x1161, 0x1175, 0x11A8, 0x11C2, 0x1176, 0x11A7]
    # first elements whose composites are first elements again: two compositions in a row
    twice = sorted({a for (a, _), c in o.pairs().items() if c in f1})
    some = [0x300, 0x301, 0x304, 0x308, 0x323, 0x31B, 0x327, 0x338, 0x345, 0x3099, 0x342, 0x334]
    for f in ("nfc", "nfkc"):
        for i in range(8 if f == "nfc" else 12):
            p = twice[i::8 if f == "nfc" else 12]
            if THOROUGH or i < 8:
                jobs.append((f, 9, f"{f}3 dom0={ranges(p)} dom1={ranges(ms)} dom2={ranges(ms if f == 'nfc' or THOROUGH else some)}"))
    for i in range(8):
        p = f1[i::8]
        jobs.append(("nfc", 6, f"nfc3 dom0={ranges(p)} dom1={ranges(ms)} dom2={ranges(some)}"))
        jobs.append(("nfc", 6, f"nfc3 dom0={ranges(p)} dom1={ranges(some)} dom2={ranges(ms)}"))
    jobs.append(("nfc", 6, f"nfc3 dom0={ranges(f1[::3] + jam)} dom1={ranges(ms)} dom2={ranges(starters)}"))
    jobs.append(("nfc", 6, f"nfc3 dom0={ranges(f1[::3] + jam)} dom1={ranges(starters)} dom2={ranges(ms)}"))
    jobs.append(("nfkc", 9, f"nfkc3 dom0={ranges(f1[::12] + jam)} dom1={ranges(ms)} dom2={ranges(some + starters[::3])}"))
    jobs.append(("nfkc", 6, f"nfkc3 dom0={ranges(f1[::12] + jam)} dom1={ranges(starters)} dom2={ranges(some + starters[::3])}"))
    few = [0x300, 0x301, 0x302, 0x304, 0x307, 0x308, 0x31B, 0x323, 0x327, 0x338, 0x345, 0x342, 0x313]
    for f, q in (("nfc", 1), ("nfkc", 2)):
        for b in ([0x41, 0x61], [0x4F, 0x6F], [0x55, 0x75], [0x3B1, 0x3B9], [0x3C9, 0x1F00], [0x226, 0x1EA0]):
            jobs.append(job(f, [b[:q and 2]] + [few[::q]] * 3, 10 / q))
    if THOROUGH:
        for p in [f1[i::24] for i in range(24)]:
            jobs.append(("nfc", 30, f"nfc3 dom0={ranges(p)} dom1={ranges(ms + starters)} dom2={ranges(ms + starters)}"))
            jobs.append(("nfkc", 30, f"nfkc3 dom0={ranges(p)} dom1={ranges(ms)} dom2={ranges(ms)}"))
        for b in ([0x41], [0x4F], [0x75], [0x3B9], [0x3C9]):
            jobs.append(job("nfc", [b] + [few[::2]] * 4, 60))
    # long sequences: characters between a starter and a mark that still composes with it, and starters in a row
    low = pattern([1])[0]
    for n in (1, 2, 3, 5, 9, 17, 33):
        for f in ("nfc", "nfkc"):
            jobs.append(job(f, [[0x41, 0x61]] + pattern([220] * n) + [[0x300, 0x301, 0x302]], n / 4))
            jobs.append(job(f, [[0x41, 0x61]] + pattern([230] * n) + [[0x300, 0x301, 0x302]], n / 4))
            jobs.append(job(f, [[0x41, 0x61]] + [STARTERS] * n + [[0x300, 0x301, 0x302]], n / 4))
            jobs.append(job(f, [[0x1100], [0x1161], [0x11A8]] * n, n / 2))
            jobs.append(job(f, [[0x1112], [0x1175]] * n + [[0x1102]], n / 2))
            jobs.append(job(f, [[0x61], [0x323], low, [0x302]] * n, n))
    for fs, t in long_texts():
        for f in fs:
            if f in ("nfc", "nfkc"):
                jobs.append(job(f, t, 9))
    check().texts_check(rep, jobs)
    rep.sample(f"{len(f1)} composing starters x {len(ms)}^2 marks, each class and every composing mark represented")
    return ("For every text of the families (every composing starter with two marks, every class and every composing mark represented; with an intervening starter; "
            "four characters over the usual Latin and Greek marks; long runs between starter and mark) the computed NFC and NFKC are the definition's (D115-D117). "
            "One obligation per cell: a set of texts the code treats alike.")


def C21(rep):
    jobs = [(1, "nfd_s len0=0"), (1, "nfkd_s len0=0"), (1, "nfc_s len0=0"), (1, "nfkc_s len0=0")]
    jobs += [(2, f"{f}1") for f in o.FORMS]
    for f in o.FORMS:
        w = 3 if f in ("nfc", "nfkc") else 1
        jobs += [(w * 3, f"{f}2 dom0={d}") for d in check().EIGHT]
    ms, s0 = mark_sample(1), sorted(seconds())
    lo = [c for c in ms if o.ranks()[c] in (1, 8, 9, 216, 220, 230, 240)][:30]
    for f in o.FORMS:
        jobs.append((4, f"{f}3 dom0={ranges(lo)} dom1={ranges(lo)} dom2={ranges(lo)}"))
        jobs.append((4, f"{f}3 dom0={ranges(lo)} dom1=0x41,0x61,0x1100,0xac00,0x4e00 dom2={ranges(lo)}"))
        for n in (8, 33, 70):
            jobs.append((n / 10, job(f, [STARTERS] * n)[2]))
            jobs.append((n / 10, job(f, pattern([230] * n))[2]))
            jobs.append((n / 10, job(f, [[0xFDFA]] * (n // 8))[2]))
    for fs, t in long_texts():
        for f in fs:
            jobs.append((9, job(f, t)[2]))
    rs = analyse(jobs)
    rep.saw(*rs)
    for r in rs:
        rep.cells(r, sum(size(c["regs"]) for c in r["cells"]), len(r["cells"]), len(r["cells"]))
        for p in r["panics"][:6]:
            t = [x[0][0] for x in p["regs"]]
            rep.violation(f"{r['name']} {seq(t)}", f"{r['name'].rstrip('_s123')} of {seq(t)} panics: {incident(r, p)}")
    rep.sample("the empty text, every single character, every pair of characters, four forms")
    return ("For the empty text, every one-character text, every two-character text and the listed longer families, every path of the MIR of each form reaches its "
            "return: no panic, no failed assertion, no endless loop. One obligation per cell: a set of texts the code treats alike.")


RELATIONS = ["NFD(NFD(s)) = NFD(s)", "NFKD(NFKD(s)) = NFKD(s)", "NFC(NFC(s)) = NFC(s)", "NFKC(NFKC(s)) = NFKC(s)", "NFC(NFD(s)) = NFC(s)",
             "NFD(NFC(s)) = NFD(s)", "NFKC(NFKD(s)) = NFKC(s)", "NFKD(NFKC(s)) = NFKD(s)", "NFKD(NFD(s)) = NFKD(s)", "NFKC(NFC(s)) = NFKC(s)"]


def C22(rep):
    jobs = [(20, f"rel1 dom0={d}") for d in check().EIGHT]
    # the characters with decompositions, compositions or a class of their own, in twos and threes
    some = [0x1E0B, 0x1E0C, 0x212B, 0x1E9B, 0xFB01, 0x3A9, 0x344, 0x958, 0xAC00, 0x1100, 0x61, 0x1FED, 0x2126, 0x390, 0x1D15E, 0xBEB, 0xDDE]
    mk = [0x300, 0x301, 0x307, 0x323, 0x345, 0x338, 0x93C, 0x94D, 0x1161, 0x11A8, 0xBBE, 0x334, 0x59A, 0x302A]
    for c in some:
        jobs.append((6, f"rel_s len0=2 dom0={c:#x} dom1={ranges(mk)}"))
    jobs.append((6, f"rel_s len0=2 dom0={ranges(mk[:6])} dom1={ranges(mk)}"))
    for c in (0x1E0B, 0x61, 0x1100, 0x390):
        jobs.append((10, f"rel_s len0=3 dom0={c:#x} dom1={ranges(mk[:9])} dom2={ranges(mk[:9])}"))
    x, mix = [[0x78]], long_texts()[-3][1][:13]
    for t in (x + [[0x65], [0x301]] * 70, [[0xE9]] * 80, x + [[0x1100], [0x1161], [0x11A8]] * 35, [[0xAC01]] * 70, mix * 8, x + [[0x9C7], [0x9BE]] * 70):
        jobs.append((90, job("rel", t)[2]))
    if THOROUGH:
        ms = mark_sample(1)
        for c in some:
            jobs.append((40, f"rel_s len0=2 dom0={c:#x} dom1={ranges(ms)}"))
            jobs.append((90, f"rel_s len0=3 dom0={c:#x} dom1={ranges(mk)} dom2={ranges(mk)}"))
    rs = analyse(jobs)
    rep.saw(*rs)
    for r in rs:
        if r["domain"] is None:
            rep.count(1, 0)
            continue
        n = size(r["domain"])
        ok = 0
        for c in r["cells"]:
            for regs, (v,) in lib.constant_cells(c["regs"], [c["out"]]):
                if v is None:
                    continue
                if v == 1023:
                    ok += size(regs)
                else:
                    t = [x[0][0] for x in regs]
                    broken = [RELATIONS[i] for i in range(10) if not v >> i & 1]
                    rep.violation(f"rel {seq(t)}", f"for s = {seq(t)} ({lib.many(size(regs))} texts like it): not {'; not '.join(broken)} [{check().path(r)}]")
        rep.count(n, ok)
        for p in r["panics"][:6]:
            t = [x[0][0] for x in p["regs"]]
            rep.violation(f"rel {seq(t)}", f"for s = {seq(t)}: panics: {incident(r, p)}")
    rep.sample("ten relations between the four forms for every scalar value")
    return ("For every one-character text and for the listed families of two and three characters, the texts the MIR computes satisfy the ten relations between the "
            "four forms (idempotence, NFC after NFD, NFD after NFC, and so on), without reference to outside data. One obligation per cell: a set of texts the code treats alike.")


# ------------------------------------------------------------------ segmentation
@functools.lru_cache(None)
def parts(k=8):
    """the scalar values in k parts, by segmentation class: what the work is divided by"""
    inv, cs = seg.classes()
    sc = np.ones(N, dtype=bool)
    sc[0xD800:0xE000] = False
    big = [[] for _ in range(k)]
    # classes that can start long clusters first, round robin
    order = sorted(range(len(cs)), key=lambda i: -(4 * cs[i][2] + 3 * (cs[i][1] == seg.W["Consonant"]) + 2 * (cs[i][0] in (seg.G["PP"], seg.G["RI"])) + (cs[i][0] == seg.G["L"])))
    for j, i in enumerate(order):
        big[j % k].append(i)
    out = []
    for b in big:
        rs = runs(np.nonzero(np.isin(inv, b) & sc)[0])
        if rs:
            out.append(",".join(f"{l:#x}-{h:#x}" for l, h in rs))
    return out


AGREE = ["count", "last", "nth(0)", "nth(1)", "nth past the end", "fold", "size_hint", "skip(1)", "next after nth(0)", "a second iteration"]


def C23(rep):
    nw, nr = (5, 4) if THOROUGH else (4, 3)
    jobs = [(1, "seg_empty")]
    jobs += [(1, f"seg_all len0={n} wide=1") for n in range(0, nw)]
    jobs += [(5, f"seg_all len0={nw} wide=1 dom0={d}") for d in parts()]
    jobs += [(2, f"seg_all_s len0={n}") for n in range(0, nr)]
    jobs += [(5, f"seg_all_s len0={nr} dom0={d}") for d in parts()]
    jobs += [(1, f"seg_agree len0={n} wide=1") for n in range(0, nw - 1)] + [(8, f"seg_agree len0={nw - 1} wide=1 dom0={d}") for d in parts()]
    jobs += [(1, f"seg_agree_s len0={n}") for n in range(0, nr - 1)] + [(8, f"seg_agree_s len0={nr - 1} dom0={d}") for d in parts()]
    pump = huge() + (pumped() if THOROUGH else [f for i, f in enumerate(pumped()) if len(f) > 100 or i % 3 == 0])
    jobs += [((len(f) / 20) ** 1.5, " ".join([f"seg_all_s len0={len(f)}"] + [f"dom{i}={x}" for i, x in enumerate(f)])) for f in pump]
    rs = analyse(jobs)
    rep.saw(*rs)
    direct, wide = [], []
    for r in rs:
        n = cells = ok = 0
        for c in r["cells"]:
            for regs, v in lib.constant_cells(c["regs"], as_list(c["out"])):
                cells += 1
                if None in v:
                    continue
                why = pieces_say(r["entry"], v)
                if not why:
                    n += size(regs)
                    ok += 1
                    continue
                (wide if r["entry"] in ("seg_all", "seg_agree") else direct).append(([x[0][0] for x in regs], size(regs), why, r))
        rep.cells(r, n, cells, ok)
        for p in r["panics"][:6]:
            (wide if r["entry"] in ("seg_all", "seg_agree") else direct).append(([x[0][0] for x in p["regs"]], size(p["regs"]), f"panics: {incident(r, p)}", r))
    wide = sorted(wide, key=lambda x: len(x[0]))[:24]
    for (t, k, why, r), v in zip(wide, pieces_wrong([(x[3]["entry"] + "_s", x[0]) for x in wide])):
        if v:
            direct.append((t, k, v, r))
        else:
            rep.note(f"not confirmed with real bytes: {r['name']} {seq(t)}")
    for t, k, why, r in sorted(direct, key=lambda x: len(x[0]))[:24]:
        rep.violation(f"pieces {seq(t)}", f"segmenting {seq(t)} ({lib.many(k)} texts like it): {why} [{check().path(r)}]")
    rep.sample(f"all texts of up to {nw} characters (a character as one unit), all of up to {nr} characters with their UTF-8 bytes; every way of consuming the iterator: "
               f"one character less; {len(pump)} families of longer texts, of up to {max(map(len, pump))} characters")
    return ("For every text of up to the given number of characters and the longer families, each piece the MIR of BreakGraphemes::next yields starts where the one before ended, "
            "is not empty, the last ends where the text ends, and then the iteration is over; count, last, nth, fold, skip and size_hint agree with it. "
            "One obligation per cell: a set of texts the code treats alike.")


def as_list(x):
    return x if isinstance(x, list) else [x]


def pieces_say(entry, v):
    """what is wrong with the result of a segmentation entry; '' if nothing"""
    if entry.startswith("seg_agree"):
        return ", ".join(f"{w} disagrees with next" for i, w in enumerate(AGREE) if not v[0] >> i & 1)
    good, at, total, pieces, ended = v
    return ("pieces are not consecutive non-empty subslices" if not good else "the pieces end before the text does" if at < total else
            "the pieces run past the text" if at > total else "the iteration does not end" if not ended else
            "pieces of an empty text" if (pieces > 0) != (total > 0) else "")


def pieces_wrong(texts):
    """what the analysis with real bytes says is wrong with (entry, text); '' if nothing, or if it cannot be told"""
    if not texts:
        return []
    out = []
    for r in analyse([" ".join([f"{e} len0={len(t)}"] + [f"dom{i}={x}" for i, x in enumerate(t)]) for e, t in texts]):
        say = f"panics: {incident(r, r['panics'][0])}" if r["panics"] else ""
        for c in r["cells"]:
            for _, v in lib.constant_cells(c["regs"], as_list(c["out"])):
                if None not in v:
                    say = say or pieces_say(r["entry"], v)
        out.append(say)
    return out


def cuts_of(r):
    """(regs, character positions of the boundaries, is that all of them) for each cell of a segmentation entry"""
    wide = r["entry"] in ("seg_first", "seg_cuts", "seg_list")
    whole = r["entry"].startswith(("seg_cuts", "seg_list"))
    listed = r["entry"].startswith("seg_list")
    for c in r["cells"]:
        for regs, v in lib.constant_cells(c["regs"], c["out"]["s"] if listed else c["out"]):
            n = len(regs)
            if None in v:
                yield regs, None
                continue
            if listed:
                ends = v if all(a < b for a, b in zip([0] + v, v)) else [-1]
            elif whole:
                ends, last = [], 0
                for e in v:
                    if e:
                        ends.append(e)
            else:
                ends = [v[2]] if v[0] and v[1] == 0 else [-1]
            if wide:
                yield regs, [e // 4 if e % 4 == 0 else -1 for e in ends]
                continue
            for q, ls in seg.by_length(regs, n):
                pos = {0: 0}
                for i, l in enumerate(ls):
                    pos[pos_last(pos) + l] = i + 1
                yield q, [pos.get(e, -1) for e in ends]


def pos_last(pos):
    return next(reversed(pos))


def _cells(r):
    """compares one result; returns (texts, cells, cells right, [(text, texts like it, what the code says)])"""
    n = cells = ok = 0
    bad = []
    whole = r["entry"].startswith(("seg_cuts", "seg_list"))
    for regs, cuts in cuts_of(r):
        k = size(regs)
        n += k
        cells += 1
        m = len(regs)
        if cuts is None:
            continue
        if -1 in cuts or (m and not cuts):
            bad.append(([x[0][0] for x in regs], k, cuts))
            continue
        if whole and m and cuts[-1] != m:
            bad.append(([x[0][0] for x in regs], k, cuts))
            continue
        p = seg.check_cuts(regs, [c for c in cuts if c < m], whole)
        if p is None:
            ok += 1
        else:
            bad.append((seg.witness(regs, p), k, cuts))
    return n, cells, ok, bad


def rep_families():
    """longer texts over few representatives: what carries context along a cluster"""
    flag = ranges(range(0x1F1E6, 0x1F200))
    out = []
    for n in (9, 10, 11, 16, 17, 33, 34):
        out.append([flag] * n)
        out.append(["0x61"] + [flag] * n)
    ext = "0x300-0x34e"
    pict = "0x1f600-0x1f64f"
    for n in (1, 2, 3, 8, 20):
        out.append([pict] + [ext] * n + ["0x200d", pict, pict])
        out.append([pict] + (["0x200d", pict]) * n + ["0x61"])
        out.append([pict] + ([ext, "0x200d", pict]) * n + ["0x61"])
        out.append(["0x915-0x939"] + ["0x93c"] * n + ["0x94d"] + ["0x93c"] * n + ["0x915-0x939", "0x915-0x939"])
        out.append(["0x915-0x939"] + ["0x94d", "0x915-0x939"] * n + ["0x61"])
        out.append(["0x915-0x939", "0x200d"] + ["0x94d"] * n + ["0x200d", "0x915-0x939"])
        out.append(["0x1100-0x115f"] * n + ["0x1160-0x11a7"] * n + ["0x11a8-0x11ff"] * n + ["0x1100-0x115f"])
        out.append(["0x600-0x605"] * n + [pict, ext, "0x200d", pict])
        out.append(["0xac00", "0x1160-0x11a7"] + ["0x11a8-0x11ff"] * n + ["0xac01"])
        out.append(["0xd"] + ["0xa", "0xd"] * n)
        out.append(["0x61"] + [ext] * n + ["0x903"] * n + [ext] * n + ["0x62"])
    return out


ALL = "0x0-0xd7ff,0xe000-0x10ffff"


@functools.lru_cache(None)
def groups_of():
    """some ranges of characters of one segmentation class and one number of UTF-8 bytes: {(class, bytes): job syntax}"""
    inv, cs = seg.classes()
    out = {}
    for i in range(len(cs)):
        k = np.nonzero(inv == i)[0]
        for j, (a, b) in enumerate(seg.UTF8):
            q = k[(k >= a) & (k <= b) & ((k < 0xD800) | (k > 0xDFFF))]
            if len(q):
                r = [f"{a}-0x{min(int(b, 16), int(a, 16) + 0x1FF):x}" for a, b in ((x.split("-")[0], x.split("-")[-1]) for x in ranges(q).split(","))]
                out[i, j + 1] = ",".join(dict.fromkeys([r[0], max(r, key=lambda x: int(x.split("-")[-1], 16) - int(x.split("-")[0], 16)), r[-1]]))
    return out


def usual(i):
    """the most common group of a class"""
    inv, _ = seg.classes()
    k = np.nonzero(inv == i)[0]
    return max((g for g in groups_of() if g[0] == i), key=lambda g: int(((k >= seg.UTF8[g[1] - 1][0]) & (k <= seg.UTF8[g[1] - 1][1])).sum()))


@functools.lru_cache(None)
def states():
    """every state a cluster can be in: {state: shortest sequence of classes that leads there}"""
    _, cs = seg.classes()
    out, todo = {}, []
    for i, c in enumerate(cs):
        if seg.start(c) not in out:
            out[seg.start(c)] = (i,)
            todo.append(seg.start(c))
    for st in todo:
        for i, c in enumerate(cs):
            b, n = seg.step(st, c)
            if not b and n not in out:
                out[n] = out[st] + (i,)
                todo.append(n)
    return out


def pumped():
    """(texts): what leads to each state, then something that keeps the cluster going, many times, then any character.
    Whether a rule still remembers, or forgot, after so many characters shows in the last boundary"""
    _, cs = seg.classes()
    g = groups_of()
    long, n = (300, 140) if THOROUGH else (270, 70)
    out = [[g[k]] * long + [ALL, ALL] for k in g]
    out += [[g[usual(p)]] + [g[k]] * (long // 2) + [ALL] for k in g if cs[k[0]][0] in (seg.G["EX"], seg.G["SM"], seg.G["ZWJ"]) for p in (14, 15, 16, 10, 5)]
    for st, path in states().items():
        head = [g[usual(i)] for i in path]
        for k in g:
            b, s1 = seg.step(st, cs[k[0]])
            if b:
                continue
            b, s2 = seg.step(s1, cs[k[0]])
            if not b and (s2 == s1 or seg.step(s2, cs[k[0]]) == (False, s1)):
                out.append(head + [g[k]] * n + [ALL, ALL])
            # two kinds in turn
            for i in range(len(cs)):
                m = usual(i)
                if m == k or k != usual(k[0]):
                    continue
                b, s2 = seg.step(s1, cs[i])
                if not b and seg.step(s2, cs[k[0]]) == (False, s1):
                    out.append(head + [g[k], g[m]] * (n // 2) + [ALL])
    some = [usual(i) for i in range(len(cs))] + [k for k in g if k[0] in (2, 15) and k != usual(k[0])]
    for a in some:
        for b in some:
            if a != b:
                out.append([g[a], g[b]] * 12 + [ALL])
    # runs of one kind of every length up to some, as what scans ahead may do
    for k in g:
        if seg.G["XX"] == cs[k[0]][0] or cs[k[0]][0] in (seg.G["L"], seg.G["LV"], seg.G["RI"]) or k in ((0, 1), (2, 2)):
            out += [[g[k]] * i + [ALL] for i in (range(2, 130) if THOROUGH else [*range(2, 26), 31, 32, 33, 63, 64, 65])]
    return out


def huge():
    """texts of more than 65,536 bytes: one cluster each, or thousands of pieces"""
    out = [["0x1f600"] + ["0xe0100-0xe01ef"] * 16500 + ["0x200d", "0x1f600"], ["0x1f1e6-0x1f1ff"] * 16501, ["0x1f680"] * 16501,
           ["0x915"] + ["0x94d"] * 22000 + ["0x915"]]
    if THOROUGH:
        # and of more than 65,536 characters
        out += [["0x1f600"] + ["0x300-0x34e"] * 66000 + ["0x200d", "0x1f600"], ["0x61"] * 66000, ["0xac00"] + ["0x11a8"] * 66000 + ["0xac00"]]
    return out


def C24(rep):
    nw, nr, nc = (10, 5, 6) if THOROUGH else (8, 4, 5)
    jobs = [(1, f"seg_first len0={n} wide=1") for n in range(1, nw)] + [(6, f"seg_first len0={nw} wide=1 dom0={d}") for d in parts(24 if THOROUGH else 8)]
    jobs += [(2, f"seg_s len0={n}") for n in range(1, nr)] + [(10, f"seg_s len0={nr} dom0={d}") for d in parts(24 if THOROUGH else 8)]
    jobs += [(2, f"seg_cuts len0={n} wide=1") for n in range(1, nc)] + [(8, f"seg_cuts len0={nc} wide=1 dom0={d}") for d in parts(24 if THOROUGH else 8)]
    fam = rep_families()
    for f in fam:
        d = " ".join(f"dom{i}={x}" for i, x in enumerate(f))
        jobs.append((len(f) / 10, f"seg_s len0={len(f)} {d}"))
    pump = pumped()
    for f in pump:
        jobs.append(((len(f) / 20) ** 1.5, " ".join([f"seg_list_s len0={len(f)}"] + [f"dom{i}={x}" for i, x in enumerate(f)])))
    long = huge()
    jobs += [(500, " ".join([f"seg_list_s len0={len(f)}"] + [f"dom{i}={x}" for i, x in enumerate(f)])) for f in long]
    for i in range(len(seg.classes()[1])):
        f = [",".join(x for k, x in groups_of().items() if k[0] == i)] * 70 + [ALL, ALL]
        jobs.append((1, " ".join([f"seg_list len0={len(f)} wide=1"] + [f"dom{i}={x}" for i, x in enumerate(f)])))
    rs = analyse(jobs)
    rep.saw(*rs)
    direct, wide = [], []
    for r, (n, cells, ok, bad) in zip(rs, check().pool(_cells, rs)):
        rep.cells(r, n, cells, ok)
        todo = [(t, k, f"pieces end at {cuts}", r) for t, k, cuts in bad]
        todo += [([x[0][0] for x in p["regs"]], size(p["regs"]), f"panics: {incident(r, p)}", r) for p in r["panics"]]
        (direct if r["entry"].endswith("_s") else wide).extend(todo)
    for t, k, say, r in sorted(direct, key=lambda x: len(x[0]))[:12]:
        rep.violation(f"graphemes {seq(t)}", f"segmenting {seq(t)} ({lib.many(k)} texts like it): {say}, must be at {ends_of(t)} [{check().path(r)}]")
    # a result on wide characters counts once the plain code, on this very text, says the same
    wide = sorted(wide, key=lambda x: len(x[0]))[:24]
    for (t, k, say, r), v in zip(wide, confirm([x[0] for x in wide])):
        if v:
            rep.violation(f"graphemes {seq(t)}", f"segmenting {seq(t)} ({lib.many(k)} texts like it): {v} [{check().path(r)}]")
        else:
            rep.note(f"not confirmed with real bytes: {r['name']} {seq(t)}")
    rep.sample(f"first boundary: all texts of up to {nw} characters; all boundaries: up to {nc}; with real bytes: up to {nr}; {len(fam)} longer families of up to "
               f"{max(map(len, fam))} characters; {len(pump)} families with a part repeated up to {max(map(len, pump)) - 2} times; {len(long)} texts of more than 65,536 bytes")
    rep.extra["automaton_selftest_sequences"] = seg.selftest(3)
    return ("For every text of up to the given number of characters (every scalar value at each position) and the longer families, the first boundary, and for shorter texts "
            "all boundaries, the MIR of BreakGraphemes::next finds are those of rules GB3-GB999 with 15.1.0 data. One obligation per cell: a set of texts the code treats alike.")


def ends_of(t):
    out = []
    for c in o.clusters(list(t)):
        out.append((out[-1] if out else 0) + len(c))
    return out


def confirm(texts):
    """what the code does wrong with real bytes on each of these texts; '' if nothing, or if it cannot be told"""
    if not texts:
        return []
    out = []
    for t, r in zip(texts, analyse([" ".join([f"seg_list_s len0={len(t)}"] + [f"dom{i}={x}" for i, x in enumerate(t)]) for t in texts])):
        say = f"panics: {incident(r, r['panics'][0])}" if r["panics"] else ""
        for _, cuts in cuts_of(r):
            if cuts is not None and not say and cuts != ends_of(t):
                say = f"pieces end at {cuts}, must be at {ends_of(t)}"
        out.append(say)
    return out


# ------------------------------------------------------------------ the container
TS = {"ts_u8_1": 1, "ts_u8_2": 2, "ts_u8_3": 3, "ts_u16_2": 2, "ts_usize_3": 3, "ts_u32_2": 2, "ts_u64_1": 1, "ts_i16_3": 3}


def C25(rep):
    rs = analyse(list(TS) + ["ts_big_128", "ts_big_256", "ts_big_100", "ts_wide_1", "ts_wide_2", "ts_wide_16", "ts_deep"])
    rep.saw(*rs)
    for (name, b), r in zip(TS.items(), rs):
        nb = 6 // b
        need = {(cp, i) for cp in range(4 * b) for i in range(nb)}
        got = set()
        if r["domain"] is None:
            rep.count(len(need), 0)
            continue
        for c in r["cells"]:
            for l, h in c["regs"][0]:
                for cp in range(l, min(h, 4 * b - 1) + 1):
                    k, off = divmod(cp, b)
                    for i in sorted({i for a, z in c["regs"][1 + k] for i in range(a, min(z, nb - 1) + 1)}):
                        want = 5 + i * b + off
                        v = c["out"]
                        one_value = all(len(x) == 1 and x[0][0] == x[0][1] for x in [c["regs"][want]])
                        same = ("p" in v and v["f"] == want and all(len(p) == 4 and p[2] == p[0] and p[3] == 1 or p[0] == p[1] == p[2] for p in v["p"])) or \
                            ("c" in v and one_value and v["c"] == c["regs"][want][0][0])
                        if same:
                            got.add((cp, i))
                        else:
                            src = f"element {v['f'] - 5}" if "f" in v and v["f"] >= 5 else "something else"
                            rep.violation(f"{name} {cp} {i}", f"lookup of {cp} with block size {b} and stage 1 entry {i} gives {src} instead of element {want - 5} of the "
                                          f"flat sequence [{check().path(r)}]")
        for p in r["panics"]:
            for l, h in p["regs"][0]:
                for cp in range(l, min(h, 4 * b - 1) + 1):
                    for i in sorted({i for a, z in p["regs"][1 + cp // b] for i in range(a, min(z, nb - 1) + 1)}):
                        rep.violation(f"{name} {cp} {i}", f"lookup of {cp} with block size {b} and stage 1 entry {i} panics: {incident(r, p)}")
        rep.count(len(need), len(got & need))
    k = np.arange(N)
    for r, b in zip(rs[len(TS):], (128, 256, 100, 1, 2, 16, 2)):
        t = Table(r)
        got = t.ints()
        lim = (8704 if "big" in r["name"] else 70000) * b
        at = ((k // b) * 7 + 66000) % 70000 if "deep" in r["name"] else (k // b) * 7 % 600
        want = np.where(k < lim, at * b + k % b, -1)
        t.status[k >= lim] = np.where(t.status[k >= lim] == lib.UNDEC, lib.UNDEC, lib.NONE)
        rep.count(min(N, lim), int(((t.status == OK) & (got == want) & (k < lim)).sum()))
        bad = (t.status == OK) & (got != want) & (k < lim)
        if bad.any():
            x = int(np.nonzero(bad)[0][0])
            rep.violation(f"{r['name']} {x:X}", f"lookup of {x:X} with block size {b} gives flat element {int(got[x])}, not {int(want[x])} [{check().path(r)}]")
        for p in r["panics"]:
            rs_ = [[l, min(h, lim - 1)] for l, h in p["regs"][0] if l < lim]
            if rs_:
                rep.violation(f"{r['name']} {rs_[0][0]:X}", f"lookup of {show([tuple(x) for x in rs_])} with block size {b} panics: {incident(r, p)}")
    rep.sample("index entries and contents symbolic: block sizes 1, 2, 3; index types u8, u16, u32, u64, usize, i16")
    rep.sample("constant 8704-entry index over 600 blocks of 128, 256 and 100 elements, 70,000-entry index over 600 blocks of 1, 2 and 16, and over 70,000 blocks of 2: every index")
    return ("With every stage 1 entry (of every index type used) and every element an unknown input, the value TwoStageTable::at's MIR computes is the very input that the "
            "flat sequence has at that index; and for large constant tables every index gives its own element. One obligation per index and stage 1 entry.")


# ------------------------------------------------------------------ the version
def C26(rep):
    c, ct = analyse(["ver_const", "ver_const_text"])
    U32 = "0-0xffffffff"
    vals = [0, 1, 2, 9, 10, 14, 15, 16, 255, 256, 2**31, 2**32 - 1]
    rnd = random.Random(lib.SEED)
    jobs = []
    fixed = [(15, 1, 0), (0, 0, 0), (2**32 - 1,) * 3, (1, 2**32 - 1, 5), (16, 0, 2**31)]
    fixed += [tuple(rnd.choice(vals) for _ in range(3)) for _ in range(40 if THOROUGH else 12)]
    for f in fixed:
        jobs.append(" ".join(["ver_cmp"] + [f"dom{i}={v}" for i, v in enumerate(f)] + [f"dom{i}={U32}" for i in (3, 4, 5)]))
        jobs.append(" ".join(["ver_cmp"] + [f"dom{i + 3}={v}" for i, v in enumerate(f)] + [f"dom{i}={U32}" for i in (0, 1, 2)]))
    few = "0,1,2,15,255,256,257,65535,65536,4294967295"
    for f in fixed[:4] + [(15, 1, 256), (1, 256, 65536)]:
        jobs.append(" ".join(["ver_cmp"] + [f"dom{i}={v}" for i, v in enumerate(f)] + [f"dom{i}={few}" for i in (3, 4, 5)]))
        jobs.append(" ".join(["ver_cmp"] + [f"dom{i + 3}={v}" for i, v in enumerate(f)] + [f"dom{i}={few}" for i in (0, 1, 2)]))
    text = []
    some = "0,1,9,10,15,99,100,4294967295"
    for i in range(3):
        for base in (0, 9990, 99990, 999990, 9999990, 99999990, 999999990, 4294967280):
            hi = 200 if base == 0 else base + (20 if base < 4294967280 else 15)
            text.append(" ".join(["ver_text"] + [f"dom{j}=" + (f"{base}-{hi}" if j == i else some) for j in range(3)]))
    rs = analyse(jobs + text)
    rep.saw(c, ct, *rs)
    for cell in c["cells"]:
        v = [x.get("c") for x in cell["out"]]
        rep.count(1, v == [15, 1, 0])
        if v != [15, 1, 0]:
            rep.violation("constant", f"UNICODE_VERSION is {v}, the tables hold 15.1.0 [src/unicode.rs UNICODE_VERSION]")
    for cell in ct["cells"]:
        s = "".join(chr(x.get("c", 63)) for x in cell["out"]["s"])
        rep.count(1, s == "15.1.0")
        if s != "15.1.0":
            rep.violation("constant text", f"UNICODE_VERSION reads {s!r} [{check().path(ct)}]")
    for p in ct["panics"]:
        rep.violation("constant text", f"UNICODE_VERSION.to_string() panics: {incident(ct, p)}")
    for r in rs[:len(jobs)]:
        order_check(rep, r)
    for r in rs[len(jobs):]:
        version_text(rep, r)
    rep.sample(f"{len(fixed)} versions, each against all 2^96 versions on either side")
    return ("UNICODE_VERSION is 15.1.0 and reads 15.1.0; the text of a version is its three numbers in decimal joined by dots; a fixed version compared with every version "
            "(three whole u32 ranges, on either side) is equal, less or greater as the triples are. One obligation per pair or version.")


def order_check(rep, r):
    if r["domain"] is None:
        rep.count(1, 0)
        return
    n = cells = ok = 0
    left = [i for i in range(6) if r["domain"][i][0][0] != r["domain"][i][0][1] or len(r["domain"][i]) > 1]
    side = 0 if left and left[0] == 0 else 1
    k = [r["domain"][i + (3 if side == 0 else 0)][0][0] for i in range(3)]
    for c in r["cells"]:
        for regs, v in lib.constant_cells(c["regs"], c["out"]):
            cells += 1
            n += size(regs)
            if None in v:
                continue
            good = True
            # split the three free numbers at the fixed ones: the order is constant on each part
            free = regs[0:3] if side == 0 else regs[3:6]
            for cls in itertools.product(*[[(s, q) for s, q in cut3(free[i], k[i]) if q] for i in range(3)]):
                s = next((x for x, _ in cls if x), 0)            # the free version against the fixed one
                d = s if side == 0 else -s                       # left against right
                want = [d == 0, d < 0, d <= 0, d > 0, d >= 0, d & 0xFF]
                if [int(x) for x in want] != [int(x) for x in v]:
                    good = False
                    f = [q[0][0] for _, q in cls]
                    a, b = (f, k) if side == 0 else (k, f)
                    rep.violation(f"order {a} {b}", f"comparing {'.'.join(map(str, a))} with {'.'.join(map(str, b))} (==, <, <=, >, >=, cmp) gives {v}, should be {want} "
                                  f"[{check().path(r)}]")
            ok += good
    rep.cells(r, n, cells, ok)
    for p in r["panics"][:3]:
        rep.violation("order panic", f"comparing versions panics: {incident(r, p)}")


def cut3(reg, k):
    lt = [[l, min(h, k - 1)] for l, h in reg if l < k]
    eq = [[k, k]] if any(l <= k <= h for l, h in reg) else []
    gt = [[max(l, k + 1), h] for l, h in reg if h > k]
    return [(-1, lt), (0, eq), (1, gt)]


def version_text(rep, r):
    if r["domain"] is None:
        rep.count(1, 0)
        return
    n, ok = size(r["domain"]), 0
    for c in r["cells"]:
        for regs, v in lib.constant_cells(c["regs"], c["out"]["s"]):
            got = "".join(chr(x) if x is not None else "?" for x in v)
            for t in itertools.islice(itertools.product(*[[x for l, h in q for x in range(l, h + 1)] for q in regs]), 100000):
                if got == "%d.%d.%d" % t:
                    ok += 1
                else:
                    rep.violation(f"text {t}", f"version {t} reads {got!r} [{check().path(r)}]")
    rep.count(n, ok)
    for p in r["panics"][:3]:
        rep.violation("text panic", f"the text of a version panics: {incident(r, p)}")


# ------------------------------------------------------------------ mirror
def C29(rep):
    dt_, dm_, ex_, n1 = analyse(["p_dt", "p_dm", "p_comp_ex", "nfc1"])
    rep.saw(dt_, dm_, ex_, n1)
    t, dt, say = check().enum_values(dt_, "dt")
    dmt = Table(dm_)
    dmap = {}
    for idx, cols in dmt.texts():
        if not cols:
            continue
        for k, c in enumerate(idx):
            dmap[int(c)] = tuple(int(col[k]) for col in cols)
    ext = Table(ex_)
    ex = ext.ints() == 1
    none, can = o.values("dt").index("None"), o.values("dt").index("Can")
    has = np.zeros(N, dtype=bool)
    has[list(dmap)] = True
    both = (t.status == OK) & (dmt.status == OK)
    bad = both & (has != (dt != none))
    rep.count(N, int((both & ~bad).sum()))
    if bad.any():
        rs = runs(np.nonzero(bad)[0])
        rep.violation(f"dm/dt {show(rs, 1)}", f"decomposition mapping and type disagree for {show(rs)} (one is None, the other is not) [{check().path(dm_)} | {check().path(dt_)}]")
    # no mapping leads back to where it started
    depth = {}

    def deep(c, trail):
        if c in trail:
            return None
        if c not in depth:
            d = 0
            for x in dmap.get(c, ()):
                e = deep(x, trail + (c,))
                if e is None:
                    return None
                d = max(d, e + 1)
            depth[c] = d
        return depth[c]

    okd = 0
    for c in dmap:
        if deep(c, ()) is None:
            rep.violation(f"cycle {c:04X}", f"the decomposition of {c:04X} leads back to itself [{check().path(dm_)}]")
        else:
            okd += 1
    rep.count(len(dmap), okd)
    # the composition side, from the code's own answers
    comp = {m: c for c, m in dmap.items() if len(m) == 2 and dt[c] == can and not ex[c]}
    twice = len([1 for c, m in dmap.items() if len(m) == 2 and dt[c] == can and not ex[c]]) - len(comp)
    rep.count(1, twice == 0)
    if twice:
        cnt = {}
        for c, m in dmap.items():
            if len(m) == 2 and dt[c] == can and not ex[c]:
                cnt.setdefault(m, []).append(c)
        for m, cs in cnt.items():
            if len(cs) > 1:
                rep.violation(f"twins {seq(m)}", f"{seq(cs)} have the same decomposition {seq(m)} and neither is excluded [{check().path(dm_)}]")
    whole = {}
    for idx, cols in Table(n1).texts():
        if len(cols) == 1:
            for k, c in enumerate(idx):
                if int(cols[0][k]) == int(c):
                    whole[int(c)] = True
    n = ok = 0
    for m, c in comp.items():
        n += 1
        if whole.get(c):
            ok += 1
        else:
            rep.violation(f"composite {c:04X}", f"{c:04X} decomposes canonically to {seq(m)} and is not excluded, but NFC does not compose it again [{check().path(n1)}]")
    for c, m in dmap.items():
        if dt[c] == can and (len(m) != 2 or ex[c]):
            n += 1
            if whole.get(c):
                rep.violation(f"excluded {c:04X}", f"{c:04X} is a singleton or excluded from composition, but NFC yields it [{check().path(n1)}]")
            else:
                ok += 1
    rep.count(n, ok)
    # pairs of undecomposable characters: a composite exactly when the decomposition data say so
    A = sorted({a for a, _ in comp if a not in dmap and not o.SB <= a < o.SB + o.SC})
    B = sorted({b for _, b in comp if b not in dmap})
    k = 8
    rs = analyse([(5, f"nfc2 dom0={ranges(A[i::k])} dom1={ranges(B)}") for i in range(k)])
    rep.saw(*rs)
    for r in rs:
        if r["domain"] is None:
            rep.count(1, 0)
            continue
        good = 0
        for c in r["cells"]:
            outs = c["out"]["s"]
            if len(outs) != 1:
                for a in chars(c["regs"][0]):
                    for b in chars(c["regs"][1]):
                        if (a, b) in comp:
                            rep.violation(f"pair {seq((a, b))}", f"{comp[a, b]:04X} decomposes to {seq((a, b))}, but NFC does not compose that pair [{check().path(r)}]")
                        else:
                            good += 1
                continue
            for regs, (v,) in lib.constant_cells(c["regs"], outs):
                for a in chars(regs[0]):
                    for b in chars(regs[1]):
                        if comp.get((a, b)) == v:
                            good += 1
                        elif v is not None:
                            rep.violation(f"pair {seq((a, b))}", f"NFC composes {seq((a, b))} to {v:04X}, which the decomposition data do not support [{check().path(r)}]")
        rep.count(size(r["domain"]), good)
    rep.sample(f"{len(dmap)} mappings, deepest {max(depth.values(), default=0)} steps, {len(comp)} composites, {len(A)} x {len(B)} pairs")
    return ("From the code's own answers for every code point: a mapping exists exactly where the type is not None, following mappings always ends, every two-character canonical "
            "mapping that is not excluded is composed again by NFC and no other is, and among all first x second elements exactly those pairs compose. One obligation per code "
            "point, mapping and pair.")


def chars(reg):
    for l, h in reg:
        yield from range(l, h + 1)


# ------------------------------------------------------------------ ASCII
def value(v, at):
    """a word of a result for the input values `at`"""
    if "c" in v:
        return v["c"]
    x = at[v["f"]]
    for p in v["p"]:
        if p[0] <= x <= p[1]:
            return p[2] if len(p) == 3 else p[2] + p[3] * (x - p[0])


def itself(v, i, regs):
    """is the word the i-th input, on the whole region?"""
    return all(value(v, {i: x, v.get("f", i): regs[v.get("f", i)][0][0] if v.get("f", i) != i else x}) == x for x in chars(regs[i])) and \
        (v.get("f", i) == i or size([regs[i]]) == 1 and all(value(v, {v["f"]: y}) == regs[i][0][0] for y in chars(regs[v["f"]])))


def differs(regs, out, i):
    """a text of the region whose result is not itself, and that result"""
    low = [r[0][0] for r in regs]
    tries = [low] + ([low[:j] + [x] + low[j + 1:] for j in {i, out[i].get("f", i)} for x in chars(regs[j])] if i < len(out) and i < len(regs) else [])
    for t in tries:
        got = [value(v, dict(enumerate(t))) for v in out]
        if got != t:
            return t, got
    return low, [value(v, dict(enumerate(low))) for v in out]


def C30(rep):
    A = "0-0x7f"
    jobs = []
    ns = (1, 2, 3, 4, 6, 8, 16, 33) if not THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 33, 48, 64, 100)
    for f in o.FORMS:
        for n in ns:
            jobs.append((n / 4, job(f, [A] * n)[2]))
    rs = analyse(jobs)
    rep.saw(*rs)
    for r in rs:
        f, n, ok = r["name"].rstrip("_s"), 0, 0
        for c in r["cells"]:
            out = c["out"]["s"]
            n += size(c["regs"])
            if any("u" in v or "ptr" in v for v in out):
                continue
            i = 0
            if len(out) == len(c["regs"]):
                i = next((i for i, v in enumerate(out) if not itself(v, i, c["regs"])), None)
            if i is None:
                ok += 1
                continue
            t, got = differs(c["regs"], out, i)
            rep.violation(f"{f} {seq(t)}", f"{f.upper()} of the ASCII text {seq(t)} is {seq(got)} [{check().path(r)}]")
        rep.cells(r, n, len(r["cells"]), ok)
        for p in r["panics"][:6]:
            t = [x[0][0] for x in p["regs"]]
            rep.violation(f"{f} {seq(t)}", f"{f.upper()} of the ASCII text {seq(t)} panics: {incident(r, p)}")
    m = 7 if THOROUGH else 5
    rs = analyse([(4 ** (n - m), " ".join([f"seg_cuts_s len0={n}"] + [f"dom{i}={A}" for i in range(n)])) for n in range(1, m + 1)] +
                 [(1, " ".join([f"seg_s len0={n}"] + [f"dom{i}={A}" for i in range(n)])) for n in (8, 16, 32)])
    rep.saw(*rs)
    for r, (n, cells, ok, bad) in zip(rs, check().pool(_cells, rs)):
        rep.cells(r, n, cells, ok)
        for t, k, cuts in bad[:6]:
            rep.violation(f"ascii {seq(t)}", f"segmenting the ASCII text {seq(t)} ({lib.many(k)} texts like it) puts boundaries at {cuts}, expected "
                          f"{list(itertools.accumulate(len(c) for c in o.clusters(t)))} [{check().path(r)}]")
        for p in r["panics"][:6]:
            t = [x[0][0] for x in p["regs"]]
            rep.violation(f"ascii {seq(t)}", f"segmenting the ASCII text {seq(t)} panics: {incident(r, p)}")
    rep.sample(f"normalization: all ASCII texts of {', '.join(map(str, ns))} characters; all boundaries: up to {m}; first boundary: 8, 16, 32")
    return ("For every ASCII text of the given lengths, the four forms the MIR computes are the text itself and the boundaries are after every character except inside CR LF. "
            "One obligation per cell: a set of texts the code treats alike.")


CHECKS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
LEVELS = {k: ("other", FAMILIES) for k in ("C18", "C20", "C21", "C22", "C23", "C24", "C26", "C30")}
LEVELS["C27"] = ("proof", "interprocedural effect analysis of rustc MIR: reachability over the call graph from every public operation")
LEVELS["C28"] = ("other", "compile-fail witnesses with accepted twins, decided by rustc; query of the exported interface; abstract interpretation of every producer of code points")
