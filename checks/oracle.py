"""The Unicode 15.1.0 reference: frozen data (../oracle) plus the published definitions over them.

Nothing in here looks at /repo."""
import functools, gzip, json, os, re
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
N = 0x110000
SB, LB, VB, TB, LC, VC, TC = 0xAC00, 0x1100, 0x1161, 0x11A7, 19, 21, 28
NC = VC * TC
SC = LC * NC


@functools.lru_cache(None)
def raw(name):
    with gzip.open(os.path.join(HERE, "..", "oracle", name + ".json.gz"), "rt") as f:
        return json.load(f)


def rng(key):
    a, _, b = key.partition("..")
    return int(a, 16), int(b or a, 16)


def loose(s):
    return re.sub("[-_ ]", "", s).lower()


# ---------------------------------------------------------------- aliases
UCD_OF = {"gc": "gc", "hst": "hst", "gcb": "GCB", "bc": "bc", "ccc": "ccc", "dt": "dt", "blk": "blk", "sc": "sc",
          "age": "age", "wb": "WB", "insc": "InSC", "incb": "InCB"}
CCC_LONG = {"NR": "Not_Reordered", "OV": "Overlay", "HANR": "Han_Reading", "NK": "Nukta", "KV": "Kana_Voicing", "VR": "Virama",
            "ATBL": "Attached_Below_Left", "ATB": "Attached_Below", "ATA": "Attached_Above", "ATAR": "Attached_Above_Right",
            "BL": "Below_Left", "B": "Below", "BR": "Below_Right", "L": "Left", "R": "Right", "AL": "Above_Left", "A": "Above",
            "AR": "Above_Right", "DB": "Double_Below", "DA": "Double_Above", "IS": "Iota_Subscript"}


@functools.lru_cache(None)
def aliases(prop):
    """[(key, short, long)]: key is what the API calls the value"""
    d = raw("PropertyValueAliases")[UCD_OF[prop]]
    out = []
    for k, v in d.items():
        if prop == "ccc":
            out.append((v, v, CCC_LONG.get(v, v)))
        elif prop == "age":
            out.append((v if k != "NA" else "NA", k, v))
        else:
            out.append((k, k, v))
    return out


@functools.lru_cache(None)
def values(prop):
    """canonical list of value keys of an enumerated property"""
    vals = [k for k, _, _ in aliases(prop)]
    if prop == "gc":
        vals = [v for v in vals if len(v) == 2 and v != "LC"]
    return vals


@functools.lru_cache(None)
def value_ids(prop):
    """loose name -> id, for short, long and API names"""
    ids = {k: i for i, k in enumerate(values(prop))}
    out = {}
    for k, s, l in aliases(prop):
        if k in ids:
            for n in (l, s, k):
                out.setdefault(loose(n), ids[k])
    for k, i in ids.items():       # the API's own name always wins
        out[loose(k)] = i
    return out


def fill(d, prop, default):
    ids = {}
    for k, s, l in aliases(prop):
        if k in values(prop):
            for n in (k, s, l):
                ids.setdefault(loose(n), values(prop).index(k))
    a = np.full(N, ids[loose(default)], dtype=np.int32)
    for k, v in d.items():
        lo, hi = rng(k)
        a[lo:hi + 1] = ids[loose(v)]
    return a


@functools.lru_cache(None)
def enum(prop):
    """the value of an enumerated property for every code point, as an index into values(prop)"""
    if prop == "gc":
        return fill(raw("DerivedGeneralCategory"), "gc", "Cn")
    if prop == "sc":
        return fill(raw("Scripts"), "sc", "Zzzz")
    if prop == "blk":
        return fill(raw("Blocks"), "blk", "NB")
    if prop == "age":
        d = {k: "V" + v.replace(".", "_") for k, v in raw("DerivedAge").items()}
        return fill(d, "age", "NA")
    if prop == "hst":
        d = {k: {"L": "L", "V": "V", "T": "T", "LV": "LV", "LVT": "LVT"}[v] for k, v in raw("HangulSyllableType").items()}
        return fill(d, "hst", "NA")
    if prop == "gcb":
        return fill(raw("GraphemeBreakProperty"), "gcb", "XX")
    if prop == "wb":
        return fill(raw("WordBreakProperty"), "wb", "XX")
    if prop == "insc":
        return fill(raw("IndicSyllabicCategory"), "insc", "Other")
    if prop == "dt":
        d = {}
        for k, v in raw("DerivedDecompositionType").items():
            d[k] = v
        return fill(d, "dt", "None")
    if prop == "ccc":
        rank2name = raw("PropertyValueAliases")["ccc"]
        d = {k: rank2name[v] for k, v in raw("DerivedCombiningClass").items()}
        return fill(d, "ccc", "NR")
    if prop == "bc":
        a = fill(raw("DerivedBidiClass.missing"), "bc", "L")
        ids = {loose(n): values("bc").index(k) for k, s, l in aliases("bc") for n in (k, s, l)}
        for k, v in raw("DerivedBidiClass").items():
            lo, hi = rng(k)
            a[lo:hi + 1] = ids[loose(v)]
        return a
    if prop == "incb":
        insc, sc, ccc, gcb = enum("insc"), enum("sc"), ranks(), enum("gcb")
        v = values("incb").index
        a = np.full(N, v("None"), dtype=np.int32)
        six = np.isin(sc, [values("sc").index(s) for s in ("Beng", "Deva", "Gujr", "Mlym", "Orya", "Telu")])
        iv = values("insc").index
        link = (insc == iv("Virama")) & six
        cons = (insc == iv("Consonant")) & six
        g = values("gcb").index
        # UAX #44 15.1: InCB=Extend is gcb=Extend with ccc != 0, or ZWJ, outside InSC=Virama and InSC=Consonant: the 884
        # code points DerivedCoreProperties 15.1 counts
        ext = (((gcb == g("EX")) & (ccc != 0)) | (gcb == g("ZWJ"))) & (insc != iv("Virama")) & (insc != iv("Consonant"))
        a[ext] = v("Extend")
        a[link] = v("Linker")
        a[cons] = v("Consonant")
        return a
    raise KeyError(prop)


@functools.lru_cache(None)
def ranks():
    a = np.zeros(N, dtype=np.int32)
    for k, v in raw("DerivedCombiningClass").items():
        lo, hi = rng(k)
        a[lo:hi + 1] = int(v)
    return a


PROPLIST = {"wspace": "White_Space", "bidi_c": "Bidi_Control", "join_c": "Join_Control", "dash": "Dash", "hyphen": "Hyphen",
            "qmark": "Quotation_Mark", "term": "Terminal_Punctuation", "omath": "Other_Math", "hex": "Hex_Digit",
            "ahex": "ASCII_Hex_Digit", "oalpha": "Other_Alphabetic", "ideo": "Ideographic", "dia": "Diacritic", "ext": "Extender",
            "olower": "Other_Lowercase", "oupper": "Other_Uppercase", "nchar": "Noncharacter_Code_Point",
            "ogr_ext": "Other_Grapheme_Extend", "idsb": "IDS_Binary_Operator", "idst": "IDS_Trinary_Operator", "radical": "Radical",
            "uideo": "Unified_Ideograph", "odi": "Other_Default_Ignorable_Code_Point", "dep": "Deprecated", "sd": "Soft_Dotted",
            "loe": "Logical_Order_Exception", "oids": "Other_ID_Start", "oidc": "Other_ID_Continue", "sterm": "Sentence_Terminal",
            "vs": "Variation_Selector", "pat_ws": "Pattern_White_Space", "pat_syn": "Pattern_Syntax",
            "pcm": "Prepended_Concatenation_Mark", "ri": "Regional_Indicator"}
EMOJI = {"emoji": "Emoji", "epres": "Emoji_Presentation", "emod": "Emoji_Modifier", "ebase": "Emoji_Modifier_Base",
         "ecomp": "Emoji_Component", "ext_pict": "Extended_Pictographic"}


def setof(keys):
    a = np.zeros(N, dtype=bool)
    for k in keys:
        lo, hi = rng(k)
        a[lo:hi + 1] = True
    return a


def gcin(*cats):
    return np.isin(enum("gc"), [values("gc").index(c) for c in cats])


@functools.lru_cache(None)
def binary(p):
    if p in PROPLIST:
        return setof(raw("PropList")[PROPLIST[p]])
    if p in EMOJI:
        return setof(raw("emoji-data")[EMOJI[p]])
    b = binary
    if p == "math":
        return gcin("Sm") | b("omath")
    if p == "lower":
        return gcin("Ll") | b("olower")
    if p == "upper":
        return gcin("Lu") | b("oupper")
    if p == "alpha":
        return b("lower") | b("upper") | gcin("Lt", "Lm", "Lo", "Nl") | b("oalpha")
    if p == "cased":
        return b("lower") | b("upper") | gcin("Lt")
    if p == "ci":
        v = values("wb").index
        return gcin("Mn", "Me", "Cf", "Lm", "Sk") | np.isin(enum("wb"), [v("ML"), v("MB"), v("SQ")])
    if p == "di":
        a = b("odi") | gcin("Cf") | b("vs")
        a &= ~b("wspace") & ~b("pcm")
        a[0xFFF9:0xFFFC] = False
        a[0x13430:0x13441] = False
        return a
    if p == "gr_ext":
        return gcin("Me", "Mn") | b("ogr_ext")
    if p == "ids":
        return (gcin("Lu", "Ll", "Lt", "Lm", "Lo", "Nl") | b("oids")) & ~b("pat_syn") & ~b("pat_ws")
    if p == "idc":
        return (b("ids") | gcin("Mn", "Mc", "Nd", "Pc") | b("oidc")) & ~b("pat_syn") & ~b("pat_ws")
    if p in ("xids", "xidc"):
        ids, idc = b("ids"), b("idc")
        a = (ids if p == "xids" else idc).copy()
        for c in np.nonzero(a)[0]:
            c = int(c)
            if c in COMPAT or 0:
                f = nfkc((c,))
                ok = (ids if p == "xids" else idc)[f[0]] if f else False
                ok = ok and all(idc[x] for x in f)
                # the closure also has to hold when the character follows others, where its leading
                # marks would join what precedes: UAX #31 treats these as XID_Continue only
                if not ok:
                    a[c] = False
        return a
    if p == "ce":
        return setof(raw("CompositionExclusions"))
    if p == "comp_ex":
        return setof(raw("DerivedNormalizationProps")["Full_Composition_Exclusion"])
    raise KeyError(p)


# ---------------------------------------------------------------- decomposition and composition
def _mappings():
    can, com, tag = {}, {}, {}
    for k, v in raw("UnicodeData").items():
        m = v["dm"]
        if not m:
            continue
        c = int(k, 16)
        t = None
        if m[0] == "<":
            t, m = m[1:].split(">")
        s = tuple(int(x, 16) for x in m.split())
        (com if t else can)[c] = s
        tag[c] = t
    return can, com, tag


CANON, COMPAT_ONLY, TAGS = _mappings()
COMPAT = {**CANON, **COMPAT_ONLY}


def hangul(c):
    """one-step decomposition of a syllable"""
    i = c - SB
    if i % TC:
        return (SB + i // TC * TC, TB + i % TC)
    return (LB + i // NC, VB + i % NC // TC)


def dm(c):
    if SB <= c < SB + SC:
        return hangul(c)
    return COMPAT.get(c)


@functools.lru_cache(None)
def full(c, compat):
    if SB <= c < SB + SC:
        m = hangul(c)
    else:
        m = (COMPAT if compat else CANON).get(c)
    if m is None:
        return (c,)
    return tuple(y for x in m for y in full(x, compat))


def order(s):
    r = ranks()
    s = list(s)
    i = 0
    while i < len(s):
        if r[s[i]] == 0:
            i += 1
            continue
        j = i
        while j < len(s) and r[s[j]] != 0:
            j += 1
        s[i:j] = sorted(s[i:j], key=lambda x: int(r[x]))     # stable
        i = j
    return tuple(s)


@functools.lru_cache(None)
def pairs():
    """primary composites: (first, second) -> composite, without the excluded ones"""
    ex = binary("comp_ex")
    return {m: c for c, m in CANON.items() if len(m) == 2 and not ex[c]}


def compose2(a, b):
    if LB <= a < LB + LC and VB <= b < VB + VC:
        return SB + ((a - LB) * VC + (b - VB)) * TC
    if SB <= a < SB + SC and (a - SB) % TC == 0 and TB < b < TB + TC:
        return a + (b - TB)
    return pairs().get((a, b))


def compose(s):
    r = ranks()
    out = []
    starter = -1
    last = -1          # class of the last character kept after the starter
    for c in s:
        k = int(r[c])
        if starter >= 0 and (last < k or last == -1) and not (last == 0):
            p = compose2(out[starter], c)
            if p is not None:
                out[starter] = p
                continue
        if k == 0:
            starter = len(out)
            last = -1
        else:
            last = k
        out.append(c)
    return tuple(out)


def nfd(s):
    return order(y for x in s for y in full(int(x), False))


def nfkd(s):
    return order(y for x in s for y in full(int(x), True))


def nfc(s):
    return compose(nfd(s))


def nfkc(s):
    return compose(nfkd(s))


FORMS = {"nfd": nfd, "nfkd": nfkd, "nfc": nfc, "nfkc": nfkc}


# ---------------------------------------------------------------- names
@functools.lru_cache(None)
def names():
    out = [""] * N
    for k, v in raw("DerivedName").items():
        lo, hi = rng(k)
        for c in range(lo, hi + 1):
            out[c] = v.replace("*", f"{c:04X}")
    jsn = raw("PropertyValueAliases")["JSN"]
    JL = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"]
    JV = ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"]
    JT = ["", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG",
          "J", "C", "K", "T", "P", "H"]
    for i in range(SC):
        out[SB + i] = "HANGUL SYLLABLE " + JL[i // NC] + JV[i % NC // TC] + JT[i % TC]
    return out


# ---------------------------------------------------------------- grapheme clusters (UAX #29-43)
@functools.lru_cache(None)
def seg_class():
    """a small class number per code point: everything the boundary rules look at"""
    gcb, pict, incb = enum("gcb"), binary("ext_pict"), enum("incb")
    return gcb * 100 + incb * 2 + pict


def boundary(s, i, g=None):
    """is there a boundary between s[i-1] and s[i]? straight from the rules, scanning back over the whole text"""
    gcb, pict, incb = enum("gcb"), binary("ext_pict"), enum("incb")
    V = values("gcb").index
    W = values("incb").index
    a, b = gcb[s[i - 1]], gcb[s[i]]
    if a == V("CR") and b == V("LF"):
        return False                                            # GB3
    if a in (V("CN"), V("CR"), V("LF")):
        return True                                             # GB4
    if b in (V("CN"), V("CR"), V("LF")):
        return True                                             # GB5
    if a == V("L") and b in (V("L"), V("V"), V("LV"), V("LVT")):
        return False                                            # GB6
    if a in (V("LV"), V("V")) and b in (V("V"), V("T")):
        return False                                            # GB7
    if a in (V("LVT"), V("T")) and b == V("T"):
        return False                                            # GB8
    if b in (V("EX"), V("ZWJ")):
        return False                                            # GB9
    if b == V("SM"):
        return False                                            # GB9a
    if a == V("PP"):
        return False                                            # GB9b
    if incb[s[i]] == W("Consonant"):                            # GB9c
        j, linker = i - 1, False
        while j >= 0 and incb[s[j]] in (W("Extend"), W("Linker")):
            linker |= incb[s[j]] == W("Linker")
            j -= 1
        if linker and j >= 0 and incb[s[j]] == W("Consonant"):
            return False
    if pict[s[i]] and a == V("ZWJ"):                            # GB11
        j = i - 2
        while j >= 0 and gcb[s[j]] == V("EX"):
            j -= 1
        if j >= 0 and pict[s[j]]:
            return False
    if a == V("RI") and b == V("RI"):                           # GB12, GB13
        j = i - 1
        while j >= 0 and gcb[s[j]] == V("RI"):
            j -= 1
        if (i - 1 - j) % 2 == 1:
            return False
    return True                                                 # GB999


def clusters(s):
    out, start = [], 0
    for i in range(1, len(s)):
        if boundary(s, i):
            out.append(s[start:i])
            start = i
    if s:
        out.append(s[start:])
    return out


# ---------------------------------------------------------------- self test
def selftest():
    t = raw("NormalizationTest")
    n = 0
    for k, v in t.items():
        s = tuple(int(x, 16) for x in k.split())
        for f in ("NFC", "NFD", "NFKC", "NFKD"):
            want = tuple(int(x, 16) for x in v[f].split())
            assert FORMS[f.lower()](s) == want, (k, f)
            n += 1
    m = 0
    for k, v in raw("GraphemeBreakTest").items():
        s = tuple(int(x, 16) for x in k.split())
        assert clusters(s) == [tuple(int(x, 16) for x in p.split()) for p in v], k
        m += 1
    return n, m


if __name__ == "__main__":
    print(selftest())
