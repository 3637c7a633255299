#!/usr/bin/env python3
"""Freezes the Unicode 15.1.0 character data the checks compare against (run once; see DESIGN.md)."""
import gzip, json, os, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/tools/ucd-tool/data/15.1.0"
DST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "oracle")
FILES = ["UnicodeData", "Blocks", "Scripts", "DerivedAge", "PropList", "PropertyValueAliases", "HangulSyllableType",
         "IndicSyllabicCategory", "DerivedNormalizationProps", "CompositionExclusions", "NormalizationTest",
         "auxiliary/GraphemeBreakProperty", "auxiliary/GraphemeBreakTest", "auxiliary/WordBreakProperty", "emoji/emoji-data",
         "extracted/DerivedBidiClass", "extracted/DerivedBidiClass.missing", "extracted/DerivedCombiningClass",
         "extracted/DerivedDecompositionType", "extracted/DerivedGeneralCategory", "extracted/DerivedName"]
for f in FILES:
    d = json.load(open(f"{SRC}/{f}.json"))
    if f == "UnicodeData":
        d = {k: {"na": v["na"], "dm": v["dm"], "gc": v["gc"], "ccc": v["ccc"], "bc": v["bc"]} for k, v in d.items()}
    if f == "DerivedNormalizationProps":
        d = {k: d[k] for k in ("Full_Composition_Exclusion",)}
    out = gzip.compress(json.dumps(d, separators=(",", ":"), sort_keys=False).encode(), 9, mtime=0)
    open(f"{DST}/{os.path.basename(f)}.json.gz", "wb").write(out)
