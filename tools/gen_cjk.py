#!/usr/bin/env python3
"""Generates spec/CjkData.tla from Unicode's compatibility decompositions (not from the
code under verification), with the spellings the source documents where it deviates:
MICRO SIGN for mu, SOLIDUS for the division slash, K.K., pH and ppm."""
import unicodedata, os
DEV = {0x33CD: "K.K.", 0x33D7: "pH", 0x33D9: "ppm"}
rows = []
for c in range(0x3300, 0x3400):
    t = DEV.get(c) or unicodedata.normalize("NFKC", chr(c)).replace("\u03bc", "\u00b5").replace("\u2215", "/")
    rows.append((c, t))
out = ["---------------------------------- MODULE CjkData ----------------------------------",
       "(* Generated by tools/gen_cjk.py: U+3300..U+33FF and their compatibility equivalents. *)",
       "EXTENDS Text", "", "CjkTargets == <<"]
out.append(",\n".join("  <<%s>>" % ", ".join(str(ord(x)) for x in t) + "" for c, t in rows))
out += [">>", "", "CjkFirst == 13056",
        "CjkItems == Force([i \\in 1..Len(CjkTargets) |-> << <<CjkFirst + i - 1>>, CjkTargets[i] >>])",
        "",
        "Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \\div 10), 48 + (n % 10)>>",
        "ASSUME CjkShape ==",
        "    /\\ Len(CjkTargets) = 256",
        "    \\* hours 0..24 of a day and days 1..31 of a month",
        "    /\\ \\A h \\in 0..24 : CjkTargets[89 + h] = Decimal(h) \\o <<28857>>",
        "    /\\ \\A d \\in 1..31 : CjkTargets[224 + d] = Decimal(d) \\o <<26085>>",
        "====================================================================================="]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CjkData.tla")
open(p, "w", encoding="utf-8").write("\n".join(out) + "\n")
