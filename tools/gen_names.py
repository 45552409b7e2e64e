#!/usr/bin/env python3
"""Generates spec/Names.tla and harness/src/consts.rs: what each public constant of the
predefined character sets converts from.  A constant has the name Unicode gives to its
source character (not read from the code under verification), but for the few that the
library's documentation calls otherwise; what it converts to is Sets.tla's and CjkData.tla's."""
import os, re, unicodedata

OWN = {0x201D: "QUOTATION_MARK", 0xFF03: "SHARP", 0xFF04: "DOLLER_SIGN", 0x2019: "APOSTROPHE", 0xFF0F: "SLASH",
       0xFF1B: "SEMI_COLON", 0xFF1D: "EQUAL_SIGN", 0xFF20: "AT_SIGN", 0xFF3C: "BACKSLASH", 0xFF5C: "VERTICAL_BAR",
       0x301C: "TILDE"}


def name(c):
    return OWN.get(c) or re.sub("[- ]", "_", re.sub("^(FULLWIDTH|HALFWIDTH) (LATIN )?", "", unicodedata.name(chr(c))))


full = lambda lo, hi: [c + 0xFEE0 for c in range(lo, hi)]
SETS = [
    ("Digits", "digits", full(48, 58)),
    ("Alphabets", "alphabets", full(65, 91) + full(97, 123)),
    ("Punctuations", "punctuations", [0x201D if c == 0xFF02 else 0x2019 if c == 0xFF07 else c
                                      for c in full(33, 48) + full(58, 65) + full(91, 97) + full(123, 126)] + [0xFFE5, 0x301C]),
    ("Kanas", "kanas", [c for c in range(0xFF61, 0xFF9E) if c != 0xFF70] + [0x3000]),
    ("", "cjk", list(range(0x3300, 0x3400))),
]

CONSTS = [(short, name(c)) for _, short, cs in SETS for c in cs]


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = ["---------------------------------- MODULE Names ----------------------------------",
           "(* Generated by tools/gen_names.py: the named one-character correspondences and   *)",
           "(* the character each converts from (its Unicode name, save for eleven).          *)",
           "EXTENDS Sets, CjkData", ""]
    rs = ["// Generated by tools/gen_names.py.", "use chanoma::characters_set::prelude::*;", "use chanoma::{Corr, Item};",
          "", "pub const CONSTS: &[(&str, &str, fn() -> Vec<Item>)] = &["]
    every = {}
    for ty, short, cs in SETS:
        rows = []
        for c in cs:
            n = name(c)
            assert n not in every, n
            every[n] = c
            rows.append("  %s |-> %d" % (n, c))
            rs.append('    ("%s", "%s", || %s%s.items()),' % (short, n, ty + "::" if ty else "", n))
        out += ["%sNames == [" % (ty or "Cjk"), ",\n".join(rows), "]", ""]
    rs.append("];")
    out += ["NamesOf(set) == CASE set = \"digits\" -> DigitsNames [] set = \"alphabets\" -> AlphabetsNames",
            "                  [] set = \"punctuations\" -> PunctuationsNames [] set = \"kanas\" -> KanasNames",
            "                  [] set = \"cjk\" -> CjkNames",
            "Target(c) == IF c >= CjkFirst /\\ c < CjkFirst + 256 THEN CjkTargets[c - CjkFirst + 1] ELSE <<PresetMap[c]>>",
            "NamedItem(set, n) == << <<NamesOf(set)[n]>>, Target(NamesOf(set)[n]) >>", "",
            "\\* the names of a set are as many as its pairs, and convert from all its sources",
            "ASSUME NamesShape ==",
            "    /\\ \\A s \\in {<<DigitsNames, DigitMap>>, <<AlphabetsNames, AlphabetMap>>, <<PunctuationsNames, PunctuationMap>>, <<KanasNames, KanaMap>>} :",
            "         Cardinality(DOMAIN s[1]) = Cardinality(DOMAIN s[2]) /\\ {s[1][n] : n \\in DOMAIN s[1]} = DOMAIN s[2]",
            "    /\\ Cardinality(DOMAIN CjkNames) = 256 /\\ {CjkNames[n] : n \\in DOMAIN CjkNames} = CjkFirst..(CjkFirst + 255)",
            "==================================================================================="]
    open(os.path.join(root, "spec", "Names.tla"), "w", encoding="utf-8").write("\n".join(out) + "\n")
    open(os.path.join(root, "harness", "src", "consts.rs"), "w", encoding="utf-8").write("\n".join(rs) + "\n")


if __name__ == "__main__":
    main()
