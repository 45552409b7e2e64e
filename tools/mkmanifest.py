#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
import os

TRUST = (" Trusted: the specification as written from the documentation, TLC, the harness's encoding of texts as code points."
         " Nothing is assumed about the implementation's internals; /repo is rebuilt and used through its public interface.")
T = {
 "C01": ("TLA+ (Hist.tla, Chanoma.tla) with TLC: replay of every explored history of instance operations; trace checking of random compositions",
         "Every history of building and extending two instances up to the depth is enumerated by TLC and replayed; random instances of up to 8 stages are compared stage by stage with single-stage instances and with the specification."),
 "C02": ("TLA+ (Hist.tla, Trace.tla) with TLC: replay of explored histories with position reports; trace checking of all routes (plain, reporting, debug on/off)",
         "Every history up to the depth with position reports, and random instances and texts over all four routes."),
 "C03": ("TLA+ (Scan.tla) with TLC: transducer refines the declarative meaning, all texts up to a length replayed; trace checking incl. every Unicode scalar",
         "Exhaustive over texts up to the length over representatives per table; every Unicode scalar in contexts; random tables and texts; block-size edges."),
 "C04": ("TLA+ (Scan.tla, Sets.tla) with TLC: exhaustive small texts replayed; every Unicode scalar in contexts and all documented pairs trace-checked",
         "Every Unicode scalar value on its own and in contexts, so the set of converted characters is decided completely for texts of one character; pairs and longer texts are sampled."),
 "C05": ("TLA+ (Scan.tla) with TLC: five-pass transducer refines the procedure and its invariants hold; replayed; every Unicode scalar and all kana-mark pairs trace-checked",
         "Exhaustive small texts over two alphabets, every Unicode scalar in contexts, all kana x mark pairs, random and long texts."),
 "C06": ("TLA+ (Scan.tla) with TLC: finite-state machine refines the definition on all texts up to a length, replayed; neighbour pairs and every Unicode scalar trace-checked",
         "Exhaustive over texts up to the length; every pair of representative neighbours for runs of 1-3 spaces; every Unicode scalar as a neighbour; long runs at block sizes."),
 "C07": ("TLA+ (Scan.tla) with TLC: finite-state machine refines the definition, replayed; every Unicode scalar next to runs trace-checked",
         "Exhaustive over texts up to the length for four run characters of different encoded lengths; random and long runs."),
 "C08": ("TLA+ (Scan.tla) with TLC: machines refine the definitions, replayed; every Unicode scalar at the ends and inside trace-checked",
         "Exhaustive over texts up to the length for three configurations; every Unicode scalar at the ends; all white-space mixes sampled."),
 "C09": ("TLA+ (Modifiers.tla, Scan.tla) with TLC: all texts up to a length for six adversarial mappings replayed; random mappings on several instances trace-checked",
         "Six mappings with overlap, containment, production and ties exhaustively; random mappings over few characters on three instances each (own hash seeds), so an order taken from a hash map shows."),
 "C10": ("TLA+ (Modifiers.tla, Scan.tla) with TLC: model checks that positions locate and rebuild; exact positions replayed and trace-checked",
         "TLC proves on all texts up to the length that the specified positions locate, are ordered, disjoint and rebuild the output; the real reports are compared with them exactly, and the ones of random instances judged by the trace specification."),
 "C11": ("TLA+ (Corr.tla, Algebra.tla, Tables.tla) with TLC: all pairs of small item sets and all table histories up to a depth replayed; random histories trace-checked",
         "All pairs of item sets over a small universe and all histories of table operations up to the depth, then random histories over literal, predefined, linear, unified and loaded operands."),
 "C12": ("TLA+ (Corr.tla, CsvText.tla, Trace.tla) with TLC: export then import is the identity on items, judged on traces over adversarial item texts",
         "Adversarial and random item texts through both formats, the predefined sets and the export tool. Four texts listed in KNOWN_FINDINGS.txt (unquoted numbers written by serde_yaml 0.8) do not hold and are reported as KNOWN-FINDING."),
 "C13": ("TLA+ (Discover.tla, Config.tla) with TLC: every arrangement of files and environment up to a bound replayed; random file systems trace-checked",
         "All arrangements of up to two files among 18 locations, with and without the variable, and random histories of the file system."),
 "C14": ("TLA+ (Docs.tla, Csv.tla, Config.tla) with TLC: every document of the bounded grammar and every short CSV text replayed in every way of reading; random documents trace-checked",
         "All documents of a bounded grammar (modifier shapes, item shapes, orders), each in random concrete syntax, and random documents and CSV tables read in four ways."),
 "C15": ("TLA+ (Docs.tla, Csv.tla, Config.tla) with TLC: every malformed document of the bounded grammar replayed; damaged documents and files trace-checked, panics recorded",
         "All malformed documents of the bounded grammar, random documents with a damaged place, broken bytes, directories, missing files and extensions, all short file names; deeply nested YAML that overflows the stack of the YAML reader is listed in KNOWN_FINDINGS.txt; a panic or abort is recorded and rejected."),
 "C16": ("TLA+ (Threads.tla) with TLC: linearizability of a shared instance (hidden-state variants are refuted); call sequences replayed; cross-process and 8-thread traces judged as one history",
         "TLC shows the stateless design satisfies purity and that lossy or buffered variants violate it; real runs in several processes, orders, instances and with 8 threads are judged against one memory of answers. Thread schedules of the real code are sampled, not enumerated."),
 "C17": ("TLA+ (Cli.tla) with TLC: every command line, input and configuration up to a bound run through the real binary; random ones trace-checked",
         "All argument lists up to the bound and random ones, with configurations, inputs and RUST_LOG settings."),
 "C18": ("TLA+ (Py.tla) with TLC: histories of Python objects up to a depth run in the real module; random ones trace-checked against Rust instances",
         "All histories of the bounded constructor space and random ones, each text also normalized by the Rust library."),
 "C19": ("TLA+ (Sets.tla, CjkData.tla, Names.tla) with TLC: exact items of every set and every named constant judged; every Unicode scalar through a table of each one-to-one set",
         "The complete item lists are compared with the independently written specification and every Unicode scalar is converted by each one-to-one set."),
 "C20": ("TLA+ (Config.tla, Docs.tla, Discover.tla, Trace.tla) with TLC: a load fails exactly when the specified set of faults is not empty; the errors of recorded runs are judged against that set",
         "TLC checks on every document and every arrangement of files of the bounded models that the faults are empty exactly when the load succeeds; errors of damaged files, unknown modifiers, bad names and several faulty files, through the library, the command and Python, are judged against them."),
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "python3 tools/check.py build",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s" % p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking",
                 "level_note": n + TRUST} for p, (t, n) in sorted(T.items())],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is reached through the public interface. Known findings: KNOWN_FINDINGS.txt."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
