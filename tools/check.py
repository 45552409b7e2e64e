#!/usr/bin/env python3
"""check.py <property id>: decide one property.  Exit 0: held; 1: violated; 2: no answer."""
import itertools
import json
import os
import random
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen  # noqa: E402
from gen_names import CONSTS  # noqa: E402
from gen import (CLASSES, LOCS, NAMES, RESET, SP, Builder, cps, doc_of, file_bad, file_csv,  # noqa: E402
                 file_yaml, lengths, rstage, rtext, text_for, unique_keys, ymap, yseq, ystr)
from vlib import CORES, SEED, THOROUGH, Check, Enough, ToolError, build, log, tlc  # noqa: E402


def scale(quick, thorough=None):
    return (thorough if thorough is not None else quick * 8) if THOROUGH else quick


def pick(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


def cfg(c, base, **consts):
    """A TLC configuration: the committed one with other constants."""
    lines = open(os.path.join(os.path.dirname(gen.__file__), "../spec", base)).read().splitlines()
    out = []
    for l in lines:
        k = l.split("=")[0].strip()
        out.append("    %s = %s" % (k, consts.pop(k)) if "=" in l and k in consts else l)
    if consts:
        raise ToolError("no such constants: %s" % consts)
    c.n += 1
    path = c.s.path("c%d.cfg" % c.n)
    open(path, "w").write("\n".join(out) + "\n")
    return path


def chunks(xs, n):
    return [xs[k:k + n] for k in range(0, len(xs), n)]


# ---------------------------------------------------------------- stages as machines

A, B, C, X, Y, Z = 97, 98, 99, 120, 121, 122
HI, KA, GA, HA, PA = 0x3042, 0x304B, 0x304C, 0x306F, 0x3071
TEN, MARU, GRIN, CHO = 12443, 12444, 0x1F600, 0x30FC


def lig(*ps):
    return ("lig", [[list(f), list(t)] for f, t in ps])


def conv(*ps):
    return ("conv", [[[f], [t]] for f, t in ps])


# the stages of Scan.tla, as they are given to the implementation
KINDS = {
    "swap": conv((A, B), (B, A), (GRIN, HI), (HI, GRIN)),
    "chain": conv((A, B), (B, C), (C, HI), (SP, A)),
    "odd": ("conv", [[[A], [X]], [[], [Z]], [[B], []], [[A], [Y]], [[C], [B]], [[X], [A]], [[Y, Z], [HI, A]]]),
    "elim": ("elim", [A, HI, SP]),
    "elimx": ("elim", [GRIN]),
    "redx": ("red", CHO), "reda": ("red", A), "redg": ("red", GRIN), "reds": ("red", SP),
    "dse": ("dse",), "trim": ("trim",),
    "marks": lig(((KA, TEN), (GA,)), ((HA, MARU), (PA,))),
    "nest": lig(((A, B), (X,)), ((B,), (Y,)), ((A, B, C), (Z,)), ((X, X), (A,))),
    "wide": lig(((HI,), (A, B)), ((A, B), (B, A)), ((B, B, B, B), (HI,))),
    "gone": lig(((A, B), ()), ((C,), (A,))),
    "grow": lig(((A,), (A, A)), ((B, A), (A, B))),
    "tie": lig(((A, B), (B, C)), ((B, C), (A, B)), ((C, A), (A, B))),
    "neo": ("neo",), "neox": ("neo",), "preset": ("preset",),
}


def ways(st):
    """How an instance of this stage can be made."""
    if st[0] == "conv" and not all(f and t for f, t in st[1]):
        return ["table", "add"]         # such items are for tables only
    return {"conv": ["table", "add", "yaml"], "neo": ["ctor", "add", "yaml"],
            "preset": ["ctor", "add", "table"]}.get(st[0], ["yaml", "rc"])


def make(st, way, rng, i=1):
    """Operations that make an instance of the one stage st, and how many stages it really has."""
    if way in ("yaml", "rc"):
        doc = doc_of([("neo",) if st[0] == "neo" else unique_keys(st)], None, rng)
        if way == "yaml":
            p = "w/k%d.yaml" % i
            return [file_yaml(p, doc, rng), {"op": "cfg", "i": i, "path": p, "ext": "yaml"}], 2
        p = rng.choice(gen.YLOCS)
        return [file_yaml(p, doc, rng), {"op": "load_rc", "i": i}, {"op": "del", "path": p}], 2
    if st[0] == "conv":
        ops = [{"op": "tlit", "t": i, "items": st[1]}]
        if way == "table":
            return ops + [{"op": "from_table", "i": i, "t": i}], 1
        return ops + [{"op": "new", "i": i}, {"op": "add_table", "i": i, "t": i}], 1
    name = {"neo": "neologdn", "preset": "preset"}[st[0]]
    if way == "ctor":
        return [{"op": name, "i": i}], 1
    if way == "table":
        return [{"op": "tlit", "t": i, "items": []}, {"op": "tadd", "t": i, "c": {"c": "set", "name": "all"}},
                {"op": "from_table", "i": i, "t": i}], 1
    return [{"op": "default", "i": i}, {"op": "use_" + name, "i": i}], 1


def scan(c, kinds, extra=0, positions=False, limit=None, workers=CORES):
    """Explore the machines of these kinds and replay every text explored."""
    path = cfg(c, "Scan.cfg", Kinds="{%s}" % ", ".join('"%s"' % k for k in kinds), Extra=extra)
    cases = c.model("Scan.tla", path, workers=workers)
    by = {}
    for e in cases:
        by.setdefault(e["k"], []).append(e)
    if set(by) != set(kinds):
        raise ToolError("the model emitted only %s" % sorted(by))
    replay, trace = [], []
    for k, es in sorted(by.items()):
        es.sort(key=lambda e: e["in"])
        if limit and len(es) > limit:
            es = c.rng.sample(es, limit)
        for n, part in enumerate(chunks(es, 400)):
            w = ways(KINDS[k])
            ops, stages = make(KINDS[k], w[n % len(w)], c.rng)
            prog = [RESET] + ops
            for e in part:
                if not positions:
                    prog.append({"op": "norm", "i": 1, "text": e["in"], "want": {"p": 0, "out": e["out"]}})
                elif KINDS[k][0] in ("conv", "red", "preset"):
                    want = [{"text": e["out"], "ps": e["ps"]}] + [{"text": e["out"], "ps": []}] * (stages - 1)
                    prog.append({"op": "pos", "i": 1, "text": e["in"], "want": {"p": 0, "recs": want}})
                else:
                    prog.append({"op": "pos", "i": 1, "text": e["in"]})
            (replay if any("want" in o for o in prog) else trace).append(prog)
    if replay:
        c.replay(replay, what="scanning")
    if trace:
        c.trace(trace)


def norms(c, stages_of, n, per=12, op="norm", big=True):
    """Random texts on random stages, judged by the trace specification."""
    progs = []
    for _ in range(n):
        st = stages_of(c.rng)
        way = c.rng.choice(ways(st))
        prog = [RESET] + make(st, way, c.rng)[0]
        for _ in range(per):
            prog.append({"op": op, "i": 1, "text": text_for(c.rng, [st], lengths(c.rng, big))})
        progs.append(prog)
    c.trace(progs)
    return progs


def sweeps(c, cases):
    """cases: (stage, way, pre, suf, k).  Every Unicode scalar in these contexts."""
    progs = []
    for st, way, pre, suf, k in cases:
        ops, _ = make(st, way, c.rng)
        progs.append([RESET] + ops + [{"op": "sweep", "i": 1, "pre": cps(pre), "suf": cps(suf), "k": k}])
    c.trace(progs, idle=400)


def psweeps(c, cases):
    """cases: (stage, way, pre, suf).  Every Unicode scalar in these contexts, with the whole report."""
    progs = []
    for st, way, pre, suf in cases:
        ops, _ = make(st, way, c.rng)
        progs.append([RESET] + ops + [{"op": "psweep", "i": 1, "pre": cps(pre), "suf": cps(suf)}])
    c.trace(progs, idle=400)


def edges(c, stages, op="norm", sizes=(255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537)):
    """A few long texts, with what the stage is about at the ends and across the sizes."""
    progs = []
    for st in stages:
        for n in sizes:
            way = "ctor" if st[0] in ("neo", "preset") else "yaml"
            prog = [RESET] + make(st, way, c.rng)[0]
            key = gen.mentioned(st) or [CHO, SP, 126, 65313]
            for body in ([120], [0x3042, 120], [GRIN], [key[0]]):
                k = c.rng.choice(key)
                t = (body * (n // len(body) + 1))[:max(0, n - 2)]
                prog.append({"op": op, "i": 1, "text": [k] + t + [k]})
            # something special just before, at and after the size
            t = [120] * (n + 3)
            for d in (-2, -1, 0, 1):
                t[n + d] = c.rng.choice(key)
            prog.append({"op": op, "i": 1, "text": t})
            progs.append(prog)
    c.trace(progs, n=CORES)


def mega(c, stages, op="norm"):
    """Texts around a mebibyte, in one-byte and in three-byte characters, with what the stage
    is about at the ends and across the size."""
    progs = []
    for st in stages:
        key = gen.mentioned(st) or [CHO, SP, 126, 65313]
        for u, n in ((120, 2 ** 20), (0x3042, 2 ** 20 // 3)):
            way = "ctor" if st[0] in ("neo", "preset") else "yaml"
            t = [u] * (n + 4)
            for d in (0, n - 2, n - 1, n, n + 1, n + 3):
                t[d] = c.rng.choice(key)
            progs.append([RESET] + make(st, way, c.rng)[0] + [{"op": op, "i": 1, "text": t}])
    c.trace(progs, n=CORES)


COUNTS = [*range(1, 70), *range(96, 101), *range(120, 136), *range(250, 262), 300, 384, *range(508, 516), 768, 999, 1000, 1001,
          1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
VAST = [8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072]


def repeats(c, cases, op="norm"):
    """Every number of repetitions of what a stage is about, between all kinds of neighbours.
    A case: a stage, what is repeated, what stands before it and after it."""
    progs = []
    for st, units, sides in cases:
        for u in units:
            way = "ctor" if st[0] in ("neo", "preset") else "yaml"
            prog = [RESET] + make(st, way, c.rng)[0]
            for n in [k for k in COUNTS + ([c.rng.choice(VAST)] if u == units[0] or THOROUGH else []) if k * len(u) < 140000]:
                for pre, suf in c.rng.sample(sides, min(len(sides), 2 if n < 300 else 1)):
                    if op == "both":
                        prog.append({"op": "debug", "on": c.rng.random() < 0.5})
                        prog.append({"op": "normp", "i": 1, "text": pre + u * n + suf})
                    prog.append({"op": "norm" if op == "both" else op, "i": 1, "text": pre + u * n + suf})
            progs.append(prog)
        # among so many different characters
        prog = [RESET] + make(st, way, c.rng)[0]
        for n in (15, 60, 100, 120, 200, 250, 300, 500, 900, 1100, 2000, 5000, 20000) + ((70000,) if c.rng.random() < 0.3 or THOROUGH else ()):
            at = c.rng.choice([0x3400, 0x4E00, 0xA000, 0x10000, 0x20000]) if n < 5000 else 0x10000
            pre, suf = c.rng.choice(sides)
            prog.append({"op": "normp" if op == "both" else op, "i": 1,
                         "text": pre + list(range(at, at + n)) + c.rng.choice(units) * 3 + suf + c.rng.choice(units)})
        progs.append(prog)
    c.trace(progs)


def large(c, kinds, op="norm"):
    """Stages with n things to look for, for many n; every one of them is met."""
    progs = []
    for kind in kinds:
        for part in chunks(WIDTHS, 6):
            prog = [dict(RESET)]
            for n in part:
                cs = list(range(0x4E00, 0x4E00 + n))
                c.rng.shuffle(cs)
                if kind == "elim":
                    st = ("elim", cs)
                elif kind == "conv":
                    st = ("conv", [[[x], [x + 1]] for x in cs])
                else:
                    # some sequences contain others, and some are the target of others
                    st = ("lig", [[[x] if k % 3 == 0 else [x, A] if k % 3 == 1 else [x, cs[k - 1]],
                                   c.rng.choice([[], [A], [c.rng.choice(cs)], [x, x]])] for k, x in enumerate(cs)])
                prog += make(st, "yaml" if kind != "conv" or c.rng.random() < 0.5 else c.rng.choice(["table", "add"]), c.rng)[0]
                keys = cs if kind != "lig" else [f for f, _ in st[1]]
                met = [x for k in keys for x in ((k if kind == "lig" else [k]) + c.rng.choice([[], [], [B], [SP, A]]))]
                c.rng.shuffle(keys)
                more = [x for k in keys[:40] for x in (k if kind == "lig" else [k])]
                for t in (met, more):
                    prog.append({"op": op, "i": 1, "text": t})
            progs.append(prog)
    c.trace(progs, n=CORES)


WIDTHS = [*range(14, 36), 48, 49, 50, 51, 60, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1024, 1025]


# ---------------------------------------------------------------- files

def bad_bytes(rng, fmt):
    if fmt == "csv":
        # a record that is not UTF-8
        bad = rng.choice([b"\xff", b"\xe3\x81", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"a\x80"])
        rows = [b"from,to", b"a,b"]
        rows.insert(rng.randrange(1, 3), rng.choice([bad + b",x", b"x," + bad, b"q," + bad + b",z"]))
        return b"\n".join(rows) + b"\n"
    return rng.choice([
        b"items: [a", b"items: {a: b", b'items: "a', b"modifiers: 'x", b"items: *none\n", b"a: b: c\n",
        b"items:\n  a: b\n c: d\n", b"items:\n- a\nb\n", b"\xff\xfe\xff", b"items: \xe3\x81\n", b"items:\n  b: \xc3\x28\n",
        b"items: ]\n", b"}: a\n", b"%YAML\n---\na: b\n", b"items: {a: b}}\n",
        b"modifiers: {trim: ~\nitems: {a: b}\n", b"items: @a\n", b"items: `a`\n", b"items: !<tag a\n", b'items: "\\q"\n'])


def fill(c, prog):
    """Render the files of a program that a model has written."""
    out = [dict(RESET)]
    for o in prog:
        o = dict(o)
        if o["op"] == "reset":
            continue
        if o["op"] == "file" and "b" not in o:
            x = o["x"]
            if x["t"] == "dir":
                o["b"] = ""
            elif x["f"] == "csv":
                o["b"] = gen.render_csv(x["rows"], c.rng).hex()
            elif x["f"] == "yaml":
                o["b"] = gen.render_yaml(x["doc"], c.rng).hex()
            else:
                # broken in the way its name calls for
                fmt = "csv" if o["path"].endswith("csv") else "yaml"
                o["b"] = bad_bytes(c.rng, fmt).hex()
            if x["t"] == "file" and c.rng.random() < 0.1:
                o["link"] = True
        if o["op"] == "cli" and "tokens" in o:
            o["args"] = [t["x"] if "x" in t else cps(t["s"]) for t in o.pop("tokens")]
        out.append(o)
    return out


# ---------------------------------------------------------------- the properties

ALL = ("conv", "elim", "red", "dse", "lig", "trim", "neo", "preset")


def stages_list(rng, n=None):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 8]) if n is None else n
    out = []
    for _ in range(n):
        # now and then the same stage again, or one of the same shape
        r = rng.random()
        out.append(rng.choice(out) if out and r < 0.2 else twin(rng, rng.choice(out)) if out and r < 0.3
                   else unique_keys(rstage(rng, ALL)))
    return out


def twin(rng, st):
    """A stage with as many entries of the same kind that means something else."""
    k = st[0]
    if k in ("conv", "lig") and st[1]:
        fs, ts = [f for f, _ in st[1]], [t for _, t in st[1]]
        if rng.random() < 0.5:
            ts = ts[1:] + ts[:1]
        if rng.random() < 0.5:
            n = rng.randrange(len(ts))
            ts[n] = [rng.choice([x for x in (A, B, HI, SP, 0x4E9C) if [x] != ts[n]])]
        if rng.random() < 0.2:
            n = rng.randrange(len(fs))
            f = [rng.choice([Y, Z, KA, 0x4E9D])] * max(1, len(fs[n]))
            if f not in fs:
                fs[n] = f
        return (k, [[f, t] for f, t in zip(fs, ts)])
    if k == "elim" and st[1]:
        cs = list(st[1])
        n = rng.randrange(len(cs))
        x = rng.choice([A, B, C, HI, SP, GRIN])
        cs[n] = cs[n] if x in cs else x
        return (k, cs)
    if k == "red":
        return (k, rng.choice([x for x in (A, B, CHO, SP, HI) if x != st[1]]))
    if k == "preset":
        return ("neo",)
    return ("trim",) if k == "dse" else ("dse",) if k == "trim" else ("preset",) if k == "neo" else st


def many(c, op, counts=(33, 70, 140)):
    """An instance of very many stages."""
    progs = []
    for n in counts:
        b = Builder(c.rng)
        i, real = b.instance(stages_list(c.rng, n))
        singles = b.singles(real)
        for _ in range(4):
            b.ops.append({"op": op, "i": i, "singles": singles, "text": text_for(c.rng, real, lengths(c.rng, False))})
        progs.append(b.ops)
    c.trace(progs)


def ladder(c, op, counts=(*range(2, 36), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 500, 513)):
    """Instances of n stages each of which takes a character one step further; so many instances
    at once; the same table many times."""
    progs = []
    step = lambda k: {"op": "tlit", "t": 1, "items": [[[0x4E00 + k], [0x4E01 + k]]]}  # noqa: E731
    for part in chunks(counts, 8):
        prog = [dict(RESET)]
        for n in part:
            prog.append({"op": "new", "i": n})
            ks = list(range(n)) if c.rng.random() < 0.7 else [k % max(2, n // 3) for k in range(n)]
            pre = c.rng.randrange(n) if c.rng.random() < 0.3 else -1
            for j, k in enumerate(ks):
                prog += [step(k), {"op": "add_table", "i": n, "t": 1}]
                if j == pre:
                    prog.append({"op": c.rng.choice(["use_preset", "use_neologdn"]), "i": n})
        for n in part:
            prog.append({"op": op, "i": n, "text": [0x4E00, A, 0x4E00 + n // 2, SP, 0x4E00 + n, 0xFF21, 0x4E00 + n - 1]})
        progs.append(prog)
    for n in (40, 300, 1100):
        prog = [dict(RESET)]
        for k in range(1, n):
            prog += [step(k), {"op": "from_table", "i": k, "t": 1}]
        for k in c.rng.sample(range(1, n), min(n - 1, 120)):
            prog.append({"op": op, "i": k, "text": [0x4E00 + k, 0x4E01 + k, 0x4DFF + k]})
        k = c.rng.randrange(1, n)
        prog += [step(k + 1), {"op": "add_table", "i": k, "t": 1}]
        for j in {1, n - 1, k, max(1, k - 1), min(n - 1, k + 1)}:
            prog.append({"op": op, "i": j, "text": [0x4E00 + k, 0x4E01 + k, 0x4E00 + j]})
        progs.append(prog)
    c.trace(progs)


def composed(c, op, n, per=4):
    """Instances of several random stages, compared with the stages one at a time; several
    instances live side by side and are asked in turns, also after further stages were added."""
    progs = []
    for _ in range(n):
        b = Builder(c.rng)
        live = []
        for _ in range(c.rng.choice([1, 1, 2, 3])):
            sts = stages_list(c.rng)
            if live and c.rng.random() < 0.5:
                sts = [twin(c.rng, st) for st in live[0][1]]
            i, real = b.instance(sts)
            live.append([i, real, b.singles(real)])
        for _ in range(c.rng.choice([1, 2])):
            t = []
            for i, real, singles in live:
                for _ in range(per):
                    # often the text that an instance has just seen
                    t = t if t and c.rng.random() < 0.25 else text_for(c.rng, real, lengths(c.rng))
                    b.ops.append({"op": op, "i": i, "singles": list(singles), "text": t})
            e = c.rng.choice(live)
            st = c.rng.choice([("preset",), ("neo",), unique_keys(rstage(c.rng, ("conv",)))])
            if e[1] and e[1][-1][0] in ("preset", "neo", "conv") and c.rng.random() < 0.35:
                st = e[1][-1]
            if st[0] == "conv":
                b.ops.append({"op": "add_table", "i": e[0], "t": b.table(st[1])})
            else:
                b.ops.append({"op": "use_preset" if st[0] == "preset" else "use_neologdn", "i": e[0]})
            e[1] = e[1] + [st]
            e[2] = e[2] + [b.single(st)]
            for i, real, singles in live:
                b.ops.append({"op": op, "i": i, "singles": list(singles),
                              "text": text_for(c.rng, real, lengths(c.rng))})
        progs.append(b.ops)
    c.trace(progs)


def rname_text(rng, n):
    return text_for(rng, [], n)


def hist(c, report, depth):
    # the operations before the first answers include a file: render it
    progs = c.model("Hist.tla", cfg(c, "Hist.cfg", Depth=depth, Report='"%s"' % report))
    c.replay([fill(c, p) for p in progs], what="history")


def c01(c):
    hist(c, "norm", scale(4, 5))
    ladder(c, "norm")
    composed(c, "chain", scale(260, 3000))
    composed(c, "routes", scale(80, 800))           # a stage that changes nothing shows in the report only
    many(c, "chain")


def c02(c):
    hist(c, "recs", scale(4, 5))
    ladder(c, "normp")
    composed(c, "routes", scale(260, 3000))
    many(c, "routes")
    repeats(c, [(KINDS["swap"], [[A], [GRIN, B]], [([], []), ([HI], [A])]), (("neo",), [[CHO, A], [KA, TEN]], [([], []), ([SP], [SP])])], "both")


def rtable(rng):
    """Items of one character each (and some that map nothing), of every size and density."""
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 64, 200])
    pool = [c for k in rng.sample(NAMES, rng.choice([1, 2, 3])) for c in CLASSES[k]]
    if rng.random() < 0.25:
        pool = gen.kindred(rng, max(2, n))
    elif rng.random() < 0.2:
        pool = [c for u in rng.sample(gen.UNITS, rng.choice([1, 2, 8])) for c in u]
    if rng.random() < 0.5:
        pool = pool[:max(2, len(pool) // 8)]        # many conflicts and chains
    return ("conv", [[rng.choice([[rng.choice(pool)]] * 12 + [[]]), rng.choice([[rng.choice(pool)]] * 12 + [[]])]
                     for _ in range(n)])


def c03(c):
    scan(c, ["swap", "chain", "odd"], extra=scale(0, 2))
    norms(c, rtable, scale(300, 4000))
    mega(c, [KINDS["swap"]])
    edges(c, [KINDS["swap"], KINDS["chain"], ("conv", [[[65], [97]]])],
          sizes=(256, 4096, 65536) if not THOROUGH else (255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537))
    repeats(c, [(KINDS["swap"], [[A], [A, B], [GRIN, A, X]], [([], []), ([B], [A]), ([HI], [GRIN])]), (KINDS["chain"], [[A, B, C, SP]], [([], [A])])])
    large(c, ["conv"])
    sw = [(KINDS["swap"], "table", "", "", 1), (KINDS["chain"], "yaml", "ab", "ba", 2),
          (("conv", [[[c0], [c0 + 1]] for c0 in range(0x1F600, 0x1F640)]), "add", "a", "\U0001F5FF", 1),
          (("conv", [[[0xE000], [0xD7FF]], [[0xFFFF], [0]], [[0x80], [0x7FF]]]), "table", "é", "漢", 1),
          (KINDS["swap"], "yaml", "a", "b", 1), (KINDS["swap"], "add", "\U0001F600", "あ", 1)]
    sweeps(c, sw)


def c04(c):
    scan(c, ["preset"], extra=scale(0, 1))
    P = ("preset",)
    sweeps(c, [(P, "ctor", "", "", 1), (P, "add", "a", "b", 2), (P, "table", "カ", "゛", 1), (P, "ctor", "Ａ ", "　１", 1),
               (P, "ctor", "Ａ", "ｱ", 1), (P, "add", "＃", "　", 1), (P, "table", "｡", "９", 1),
               (P, "ctor", " ", " ", 3), (P, "add", "ｶ", "ﾞ", 1), (P, "ctor", "\U0001F600", "\n", 1)]
           + ([(P, "ctor", x, y, 1) for x in ("", "a", "Ａ", "ｶ", "　", "！", "カ") for y in ("", "b", "ｂ", "ﾞ", "ﾟ", "　", "？", "ｰ")] if THOROUGH else []))
    norms(c, lambda r: P, scale(60, 600), per=20)
    repeats(c, [(P, [[0xFF21], [0xFF76, 0xFF9E], [0x3000]], [([], []), ([A], [B]), ([HI], [GRIN]), ([0xFF01], [0xFF70])])])
    # every pair of characters it is about
    m = [x for k in ("fwalnum", "fwpunct", "halfkana", "kanapunct", "space", "tildes") for x in CLASSES[k]]
    pairs(c, P, m, m, scale(6000, 0))
    mega(c, [P])
    edges(c, [P], sizes=(256, 4096, 65536))


def pairs(c, st, xs, ys, limit):
    """Texts of two, with another character on either side, packed into programs."""
    ps = [(x, y) for x in xs for y in ys]
    if limit and len(ps) > limit:
        ps = c.rng.sample(ps, limit)
    sides = [[], [], [97], [SP], [48], [0x3042]]
    progs = []
    for n, part in enumerate(chunks(ps, 500)):
        way = ways(st)[n % 3]
        prog = [RESET] + make(st, way, c.rng)[0]
        for x, y in part:
            prog.append({"op": "norm", "i": 1, "text": c.rng.choice(sides) + [x, y] + c.rng.choice(sides)})
        progs.append(prog)
    c.trace(progs)


KANAS = [ord(k) for k in "かきくけこさしすせそたちつてとはひふへほうカキクケコサシスセソタチツテトハヒフヘホウあアんンワヲ"] \
    + list(range(65382, 65440))


def c05(c):
    scan(c, ["neo"], extra=0, limit=scale(30000, None))
    scan(c, ["neox"], extra=scale(0, 1), limit=scale(30000, None))
    N = ("neo",)
    sw = [(N, "ctor", "", "", 1), (N, "ctor", "Ａ", "ｂ", 1), (N, "add", "か", "゛", 1), (N, "yaml", "a ", " 1", 2),
          (N, "ctor", "ー", "ー", 1), (N, "add", " ", " ", 1), (N, "ctor", "ハ", "゜", 2), (N, "ctor", "a ~", "~ b", 1),
          (N, "yaml", "a", " b", 1), (N, "ctor", "1 ", "x", 1), (N, "add", "ｶ", "ﾞ", 1)]
    if THOROUGH:
        sw += [(N, "yaml", "1", "", 3), (N, "ctor", "", "z", 2), (N, "ctor", "゛", "か", 1), (N, "ctor", "é", "漢", 2)]
        sw += [(N, "ctor", x, y, 1) for x in ("", "a", "a ", "か", "ｶ", "ー", "〜", "‐", "é ") for y in ("", "b", " b", "゛", "ﾟ", "ー", "~ b", "-", " é")]
    sweeps(c, sw)
    marks = [TEN, MARU, CHO, SP, 126, 12316, 0x3099, 65438, 65439, 97]
    pairs(c, N, KANAS, marks, 0)
    m = [SP, 9, 12288, CHO, *gen.CHOONS, *gen.HYPHENS, *gen.TILDES, TEN, MARU, 97, 57, 90, 65313, 65297, 61, 65309, KA, 0x30CF, 65398,
         65412, 0xE9, GRIN, *CLASSES["fwpunct"]]
    pairs(c, N, m, m, scale(6000, 0))
    norms(c, lambda r: N, scale(120, 1500), per=20)
    mega(c, [N])
    edges(c, [N], sizes=(256, 4096, 65536))
    ends = [([], []), ([A], [B]), ([HI], [A]), ([KA], [TEN]), ([A], [0x30AB]), ([SP], [SP]), ([CHO], [CHO]), ([0xFF76], [0xFF9E])]
    repeats(c, [(N, [[CHO], [SP], [126, CHO], [KA, TEN], [A, SP], [0xFF8A, 0xFF9F], [TEN], [0x2010, 0x2500]], ends)])


def c06(c):
    D = ("dse",)
    scan(c, ["dse"], extra=scale(0, 1))
    sweeps(c, [(D, "yaml", "a ", " b", 1), (D, "yaml", " ", "  1", 2), (D, "rc", "Z  ", "", 1), (D, "yaml", "é ", " 9", 1),
               (D, "yaml", "a", " b", 1), (D, "yaml", "a ", "b", 1), (D, "rc", " a", "a ", 1)]
           + [(D, "yaml", x, y, 1) for x in ("a", "a  ", " ", "1 ") for y in ("  b", " ", "2")]
           + ([(D, "yaml", x, y, 1) for x in ("", "a", "a ", " ", "é ", "0  ", "\t ") for y in ("", "0", " 0", " ", " あ", "  z", " \n")] if THOROUGH else []))
    words = [x for k in ("lower", "upper", "digit") for x in CLASSES[k]]
    other = [*CLASSES["punct"], *CLASSES["fwalnum"][:20], 0xE9, 0x3042, 9, 10, 0x3000, 0xA0, GRIN, 0x660, 0x0, 127, 128, 47, 58, 64, 91, 96, 123]
    progs = []
    for k in (1, 2, 3):
        ps = [(x, y) for x in words + other for y in words + other]
        for part in chunks(pick(c.rng, ps, scale(2500, 20000)), 500):
            prog = [RESET] + make(D, "yaml", c.rng)[0]
            for x, y in part:
                prog.append({"op": "norm", "i": 1, "text": [x] + [SP] * k + [y]})
            progs.append(prog)
    c.trace(progs)
    norms(c, lambda r: D, scale(120, 1500), per=20)
    mega(c, [D])
    edges(c, [D], sizes=(256, 4096, 65536))
    repeats(c, [(D, [[SP], [A, SP], [SP, SP, 48], [HI, SP]],
                 [([], []), ([A], [B]), ([48], [90]), ([A], [HI]), ([HI], [A]), ([A, SP], [9]), ([], [A]), ([A], [])])])


def rred(rng):
    return ("red", rng.choice([gen.rchar(rng), SP, CHO, A, 0xE9, GRIN]))


def c07(c):
    scan(c, ["redx", "reda", "redg", "reds"], extra=scale(0, 1))
    sweeps(c, [(("red", CHO), "yaml", "ーー", "ーー", 2), (("red", A), "yaml", "", "", 3), (("red", GRIN), "rc", "\U0001F600\U0001F600", "b", 2),
               (("red", 0xE9), "yaml", "é", "éé", 2)])
    if THOROUGH:
        sweeps(c, [(("red", ord(r)), "yaml", x, y, k) for r in "ーaé\U0001F600\0" for x in ("", r, r + r + "b") for y in ("", r, "b" + r + r) for k in (1, 2)])
    norms(c, rred, scale(300, 4000))
    ends = [([], []), ([A], [B]), ([CHO], [CHO]), ([HI], [GRIN]), ([], [GRIN]), ([A, A], [B, A])]
    repeats(c, [(("red", CHO), [[CHO], [CHO, A], [CHO, CHO, 0x2015], [A]], ends), (("red", A), [[A], [A, A, 65], [B]], ends), (("red", GRIN), [[GRIN]], ends)])
    # every kind of character as the one it is about
    cs = [*range(0x180), 0x2FF, 0x300, 0x7FF, 0x800, 0x3000, 0x30FC, 0xD7FF, 0xE000, 0xFEFF, 0xFF70, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0xE0001,
          0xFFFFF, 0x100000, 0x10FFFF, *range(0x2000, 0x2070)]
    cs += [gen.akin(c.rng, c.rng.choice(cs)) for _ in range(scale(150, 3000))]
    progs = []
    for part in chunks(cs, 40):
        prog = [dict(RESET)]
        for n, x in enumerate(part):
            prog += make(("red", x), "yaml", c.rng, n)[0]
        for n, x in enumerate(part):
            for t in [x], [x, x, 98, x, x, x, 98], [98, x, x], [gen.akin(c.rng, x), x, x, gen.akin(c.rng, x)] * 2:
                prog.append({"op": "norm", "i": n, "text": t})
        progs.append(prog)
    c.trace(progs)
    mega(c, [("red", CHO)])
    edges(c, [("red", CHO), ("red", A), ("red", GRIN)], sizes=(256, 65536) if not THOROUGH else (255, 256, 257, 4096, 65535, 65536, 65537))


def relim(rng):
    n = rng.choice([0, 1, 1, 2, 3, 6, 20, 60])
    if n and rng.random() < 0.25:
        return ("elim", gen.kindred(rng, n))
    if n and rng.random() < 0.15:
        # characters that mean something in a pattern
        return ("elim", cps(rng.choice(["[a]", "]", "^a", "a-z", ".", "\\w", "$", "(", "a|b", "*", "[:", "\\", "-", "^]", "{1}", "?!", "\r\n", "e\u0301", "か\u3099"])))
    return ("elim", [gen.rchar(rng) for _ in range(n)])


def c08(c):
    scan(c, ["elim", "elimx", "trim"], extra=scale(0, 1))
    T = ("trim",)
    sweeps(c, [(T, "yaml", "", "", 1), (T, "yaml", " ", " ", 2), (T, "rc", "a ", " b", 1), (("elim", [A, HI, GRIN, SP]), "yaml", "a b", "c あ", 2),
               (("elim", [0]), "yaml", "", "", 1), (("elim", [0xE000, 0xD7FF]), "yaml", " ", " ", 1)])
    norms(c, lambda r: relim(r) if r.random() < 0.6 else T, scale(300, 4000))

    if THOROUGH:
        sweeps(c, [(T, "yaml", x, y, 1) for x in ("", "a", " ", "  a", "a ", "　") for y in ("", "b", " ", " b", "b  ", "\t")])

    # what comes after the first character of an entry means nothing
    prog = [dict(RESET)]
    for c0 in (A, 48, HI, GRIN, 65, 0x30A1):
        for tail in ([45, c0 + 4], [46, 46, c0 + 4], [c0 + 1, c0 + 2], [44, c0 + 1], [124, c0 + 1], [SP, c0 + 1], [10, c0 + 1]):
            doc = ymap([[ystr("modifiers"), ymap([[ystr("character_eliminator"), yseq([ystr([c0, *tail]), ystr([Z])])]])]])
            prog += [file_yaml("w/c.yaml", doc, c.rng), {"op": "cfg", "i": 1, "path": "w/c.yaml", "ext": "yaml"},
                     {"op": "norm", "i": 1, "text": [*range(c0, c0 + 6), Z, *tail, c0, SP]}]
    c.trace([prog])
    # trimming: other white space at the ends
    progs = []
    for _ in range(scale(40, 400)):
        prog = [RESET] + make(T, "yaml", c.rng)[0]
        for _ in range(20):
            end = lambda: [c.rng.choice([SP, SP, SP, *CLASSES["spaces"]]) for _ in range(c.rng.randrange(0, 6))]  # noqa: E731
            prog.append({"op": "norm", "i": 1, "text": end() + rtext(c.rng, c.rng.randrange(0, 8)) + end()})
        progs.append(prog)
    c.trace(progs)
    mega(c, [T, ("elim", [A, HI])])
    edges(c, [T, ("elim", [A, HI])], sizes=(256, 65536))
    ends = [([], []), ([SP], [SP]), ([A], [B]), ([HI], []), ([], [GRIN]), ([SP, 9], [10, SP])]
    repeats(c, [(T, [[SP], [A], [A, SP]], ends), (T, [[SP]], [(e[0], [SP] * k + e[1]) for e in ends for k in (0, 1, 300)]),
                (("elim", [A, HI]), [[A], [A, X], [HI, A, B]], ends)])
    large(c, ["elim"])
    # spaces by the thousand at either end, at both, and none
    prog = [RESET] + make(T, "yaml", c.rng)[0]
    for n in [k for k in COUNTS if k >= 300] + [c.rng.choice(VAST)]:
        for pre, suf in ([A], []), ([], [A]), ([], []), ([HI], [X]):
            prog.append({"op": "norm", "i": 1, "text": [SP] * n * (pre == []) + pre + [SP] * c.rng.choice([0, 3, n]) + suf + [SP] * n * (suf == [])})
    c.trace([prog])


def rlig(rng):
    """Sources over few characters, so that they overlap, contain and produce one another."""
    al = rng.choice([[A, B], [A, B, C], [A, HI], [KA, TEN, GA], [GRIN, A], [A, SP, CHO], [0xE9, HI, A, B], gen.kindred(rng, 4),
                     cps("$0{}"), cps("\\n1"), cps("[a-]"), cps(".*^"), [13, 10, A], [A, 65], [101, 0x301, 0xE9], [KA, 0x3099, GA], [GRIN, 0x200D, 0xFE0F]])
    m = {}
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6, 12])):
        f = tuple(rng.choice(al) for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4])))
        m[f] = [rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    return ("lig", [[list(f), t] for f, t in m.items()])


def c09(c):
    scan(c, ["marks", "nest", "wide", "gone", "grow", "tie"], extra=scale(0, 1))
    progs = []
    for _ in range(scale(400, 5000)):
        st = rlig(c.rng) if c.rng.random() < 0.8 else unique_keys(rstage(c.rng, ("lig",)))
        prog = [RESET]
        # the same mapping several times: every instance walks its own hash map
        for i in (1, 2, 3):
            prog += make((st[0], gen.shuffled(c.rng, st[1])), "yaml", c.rng, i)[0]
        for _ in range(6):
            t = text_for(c.rng, [st], lengths(c.rng, False) % 40)
            for i in (1, 2, 3):
                prog.append({"op": "norm", "i": i, "text": t})
        progs.append(prog)
    # sources and targets that mean something elsewhere
    us = gen.UNITS + [cps(x) for x in ("$&", "$1", "\\0", "\\1", "&", "{}", "{0}", "%1", "\\u0041", "$$", "(a)", "a*", "\\", "b?", "[ab]", "a|b", "x+", ".")] + NASTY[:-4]
    us = c.rng.sample(us, len(us))
    for part in chunks(us, 6):
        m = {(0x5000 + k, 0x5100): list(u) for k, u in enumerate(part)}
        m.update({tuple(u): [0x5200 + k] for k, u in enumerate(part)})
        st = ("lig", [[list(f), t] for f, t in m.items()])
        prog = [RESET] + make(st, "yaml", c.rng)[0]
        prog += [{"op": "norm", "i": 1, "text": t} for k, u in enumerate(part) for t in (list(u), [0x5000 + k, 0x5100], [A, *u, *u, B], [A, 0x5000 + k, 0x5100, 0x5000 + k, 0x5100, B], list(u)[1:], list(u)[:-1])]
        progs.append(prog)
    # long sources that contain one another: lengths in bytes around every power of two
    for width, ch in ((1, A), (3, KA), (4, GRIN), (2, 0xE9)):
        for n in (16, 64, 128, 256, 512, 1024, 2048):
            lens = sorted({max(1, (n + d) // width) for d in (-width, 0, width)})
            if lens[-1] > (900 if width == 1 else 95):
                continue
            short = sorted({c.rng.randrange(1, max(2, lens[0])), max(1, lens[0] - 1), 5})
            keys = [[c.rng.choice([ch, ch, ch, B]) if k == 0 else ch for k in range(x)] for x in dict.fromkeys([*short, *lens])]
            m = {tuple(k): [0x4E00 + i] for i, k in enumerate(keys)}
            st = ("lig", [[list(k), t] for k, t in m.items()])
            prog = [dict(RESET)] + make(("lig", gen.shuffled(c.rng, st[1])), "yaml", c.rng, 1)[0]
            texts = [list(k) for k in m] + [list(a) + x + list(b) for a, b in (c.rng.sample(list(m), 2) for _ in range(4) if len(m) > 1) for x in ([], [SP])]
            progs.append(prog + [{"op": "norm", "i": 1, "text": t} for t in texts])
    c.trace(progs)
    sweeps(c, [(lig(((A, B), (X,)), ((KA, TEN), (GA,))), "yaml", "a", "b", 1), (lig(((GRIN,), (A, B)), ((A, B), ())), "yaml", "a", "", 2)])
    edges(c, [KINDS["nest"], KINDS["marks"]], sizes=(256, 4096))
    ends = [([], []), ([A], [B]), ([KA], [TEN]), ([B], [A]), ([], [C])]
    repeats(c, [(KINDS["nest"], [[A, B], [B], [X]], ends), (KINDS["marks"], [[KA, TEN]], ends), (KINDS["grow"], [[A]], ends),
                (KINDS["tie"], [[A, B, C]], ends), (KINDS["gone"], [[A, B]], ends)])
    large(c, ["lig"])


def c10(c):
    scan(c, ["swap", "chain", "odd", "redx", "reda", "redg", "reds", "trim"] + (["preset"] if THOROUGH else []),
         extra=scale(0, 1), positions=True, limit=scale(9000, 40000))

    def some(rng):
        return rng.choice([rtable, rred, lambda r: ("trim",), lambda r: ("preset",),
                           lambda r: unique_keys(rstage(r))])(rng)
    norms(c, some, scale(300, 4000), op="pos", per=10)
    progs = []
    for _ in range(scale(100, 1500)):
        b = Builder(c.rng)
        i, real = b.instance(stages_list(c.rng, c.rng.choice([2, 3, 4])))
        for _ in range(6):
            b.ops.append({"op": "pos", "i": i, "text": text_for(c.rng, real, lengths(c.rng))})
        progs.append(b.ops)
    c.trace(progs)
    P = ("preset",)
    psweeps(c, [(P, "ctor", "", ""), (P, "ctor", "Ａé", "\U0001F600Ｂ　"), (KINDS["swap"], "table", "あ", "ab\U0001F600"),
                (("red", CHO), "yaml", "ーーあ", "ーー"), (("red", GRIN), "yaml", "\U0001F600", "\U0001F600"), (("trim",), "yaml", " ", "あ "),
                (("neo",), "ctor", "Ａー", "か゛"), (lig(((A, B), (X,))), "yaml", "a", "b")])
    ends = [([], []), ([A], [B]), ([CHO], [CHO]), ([HI], [GRIN]), ([SP, HI], [A, SP])]
    repeats(c, [(("red", CHO), [[CHO], [CHO, CHO, A]], ends), (("red", GRIN), [[GRIN], [GRIN, GRIN, B]], ends), (KINDS["swap"], [[A], [GRIN, X]], ends),
                (("trim",), [[SP], [HI]], ends), (("preset",), [[0xFF21, A]], ends)], op="pos")
    mega(c, [("red", CHO)], op="pos")
    edges(c, [("red", CHO), KINDS["swap"], ("trim",)], op="pos", sizes=(256, 4096, 65536) if not THOROUGH else (255, 256, 257, 4096, 65536))


# ---------------------------------------------------------------- tables

SETS = ["digits", "alphabets", "punctuations", "kanas", "cjk", "all"]


def ritems(rng, n=None, empty=True):
    """Items with many agreements in source or target."""
    n = rng.choice([0, 1, 2, 3, 4, 6, 10, 30]) if n is None else n
    al = rng.choice([[A, B], [A, B, C, HI], [GRIN, 0xFFFD, 0xE9, A], [65313, 65314, 65, 66], [A, 65, B, 66], [48, 49, 50, 57], [SP, A, 9], [65, 97, 0x4B, 0x6B, 0x212A],
                     gen.kindred(rng, 4), [0xE9, 101, 0x301], [0x304C, 0x304B, 0x3099], [0, 1, A], [13, 10, A], [0xFF, 0x100, 0xFFFF, 0x10000, 0x10FFFF, 0xE000, 0xD7FF]])
    word = lambda: [rng.choice(al) for _ in range(rng.choice(([0] if empty else []) + [1, 1, 1, 1, 2, 3]))]  # noqa: E731
    return [[word(), word()] for _ in range(n)]


def named(rng):
    """one of the named one-character correspondences of the predefined sets"""
    s, n = rng.choice(CONSTS if rng.random() < 0.5 else [x for x in CONSTS if x[0] != "cjk"])
    return {"c": "const", "set": s, "name": n}


def rcorr(rng, tabs):
    r = rng.random()
    if r < 0.15 and tabs:
        return {"c": "tab", "t": rng.choice(tabs)}
    if r < 0.35:
        if rng.random() < 0.4:
            return named(rng)
        return {"c": "set", "name": rng.choice(SETS), **rng.choice([{}, {"as": "const"}])}
    if r < 0.45:
        f, t = rng.choice([(A, Z), (65313, 65338), (65296, 65305)]) if rng.random() < 0.7 else (A, A)
        if rng.random() < 0.5:
            return {"c": "lit", "as": "linear", "items": [[[f], [t]]]}
        t = [rng.choice([A, B, HI])]
        fs = list(dict.fromkeys(tuple(i[0]) for i in ritems(rng, rng.choice([1, 2, 5]), False)))
        return {"c": "lit", "as": "unification", "items": [[list(x), t] for x in fs]}
    return {"c": "lit", "as": rng.choice(["corr", "trait", "new"]), "items": ritems(rng)}


def c11(c):
    pairs_ = [o for p in c.model("Algebra.tla", cfg(c, "Algebra.cfg", MaxA=scale(3, 4))) for o in p]
    c.replay([[RESET] + p for p in chunks(pairs_, 500)], what="algebra")
    c.replay(c.model("Tables.tla", cfg(c, "Tables.cfg", Depth=scale(3, 4))), what="table history")
    progs = []
    for _ in range(scale(250, 3000)):
        prog, tabs, n = [dict(RESET)], [], 0
        files = 0
        for _ in range(c.rng.randrange(3, 14)):
            r = c.rng.random()
            if r < 0.2 or not tabs:
                n += 1
                tabs.append(n)
                prog.append({"op": "tlit", "t": n, "items": ritems(c.rng), "as": c.rng.choice(["table", "builder", "new"])})
            elif r < 0.55:
                prog.append({"op": "tadd", "t": c.rng.choice(tabs), "c": rcorr(c.rng, tabs), "via": c.rng.choice(["table", "builder", "builder2"])})
            elif r < 0.75:
                prog.append({"op": "trem", "t": c.rng.choice(tabs), "c": rcorr(c.rng, tabs), "via": c.rng.choice(["table", "builder", "builder2"])})
            elif r < 0.8:
                n += 1
                prog.append({"op": "tcopy", "t": c.rng.choice(tabs), "u": n})
                tabs.append(n)
            elif r < 0.85:
                t, steps = c.rng.choice(tabs), []
                others = [x for x in tabs if x != t]
                for _ in range(c.rng.choice([1, 2, 3, 5, 9])):
                    do = c.rng.choice(["add", "add", "rem", "rem", "load", "preset" if c.rng.random() < 0.2 else "rem"])
                    if do == "load":
                        files += 1
                        p, its = "o/c%d" % files, ritems(c.rng)
                        fmt = c.rng.choice(["csv", "yaml"])
                        if c.rng.random() < 0.25:
                            if c.rng.random() < 0.5:
                                prog.append(file_bad(p, bad_bytes(c.rng, fmt)))
                        elif fmt == "csv":
                            prog.append(file_csv(p, [[cps("from"), cps("to")]] + its, c.rng))
                        else:
                            prog.append(file_yaml(p, doc_of([], its), c.rng))
                        steps.append({"do": do, "path": p, "fmt": fmt})
                    else:
                        steps.append({"do": do} if do == "preset" else {"do": do, "c": rcorr(c.rng, others)})
                prog.append({"op": "tchain", "t": t, "steps": steps})
            elif r < 0.92:
                prog.append({"op": "calc", "sign": c.rng.choice("+-"), "a": rcorr(c.rng, tabs), "b": rcorr(c.rng, tabs)})
            else:
                files += 1
                its = ritems(c.rng)
                if c.rng.random() < 0.5:
                    p = "o/a%d.csv" % files
                    prog.append(file_csv(p, [[cps("from"), cps("to")]] + its, c.rng))
                else:
                    p = "o/a%d.yaml" % files
                    prog.append(file_yaml(p, doc_of([], its), c.rng))
                prog.append({"op": "tload", "t": c.rng.choice(tabs), "path": p, "fmt": p.split(".")[1], "how": "add"})
            prog += [{"op": "titems", "t": t} for t in tabs]
        progs.append(prog)
    # large operands, overlapping in every way
    for n in (600, 1500, scale(2500, 6000)):
        word = lambda k: [0x3400 + k % 1000, 0x61 + k % 3] if k % 5 == 0 else [0x3400 + k % 1700]  # noqa: E731
        its = lambda a, b: gen.shuffled(c.rng, [[word(k), [0x41 + k % 7]] for k in range(a, b)])  # noqa: E731
        for lo in (0, n // 2, n - 1, n):
            x, y = its(0, n), its(lo, lo + n)
            progs.append([dict(RESET), {"op": "tlit", "t": 1, "items": x}, {"op": "tlit", "t": 2, "items": y},
                          {"op": "tcopy", "t": 1, "u": 3},
                          {"op": "tadd", "t": 1, "c": {"c": "tab", "t": 2}, "via": c.rng.choice(["table", "builder"])},
                          {"op": "trem", "t": 3, "c": {"c": "tab", "t": 2}, "via": c.rng.choice(["table", "builder"])},
                          {"op": "titems", "t": 2}])
    # copies of copies, each changed while the others are there
    for copies in range(1, 6):
        for op, via in itertools.product(("tadd", "trem"), ("table", "builder", "builder2")):
            for which in range(1, copies + 2):
                prog = [dict(RESET), {"op": "tlit", "t": 1, "items": ritems(c.rng, 3) + [[[A], [B]]]}]
                for k in range(2, copies + 2):
                    prog.append({"op": "tcopy", "t": c.rng.randrange(1, k), "u": k})
                # instances given one of them stay as they were, too
                prog += [{"op": "from_table", "i": 1, "t": which}, {"op": "new", "i": 2}, {"op": "add_table", "i": 2, "t": which}]
                prog.append({"op": op, "t": which, "via": via, "c": {"c": "lit", "items": [[[A], [B]]] if op == "trem" else [[[A], [Z]]]}})
                prog += [{"op": "norm", "i": i, "text": [A, Z, 0x20, B, A]} for i in (1, 2)]
                progs.append(prog + [{"op": "titems", "t": k} for k in range(1, copies + 2)])
    # operands of every size
    for part in chunks([*range(0, 14), *WIDTHS], 7):
        prog = [dict(RESET)]
        for n in part:
            m = c.rng.choice([0, 1, 2, 3, n // 2, max(0, n - 1), n, n + 1, 2 * n])
            its = lambda k: [[[0x3400 + c.rng.randrange(2 * n + 2)], [A + c.rng.randrange(2)]] for _ in range(k)]  # noqa: E731
            lit = lambda v: {"c": "lit", "items": v}  # noqa: E731
            a = its(n)
            b = its(m) + c.rng.sample(a, len(a) // 2)
            prog += [{"op": "calc", "sign": sign, "a": lit(x), "b": lit(y)} for sign in "+-" for x, y in ((a, b), (b, a))]
            prog += [{"op": "tlit", "t": 1, "items": a}, {"op": "tcopy", "t": 1, "u": 2},
                     {"op": "tadd", "t": 1, "c": lit(b), "via": c.rng.choice(["table", "builder", "builder2"])}, {"op": "titems", "t": 1},
                     {"op": "trem", "t": 2, "c": lit(b), "via": c.rng.choice(["table", "builder", "builder2"])}, {"op": "titems", "t": 2}]
        progs.append(prog)
    c.trace(progs)


NASTY = [cps(x) for x in (
    ";", "a;b", "a|b", ",", '"', '""', "\n", "\r", "\r\n", " ", "  ", "\t", "#", "# a", ": ", "a: b", ":", "- ", "-", "- a", "?", "? a", "null", "~", "true",
    "false", "yes", "no", "on", "off", "Null", "TRUE", "1", "0", "01", "1.5", "0x1f", "1e3", ".inf", ".nan", "+1", "-1", "1_000",
    "2001-01-01", "<<", "=", "!", "!!str", "&a", "*a", "|", ">", "|-", "%", "@", "`", "'", "''", "\\", "\\n", "[", "]", "[]", "{", "}", "{}",
    "[a, b]", "{a: b}", "a,b", "a\"b", "from", "to", "items", "---", "...", " a", "a ", " a b ", "a\nb", "a\n", "\na", "\n\n", "\ta", "a\t",
    "é", "か゛", "\u3000", "\u00a0", "\U0001F600", "\ufeff", "\u2028", "\u0085", "\u200b", "\u0301", "\x7f", "\x01", "\x1b", "\u00ad", "\ufffd",
    "\uffff", "\ufdd0", "\U0010ffff", "\ud7ff", "\ue000", "a" * 300, "か" * 100, " " * 50, "a b " * 40, "\"," * 30)]


def plain_safe(w):
    """Not one of the texts that serde_yaml writes without quotes although it reads them as
    numbers (KNOWN_FINDINGS.txt)."""
    return not re.match(r"[+-]?0[obOB]|\+[0.]", "".join(map(chr, w)))


def written(w):
    """An upper bound for the characters that a text takes in YAML; a target of more than 1024 does
    not load back (KNOWN_FINDINGS.txt)."""
    return 2 + sum(1 if x in (SP, 0x3042) or 97 <= x <= 122 else 10 for x in w)


def c12(c):
    c.known("C12-yaml-long-target", [dict(RESET), {"op": "tlit", "t": 1, "items": [[[B], [A] * 1025]]}, {"op": "export", "t": 1}])
    for text in ("0o7", "0b1", "+0x1", "+.inf"):
        c.known("C12-yaml-number " + text,
                [dict(RESET), {"op": "tlit", "t": 1, "items": [[cps(text), [A]]]}, {"op": "export", "t": 1}])
    progs = []
    for _ in range(scale(300, 3000)):
        prog = [dict(RESET)]
        for t in range(1, 5):
            n = c.rng.choice([0, 1, 1, 2, 3, 5, 10, 40])
            word = lambda: (list(c.rng.choice(NASTY)) if c.rng.random() < 0.7 else  # noqa: E731
                            c.rng.choice(NASTY) + c.rng.choice(NASTY) if c.rng.random() < 0.6 else rtext(c.rng, c.rng.randrange(1, 6)))
            few = [word() for _ in range(3)]
            its = [[word(), c.rng.choice(few) if c.rng.random() < 0.5 else word()] for _ in range(n)]
            its += [[list(c.rng.choice(few)), word()] for _ in range(c.rng.choice([0, 0, 1, 3]))]
            its = [i for i in its if plain_safe(i[0]) and plain_safe(i[1])]
            prog.append({"op": "tlit", "t": t, "items": its})
            if c.rng.random() < 0.1:
                prog.append({"op": "tadd", "t": t, "c": {"c": "set", "name": c.rng.choice(SETS)}})
            prog.append({"op": "export", "t": t})
        progs.append(prog)
    one = [[w, [A]] for w in NASTY] + [[[A], w] for w in NASTY] + [[w, w] for w in NASTY]
    for part in chunks(one, 10):
        prog = [dict(RESET)]
        for it in part:
            prog += [{"op": "tlit", "t": 1, "items": [it]}, {"op": "export", "t": 1}]
        progs.append(prog)
    # every short word over the characters that mean something in one of the formats
    al = cps("a0 ,\"'\n\r\t:#-?[{]}&*!|>%@`~\\=<.\u0085\u2028\ufeff\U0001F600")
    words = [list(w) for n in range(1, scale(3, 4)) for w in itertools.product(al, repeat=n)]
    words = [w for w in words if plain_safe(w)]
    for part in chunks(pick(c.rng, words, scale(900, 20000)), 20):
        prog = [dict(RESET)]
        for w in part:
            prog += [{"op": "tlit", "t": 1, "items": [[w, [B]], [[A], w], [w, w + [A]]]}, {"op": "export", "t": 1}]
        progs.append(prog)
    for name in SETS:
        progs.append([dict(RESET), {"op": "tlit", "t": 1, "items": []}, {"op": "tadd", "t": 1, "c": {"c": "set", "name": name}},
                      {"op": "export", "t": 1}])
    # every kind of character, alone and within a text, as source and as target
    cs = [*range(0x3100), *range(0xD7F0, 0xD800), *range(0xE000, 0xE010), *range(0xF8F0, 0x10010), *range(0x1F300, 0x1F320),
          0x1FFFE, 0x1FFFF, 0xE0001, 0xE007F, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF]
    cs += list(range(0x3100, 0xD7F0)) if THOROUGH else [gen.rchar(c.rng) for _ in range(500)] + c.rng.sample(range(0x10010, 0x110000), 500)
    for part in chunks(list(dict.fromkeys(cs)), 400):
        its = [it for x in part for it in ([[x], [B]], [[A, x, B], [x]], [[x, A], [A, x]])]
        its = [i for i in its if plain_safe(i[0]) and plain_safe(i[1])]
        progs.append([dict(RESET), {"op": "tlit", "t": 1, "items": gen.shuffled(c.rng, its)}, {"op": "export", "t": 1}])
    # so many sources of one target, so many targets; words of every length
    for part in chunks([*range(2, 14), *WIDTHS], 8):
        prog = [dict(RESET)]
        for n in part:
            at = c.rng.choice([A, 0x3041, 0x1F600])
            its = [[[at + k], [X]] for k in range(n)] + [[[Y], [at + k]] for k in range(n)] * (c.rng.random() < 0.5)
            word = [c.rng.choice([A, SP, 0x3042, 10, 34, 44, 58]) for _ in range(n - 1)] + [A]
            word = c.rng.choice([word, [A] * n, [A, SP] * (n // 2) + [A], [0x3042] * n])
            prog += [{"op": "tlit", "t": 1, "items": gen.shuffled(c.rng, its)}, {"op": "export", "t": 1},
                     {"op": "tlit", "t": 2, "items": [[word, [A]], [[B], word], [word, word + [A]]] if written(word) < 1022 else [[word, [A]]]},
                     {"op": "export", "t": 2}]
        progs.append(prog)
    for n, d in ((1100, 7), (2300, 1), (2300, 2300)):
        n *= scale(1, 4)
        its = gen.shuffled(c.rng, [[[0x4E00 + k], [A + k % d] if d < 10 else [0x3041, k + 256]] for k in range(n)])
        progs.append([dict(RESET), {"op": "tlit", "t": 1, "items": its}, {"op": "export", "t": 1}])
    # nothing around it matters to the tool
    around = [file_csv(p, [[cps("from"), cps("to")], [[A], [0x30CD]]], c.rng) for p in ("h/.config/chanoma/chanomarc.csv", "h/chanomarc.csv", "w/chanomarc.csv", "o/x.csv")]
    for fmt in ("csv", "yaml"):
        for rc in ({"set": False}, {"set": True, "p": "o/x.csv", "e": "csv"}, {"set": True, "p": "o/none.csv", "e": "csv"}):
            progs.append(surrounded(c, [dict(RESET)] + around + [{"op": "env", "home": "h", "cwd": "w", "rc": rc, "debug": False}, {"op": "output", "fmt": fmt, "args": ["-f", fmt]}]))
    for fmt, args in (("csv", []), ("csv", ["-f", "csv"]), ("csv", ["--format", "csv"]), ("yaml", ["-f", "yaml"]),
                      ("yaml", ["--format=yaml"]), ("csv", ["--format=csv"]), ("yaml", ["-fyaml"])):
        progs.append([dict(RESET), {"op": "output", "fmt": fmt, "args": args}])
    c.trace(progs)


def c13(c):
    found = c.model("Discover.tla", cfg(c, "Discover.cfg", MaxFiles=scale(2, 3), MaxWithEnv=scale(1, 2)), timeout=800)
    c.replay([fill(c, p) for p in pick(c.rng, found, scale(2500, 40000))], what="discovery")
    progs = []
    for _ in range(scale(150, 1500)):
        prog = [dict(RESET)]
        home, cwd = c.rng.choice([("h", "w"), ("h", "h"), ("h", "h/.config/chanoma"), ("h", "h/sub"), ("w/h", "w"), ("deep/er/home", "deep/work dir"), ("h", "h/.config"), ("ほーむ", "作業"), ("h h/ほ\"o'm\\e" + "e" * 180, "w$w/" + "d/" * 40 + "*?[a]"),
                                  ("h\uf7ff", "w\uf7e3\uf781")])
        other = c.rng.choice([None, None, "x", home + "/x", home + "/.config/chanoma"])
        locs = [d + "/" + n + "." + e for d in (home + "/.config/chanoma", home, cwd) for n in ("chanomarc", ".chanomarc") for e in ("csv", "yaml", "yml")]
        locs = list(dict.fromkeys(locs))
        live, fixed = [], set()
        for k in range(c.rng.choice([1, 1, 2, 3])):
            free = [p for p in locs if p not in fixed]
            for p in c.rng.sample(free, min(len(free), c.rng.choice([0, 1, 1, 2, 3, 5, 12, 18]))):
                # one character's travels through the files show their order
                its = [[[c.rng.choice([A, B, C, X])], [c.rng.choice([A, B, C, X, HI])]] for _ in range(c.rng.choice([1, 2, 3]))]
                r = c.rng.random()
                if r < 0.06:
                    prog.append(gen.mkdir(p))
                elif r < 0.08:
                    prog.append(gen.special(p, c.rng.choice(["dangling", "dirlink", "sock", "loop", "eio"])))
                elif r < 0.12:
                    prog.append(file_bad(p, bad_bytes(c.rng, "csv" if p.endswith("csv") else "yaml")))
                elif p.endswith("csv"):
                    prog.append(file_csv(p, [[cps("from"), cps("to")]] + its, c.rng))
                else:
                    mods = [unique_keys(rstage(c.rng, ("conv", "lig", "trim", "neo", "red"))) for _ in range(c.rng.choice([0, 0, 1]))]
                    prog.append(file_yaml(p, doc_of(mods, its, c.rng), c.rng))
                if c.rng.random() < 0.15 and "x" in prog[-1] and prog[-1]["x"]["t"] == "file":
                    prog[-1]["link"] = True
                    # another of the names leads to the same file
                    same = [q for q in locs if q not in live and q != p and ext(q) == ext(p)]
                    if same and c.rng.random() < 0.6:
                        q = c.rng.choice(same)
                        prog.append(dict(prog[-1], path=q, link=p))
                        live.append(q)
                        fixed.add(p)
                live.append(p)
            # names that do not count
            if other and other != home + "/.config/chanoma":
                for p in (other + "/chanoma/chanomarc.csv", other + "/chanomarc.yaml", other + "/.chanomarc.csv"):
                    prog.append(file_csv(p, [[cps("from"), cps("to")], [[B], [0x30CD]]], c.rng) if p.endswith("csv") else
                                file_yaml(p, doc_of([], [[[C], [0x30CD]]]), c.rng))
            for p in c.rng.sample([home + "/chanomarc", cwd + "/.chanomarc", home + "/chanomarc.txt", cwd + "/chanomarc.json", cwd + "/chanomarc.CSV",
                                   home + "/.config/chanomarc.csv", home + "/.config/chanoma.yaml", home + "/.chanoma/chanomarc.csv",
                                   cwd + "/_chanomarc.csv", cwd + "/chanomarc.csv.bak", "chanomarc.csv", home + "/.config/chanoma/config.yaml",
                                   cwd + "/.config/chanoma/chanomarc.csv" if cwd != home else cwd + "/z.csv"], c.rng.choice([0, 0, 2])):
                if p not in locs and not (p == home + "/.config"):
                    prog.append(file_csv(p, [[cps("from"), cps("to")], [[A], [0x30CD]]], c.rng))
            rc = {"set": False}
            if c.rng.random() < 0.3:
                p = c.rng.choice(live + ["o/x.csv", "o/y.yaml", "o/z.yml", "o/none.csv", "o/x.v1.csv", "o/.csv", "o/x.CSV", "o/x.csv.txt", "o/x", "o/x.",
                                        "o/\uf7ff.csv", "o/a\uf781\uf782\uf7e3.yml", "o/none\uf7c0\uf780.csv", "o/\uf7f0/x.csv", "o/x.\uf7ff", "o/ａ　.yaml"])
                if p.startswith("o/") and "none" not in p:
                    prog.append(file_csv(p, [[cps("from"), cps("to")], [[A], [Z]]], c.rng) if ext(p) not in ("yaml", "yml") else
                                file_yaml(p, doc_of([], [[[A], [Y]]]), c.rng))
                rc = {"set": True, "p": p, "e": ext(p)}
                if c.rng.random() < 0.4:
                    rc["val"] = os.path.relpath(p, cwd)
            if c.rng.random() < 0.03:
                rc = {"set": True, "p": "", "e": "", "val": ""}
            elif c.rng.random() < 0.12:
                rc, fs = odd_rc(c, home, cwd, live)
                prog += fs
            prog.append({"op": "env", "home": home, "cwd": cwd, "rc": rc, "debug": c.rng.random() < 0.2})
            if other:
                prog[-1]["xdg"] = other
            r = c.rng.random()
            if r < 0.15:
                prog[-1]["hs"] = c.rng.choice(["/", "//", "/./", "/."])
            elif r < 0.25:
                # HOME may be relative
                prog[-1]["hval"] = os.path.relpath(home, cwd)
            elif r < 0.3:
                # the home directory is that of the account, where there is nothing
                prog[-1].update(home="account", hval=c.rng.choice(["", "-"]))
            elif r < 0.4 and "val" not in rc and cwd not in ("h", "h/.config") and not any((o.get("path", "") + "/").startswith(cwd + "/") for o in prog) and \
                    not (home + "/").startswith(cwd + "/"):
                # the current directory is removed under the process
                prog[-1]["gone"] = True
            prog.append({"op": "new", "i": 1})
            prog.append({"op": "load_rc", "i": 1})
            prog.append({"op": c.rng.choice(["norm", "normp"]), "i": 1, "text": [A, B, C, X, HI, SP, A, A, Z, SP]})
            if live and c.rng.random() < 0.5:
                p = live.pop(c.rng.randrange(len(live)))
                prog += [{"op": "del", "path": p}] if p not in live and p not in fixed else []
        progs.append(prog)
    for d in ("h", "h/.config", "h/.config/chanoma"):
        for deep_ in (1, 2):
            prog = [dict(RESET)] + [{"op": "linkdir", "path": d, "to": "l%d" % k} for k in range(deep_)]
            fs = [file_csv(p, [[cps("from"), cps("to")], [[A], [A, B]], [[A + k], [A + k + 1]]], c.rng) if ext(p) == "csv" else
                  file_yaml(p, doc_of([], [[[A + k], [A + k + 1]]], c.rng), c.rng) for k, p in enumerate(LOCS)]
            for part in (fs[:6], fs[6:12], fs[::5], fs):
                progs.append(prog + part + [{"op": "load_rc", "i": 1}, {"op": "normp", "i": 1, "text": [A + k for k in range(len(LOCS) + 1)]}])
    for val in WITH_PATH + BARE:
        rc, fs = odd_rc(c, "h", "w", [], val)
        progs.append([dict(RESET), *fs, {"op": "env", "home": "h", "cwd": "w", "rc": rc, "debug": False}, {"op": "new", "i": 1}, {"op": "load_rc", "i": 1}, {"op": "norm", "i": 1, "text": [A, B]}])
    c.trace([surrounded(c, p) for p in progs])


WITH_PATH = ["file://{root}/o/x.csv", "file:{root}/o/x.csv", "FILE://localhost{root}/o/x.csv", "file:///{root}/o/x.csv", " {root}/o/x.csv", "'{root}/o/x.csv'", "\"{root}/o/x.csv\"",
             "{root}/o/x.csv\n", "{root}/o/x.csv:{root}/o/x.csv", "{root}/o/x.csv,", "@{root}/o/x.csv", "={root}/o/x.csv", "<{root}/o/x.csv>", "{root}/o/x.csv#a", "{root}/o/x.csv?a=b",
             "{root}/o/X.csv", "{root}/o/x.csv/", "{root}/o/x.csv/.", "{root}/o/none/../x.csv", "{root}/o/x%2Ecsv", "{root}\\o\\x.csv", "-c {root}/o/x.csv", "~{root}/o/x.csv", "{root}/o/x.csv ", "{root}/o/*.csv"]
BARE = ["~/x.csv", "~/.chanomarc.csv", "$HOME/x.csv", "${HOME}/.chanomarc.csv", " x.csv", "x.csv ", "x.csv\n", "\tx.csv", "\"x.csv\"",
        "'x.csv'", "x.csv:o/x.csv", "x.csv,x.csv", "x.csv;x.csv", "*.csv", "?.csv", "{x,y}.csv", "[x].csv", "file:x.csv", "%HOME%/x.csv",
        "X.csv", "x%2Ecsv", "ｘ.csv", "x\u0301.csv", "x", "x.", ".csv", "chanomarc", ".chanomarc", "chanomarc.csv/x.csv",
        "csv", "-", "0", "false", "none", "dev/null", "...csv", "x..csv", "x.csv.csv", "x.yaml.csv"]


def odd_rc(c, home, cwd, live, val=None):
    """A value of CHANOMARC that looks as if it meant some file, but is only the name it is;
    sometimes that file exists as well."""
    csv_ = lambda p: file_csv(p, [[cps("from"), cps("to")], [[A], [0x30CD]]], c.rng)  # noqa: E731
    if val is None and c.rng.random() < 0.2:
        # a directory with configuration files in it is no configuration file
        d = c.rng.choice([home, cwd, home + "/.config/chanoma", "o/conf", "o/conf.csv", "o/conf.yaml"])
        rc = {"set": True, "p": d, "e": ext(d)}
        if c.rng.random() < 0.5:
            rc["val"] = os.path.relpath(d, cwd)
        return rc, [csv_(d + "/chanomarc.csv"), csv_(d + "/.chanomarc.csv")]
    base = [csv_("o/x.csv"), csv_(home + "/x.csv"), csv_(cwd + "/x.csv"), csv_(home + "/.chanomarc.csv")]
    val = c.rng.choice(WITH_PATH + BARE) if val is None else val
    if val in WITH_PATH:
        # a value with an existing file's path in it, which is not that path
        name = val.replace("{root}", "").rstrip("/.") if val.endswith(("/", "/.")) else val
        return {"set": True, "p": "o/none/" + "".join(x if x not in "/." else "_" for x in val), "e": ext(name), "val": val}, base
    # a value that is a path relative to the current directory, whatever it looks like
    rc = {"set": True, "p": os.path.normpath(cwd + "/" + val) if "\n" not in val else cwd + "/" + val, "e": ext(val), "val": val}
    taken = [p for p in live if rc["p"] == p or rc["p"].startswith(p + "/")]
    if not taken and c.rng.random() < 0.4:
        base.append(csv_(rc["p"]))
    return rc, [f for f in base if f["path"] not in live]


SAYS = {"LANG": ["C", "ja_JP.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP", ""], "LC_ALL": ["C", "POSIX", "ja_JP.UTF-8", "de_DE"], "LC_CTYPE": ["C", "ja_JP.SJIS"],
        "TERM": ["dumb", "xterm-256color", ""], "NO_COLOR": ["1"], "CLICOLOR_FORCE": ["1"], "COLUMNS": ["5", "x"], "CI": ["true"], "DEBUG": ["1", "chanoma"],
        "VERBOSE": ["1"], "RUST_LOG": ["debug", "chanoma=trace", "off", "="], "RUST_LOG_STYLE": ["always"], "RUST_BACKTRACE": ["1", "full"], "TZ": ["Asia/Tokyo"],
        "USER": ["x"], "LOGNAME": ["x"], "PWD": ["/nonexistent", "{root}/o"], "OLDPWD": ["{root}/o"], "TMPDIR": ["/nonexistent"], "SHELL": ["/bin/false"],
        "USERPROFILE": ["{root}/o"], "HOMEPATH": ["{root}/o"], "PAGER": ["cat"], "POSIXLY_CORRECT": ["1"],
        **{k: ["{root}/o/x.csv", "{root}/none.csv", "", "1", "x.csv"] for k in ("CHANOMA", "CHANOMA_RC", "CHANOMARC_", "_CHANOMARC", "chanomarc", "ChanomaRC", "CHANOMARCS", "CHANOMA_RC_PATH", "CHANOMARC_PATH",
                                                                              "CHANOMA_CONFIG", "CHANOMA_CONFIG_FILE", "CHANOMA_CONF", "CHANOMA_FILE", "CHANOMA_PATH", "CHANOMA_DIR", "CHANOMA_CONFIG_DIR",
                                                                              "CHANOMA_PRESET", "CHANOMA_NEOLOGDN", "CHANOMA_DEBUG", "CHANOMA_LOG", "CHANOMA_LANG", "CHANOMA_OPTS", "PRESET", "NEOLOGDN", "CONFIG")}}


def linked(c, prog):
    """The same program while links lead to the directory of the user or those in it."""
    envs = [o for o in prog if o["op"] == "env"]
    if any(o["op"] == "linkdir" for o in prog):
        return prog
    homes = {o["home"] for o in envs} | {"h"}
    dirs = [d for h in sorted(homes) for d in (h, h + "/.config", h + "/.config/chanoma")]
    # but not to the current directory, or one it is in
    dirs = [d for d in dirs if not any((o["cwd"] + "/").startswith(d + "/") for o in envs)]
    dirs = [d for d in dirs if "gone" not in str(envs)]
    if not dirs:
        return prog
    chosen = sorted(c.rng.sample(dirs, c.rng.choice([1, 1, min(2, len(dirs))])), key=len, reverse=True)
    ops = [{"op": "linkdir", "path": d, "to": "linked/%d" % k} for k, d in enumerate(chosen + chosen[-1:] * c.rng.choice([0, 0, 1]))]
    at = c.rng.choice([k for k, o in enumerate(prog) if o["op"] in ("reset", "load_rc", "file")])
    at += prog[at]["op"] == "reset"
    return prog[:at] + ops + prog[at:]


def surrounded(c, prog):
    """The same program while the environment says one thing and another to other programs."""
    if c.rng.random() < 0.15:
        prog = linked(c, prog)
    out = []
    for o in prog:
        if o["op"] == "reset" and c.rng.random() < 0.5:
            out += [o, {"op": "env", "home": "h", "cwd": "w", "rc": {"set": False}, "debug": False}]
            o = out.pop()
        if o["op"] == "env" and c.rng.random() < 0.7:
            ks = c.rng.sample(sorted(SAYS), c.rng.choice([1, 3, 10, len(SAYS)]))
            o = dict(o, vars={k: c.rng.choice(SAYS[k]) for k in ks})
        out.append(o)
    if any("vars" in o for o in out) and not any(o.get("path") == "o/x.csv" for o in out):
        out.insert(1, file_csv("o/x.csv", [[cps("from"), cps("to")], [[A], [0x30CD]], [[B], [0x30CD]]], c.rng))
    return out


def ext(path):
    """As the file system library defines it: nothing for a name that only begins with a dot.
    The empty extension of a name that ends with a dot is given as the dot."""
    name = path.rsplit("/", 1)[-1]
    stem, dot, e = name.rpartition(".")
    return e or dot if dot and stem else ""


def rdoc(rng):
    """A document with random modifiers, items and other keys."""
    mods, seen = [], set()
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 7])):
        st = unique_keys(rstage(rng, ("conv", "elim", "red", "dse", "lig", "trim", "neo")))
        if st[0] not in seen:
            seen.add(st[0])
            mods.append(st)
    its = ritems(rng) if rng.random() < 0.7 else []
    if its and rng.random() < 0.4:
        # words that mean something to YAML
        its = [[w if rng.random() < 0.5 else list(rng.choice(NASTY)) for w in i] for i in its]
    doc = doc_of(mods, its, rng)
    if rng.random() < 0.5 and its:
        # grouped by target, in any order
        groups = {}
        for f, t in its:
            groups.setdefault(tuple(t), []).append(f)
        v = ymap([[ystr(list(t)), yseq([ystr(f) for f in fs]) if len(fs) > 1 or rng.random() < 0.5 else ystr(fs[0])]
                  for t, fs in groups.items()])
        doc["m"] = [kv for kv in doc["m"] if kv[0]["s"] != cps("items")] + [[ystr("items"), v]]
    if rng.random() < 0.3:
        doc["m"].insert(rng.randrange(len(doc["m"]) + 1),
                        [ystr(rng.choice(["version", "Items", "note", "from", "modifier", "item"])),
                         rng.choice([gen.NUM, gen.NULL, ystr("x"), yseq([gen.BOOL]), ymap([[ystr("trim"), gen.NULL]])])])
    if rng.random() < 0.3:
        rng.shuffle(doc["m"])
    return doc, mods, its


HEADS = [["x"], ["from;to"], ["from\tto"], ["from|to"], ["sep=;"], ["#from", "to"], ["from", "to", "note"], ["a b", " c "], ["from:to"], ["to", "from"],
         ["か", "が"], ["a", "b"], ["1", "2"], ["from\nto", "x"], ['"', "'"], ["items:"], ["%"], ["a" * 5000, "b"], list("abcdefghijklmnopqrst"), ["", ""], ["", "x"]]


def rows_of(rng):
    rows = [[cps(w) for w in (("from", "to") if rng.random() < 0.5 else rng.choice(HEADS))]]
    for _ in range(rng.choice([0, 1, 2, 5, 20])):
        n = rng.choice([1, 2, 2, 2, 3, 5])
        rows.append([list(rng.choice(NASTY)) if rng.random() < 0.2 else rtext(rng, rng.choice([0, 1, 1, 1, 2])) for _ in range(n)])
    return rows


def used(prog, c, path, fmt, its, mods, i=1):
    """Read a file in every way there is."""
    its = its or [[[A], [B]]]
    sts = mods + [("conv", its)]
    prog.append({"op": "cfg", "i": i, "path": path, "ext": path.rsplit(".", 1)[-1]})
    for op in ("norm", "norm", "normp"):
        prog.append({"op": op, "i": i, "text": text_for(c.rng, sts, lengths(c.rng, False))})
    prog.append({"op": "tload", "t": 1, "path": path, "fmt": fmt, "how": "from", "via": c.rng.choice(["file", "builder"])})
    prog.append({"op": "tlit", "t": 2, "items": ritems(c.rng)})
    prog.append({"op": "tload", "t": 2, "path": path, "fmt": fmt, "how": "add"})
    prog.append({"op": "titems", "t": 2})


def csv_texts(c, wf):
    """The CSV texts that the model of the concrete syntax explores: the well-formed ones have to
    give the items the model read, the others something or an error, but no crash."""
    es = [e for e in c.model("Csv.tla", cfg(c, "Csv.cfg", MaxLen=scale(4, 6), MaxRows=scale(1, 2))) if e["wf"] == wf]
    progs = []
    for part in chunks(pick(c.rng, es, scale(6000, 100000)), 100):
        prog = [dict(RESET)]
        for e in part:
            f = gen.file_csv_text("w/d.csv", e["text"])
            if wf:
                prog += [f, {"op": "cfg", "i": 1, "path": "w/d.csv", "ext": "csv", "want": {"p": 0, "ok": True}},
                         {"op": "tload", "t": 1, "path": "w/d.csv", "fmt": "csv", "how": "from", "want": {"p": 0, "ok": True, "items": e["items"]}}]
            else:
                prog += [f, {"op": "cfg", "i": 1, "path": "w/d.csv", "ext": "csv", "want": {"p": 0}},
                         {"op": "tload", "t": 1, "path": "w/d.csv", "fmt": "csv", "how": "from", "want": {"p": 0}}]
        progs.append(prog)
    c.replay(progs, what="CSV text")


def c14(c):
    docs = c.model("Docs.tla", cfg(c, "Docs.cfg", Wide="TRUE" if THOROUGH else "FALSE"))
    good = [p for p in docs if next(o for o in p if o["op"] == "cfg")["want"]["ok"]]
    c.replay([fill(c, p) for p in good for _ in range(scale(2, 4))], what="document")
    csv_texts(c, True)
    progs = []
    for _ in range(scale(220, 2500)):
        prog = [dict(RESET)]
        if c.rng.random() < 0.65:
            doc, mods, its = rdoc(c.rng)
            p = "w/d." + c.rng.choice(["yaml", "yml"])
            prog.append(file_yaml(p, doc, c.rng))
            used(prog, c, p, "yaml", its, mods)
            q = c.rng.choice(gen.YLOCS)
            prog.append(dict(prog[1], path=q))
        else:
            rows = rows_of(c.rng)
            its = [[f, r[-1]] for r in rows for f in r[:-1]]
            if c.rng.random() < 0.6:
                prog.append(gen.file_csv_text("w/d.csv", gen.csv_text(rows, c.rng)))
            else:
                prog.append(file_csv("w/d.csv", rows, c.rng))
            used(prog, c, "w/d.csv", "csv", its, [])
            mods = []
            q = c.rng.choice([l for l in LOCS if l.endswith("csv")])
            prog.append(dict(prog[1], path=q))
        # the same content found automatically
        prog.append({"op": "load_rc", "i": 2})
        for o in [o for o in prog if o["op"] == "norm"]:
            prog.append({"op": "norm", "i": 2, "text": o["text"]})
        progs.append(prog)
    # every word that means something, at every place
    words = [list(w) for w in dict.fromkeys(map(tuple, NASTY))]
    for k in range(scale(4, 20)):
        some = c.rng.sample(words, len(words))
        src = lambda n: [0x4E00 + n]  # noqa: E731
        for how in range(4):
            if how < 3:
                v = ymap([[ystr(w), ystr(src(n)) if how == 0 else yseq([ystr(src(n)), ystr(w)]) if how == 1 else
                           yseq([ystr(x) for x in some[n:n + 3]])] for n, w in enumerate(some)])
                its = [[src(n), w] for n, w in enumerate(some)] + [[w, w] for w in some]
            else:
                its = [[w, src(n)] for n, w in enumerate(some)] + [[src(n), w] for n, w in enumerate(some)]
                c.rng.shuffle(its)
                v = yseq([gen.entry(f, t, c.rng) for f, t in its])
            prog = [dict(RESET), file_yaml("w/d.yaml", ymap([[ystr("items"), v]]), c.rng)]
            used(prog, c, "w/d.yaml", "yaml", its, [])
            progs.append(prog)
        st = ("lig", [[w, some[n - 1]] for n, w in enumerate(some) if len(w) < 30])
        prog = [dict(RESET), file_yaml("w/d.yaml", doc_of([st, ("elim", [w[0] for w in some[:9]]), ("conv", [[[w[0]], [some[n - 1][0]]] for n, w in enumerate({x[0]: x for x in some}.values())])]), c.rng)]
        prog.append({"op": "cfg", "i": 1, "path": "w/d.yaml", "ext": "yaml"})
        for w in c.rng.sample(some, 40):
            prog.append({"op": "norm", "i": 1, "text": w})
        progs.append(prog)
    # files rewritten under the same name, as long as before
    for _ in range(scale(12, 100)):
        p = c.rng.choice(["w/d.csv", "w/d.yaml", "h/.chanomarc.csv", "w/chanomarc.yml", "h/.config/chanoma/chanomarc.yaml"])
        fmt = "csv" if p.endswith("csv") else "yaml"
        prog = [dict(RESET), {"op": "new", "i": 3}]
        size = None
        for k in range(8):
            its = [[[c.rng.choice([A, B, C, X])], [c.rng.choice([A, B, C, X, Y])]] for _ in range(3)]
            if fmt == "csv":
                prog.append(file_csv(p, [[cps("from"), cps("to")]] + its, random.Random(1)))
            else:
                prog.append(file_yaml(p, doc_of([("red", c.rng.choice([A, B, C]))], its), random.Random(1)))
            b = bytes.fromhex(prog[-1]["b"])
            size = size or len(b) + 40
            prog[-1]["b"] = (b + b"\n" * (size - len(b))).hex()
            if k and c.rng.random() < 0.2:
                prog[-1] = file_bad(p, c.rng.choice([b"\xff", b"items: ["]).ljust(size) if fmt == "yaml" else b"a,b\n\xff,".ljust(size))
            prog.append({"op": "cfg", "i": 1, "path": p, "ext": fmt if fmt == "csv" else ext(p)})
            prog += [{"op": op, "i": 1, "text": [A, A, B, B, C, C, X]} for op in ("norm", "normp")]
            if p != "w/d." + fmt:
                prog += [{"op": "load_rc", "i": 2}, {"op": "norm", "i": 2, "text": [A, A, B, B, C, C, X]}]
            prog.append({"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from", "via": c.rng.choice(["file", "builder"])})
        progs.append(prog)
    for fmt in ("csv", "yaml"):
        for n in (1200, scale(3500, 12000)):
            f, its = long_file(c, fmt, n)
            mods = [("trim",)] if fmt == "yaml" else []
            prog = [dict(RESET), f]
            used(prog, c, "w/d." + fmt, fmt, its, mods)
            prog.append({"op": "norm", "i": 1, "text": [SP] + [i[0][0] for i in its] + [0x4E00 + 9000, SP]})
            progs.append(prog)
    # what matters stands far apart in a large file
    for size in (4000, 8180, 66000, (1 << 20) + 50, scale(2100000, 17000000)):
        its = [[[A], [B]], [[B], [X]], [[HI], [A]]]
        for fmt in ("csv", "yaml"):
            if fmt == "csv":
                fill_ = b"\n" * size
                f = file_csv("w/d.csv", [[cps("from"), cps("to")]] + its, c.rng)
                lines = [b"from,to\n"] + ["".join(map(chr, a + [44] + b + [10])).encode() for a, b in its]
            else:
                fill_ = c.rng.choice([b"# to: x\n", b"#" * 99 + b"\n", b"\n"])
                fill_ *= size // len(fill_) + 1
                f = file_yaml("w/d.yaml", doc_of([], its), c.rng)
                lines = [b"items:\n"] + ["".join(map(chr, cps("- from: ") + a + cps("\n  to: ") + b + [10])).encode() for a, b in its]
            f["b"] = (lines[0] + lines[1] + fill_ + lines[2] + c.rng.choice([fill_, b""]) + lines[3]).hex()
            prog = [dict(RESET), f, {"op": "cfg", "i": 1, "path": f["path"], "ext": fmt}, {"op": "norm", "i": 1, "text": [A, B, HI, X]},
                    {"op": "tload", "t": 1, "path": f["path"], "fmt": fmt, "how": "from"}]
            progs.append(prog)
    # every kind of character, alone and within a text, as source and as target
    cs = [*range(0x250), *range(0x2FF, 0x380), *range(0x2000, 0x2070), *range(0x3000, 0x3100), *range(0xD7F0, 0xD800), *range(0xE000, 0xE010),
          *range(0xFE00, 0x10010), *range(0x1F300, 0x1F320), 0x1FFFE, 0x1FFFF, 0xE0001, 0xE007F, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF]
    cs += [gen.rchar(c.rng) for _ in range(scale(200, 2000))] + c.rng.sample(range(0x250, 0xD800), scale(500, 9000)) + c.rng.sample(range(0x10010, 0x110000), scale(200, 2000))
    for part in chunks(list(dict.fromkeys(cs)), 200):
        its = gen.shuffled(c.rng, [it for x in part for it in ([[x], [B]], [[A, x, B], [x]], [[x, A], [A, x]])])
        progs.append([dict(RESET), file_csv("w/d.csv", [[cps("x")]] + its, c.rng), file_yaml("w/d.yaml", doc_of([("elim", part[:20])], its, c.rng), c.rng)])
        for k, ext_ in enumerate(("csv", "yaml")):
            progs[-1] += [{"op": "tload", "t": k, "path": "w/d." + ext_, "fmt": ext_, "how": "from"}, {"op": "cfg", "i": k, "path": "w/d." + ext_, "ext": ext_},
                          {"op": "norm", "i": k, "text": part + [A, B]}]
    # one line of many fields, one mapping entry of many sources
    its = [[[0x4E00 + k], [A]] for k in range(scale(1500, 6000))]
    progs.append([dict(RESET), file_csv("w/d.csv", [[cps("x")], [i[0] for i in its] + [[A]]], c.rng)])
    used(progs[-1], c, "w/d.csv", "csv", its, [])
    m = ymap([[ystr("items"), ymap([[ystr("a"), yseq([ystr(i[0]) for i in its])]])]])
    progs.append([dict(RESET), file_yaml("w/d.yaml", m, c.rng)])
    used(progs[-1], c, "w/d.yaml", "yaml", its, [])
    c.trace(progs)


def long_file(c, fmt, n, where="w/d."):
    """A file of n lines with sources and targets all over the text, and its items."""
    its = [[[0x4E00 + k % 9000], [0x3041 + (k * 7) % 80]] for k in range(n)]
    p = where + fmt
    if fmt == "csv":
        return file_csv(p, [[cps("from"), cps("to")]] + its, c.rng), its
    return file_yaml(p, doc_of([("trim",)], its), c.rng), its


JUNK = [gen.NULL, gen.BOOL, gen.NUM, ystr(""), ystr("a"), ystr("か゛x"), yseq([]), yseq([ystr("a")]), yseq([gen.NULL]), yseq([yseq([ystr("a")])]),
        ymap([]), ymap([[ystr("a"), ystr("b")]]), ymap([[gen.NUM, ystr("b")]]), ymap([[ystr("from"), ystr("a")], [ystr("to"), ystr("b")]])]


def clone(n):
    return json.loads(json.dumps(n))


def places(n, path=()):
    yield path
    if n["y"] == "seq":
        for k, v in enumerate(n["v"]):
            yield from places(v, path + (("v", k),))
    elif n["y"] == "map":
        for k, (a, b) in enumerate(n["m"]):
            yield from places(a, path + (("k", k),))
            yield from places(b, path + (("m", k),))


def damage(rng, doc):
    """A document with the value at one place exchanged for another kind of value."""
    doc = clone(doc)
    p = rng.choice(list(places(doc)))
    if not p or rng.random() < 0.03:
        return clone(rng.choice(JUNK))
    n = doc
    for kind, k in p[:-1]:
        n = n["v"][k] if kind == "v" else n["m"][k][0 if kind == "k" else 1]
    kind, k = p[-1]
    j = clone(rng.choice(JUNK))
    if kind == "v":
        n["v"][k] = j
    elif kind == "m":
        n["m"][k][1] = j
    elif j["y"] in ("null", "bool", "num", "str"):
        n["m"][k][0] = j
    return doc


def distinct(n):
    """No mapping has a key twice, and no ligature an empty source."""
    if n["y"] == "seq":
        return all(distinct(v) for v in n["v"])
    if n["y"] == "map":
        ks = [json.dumps(k) for k, _ in n["m"]]
        return len(ks) == len(set(ks)) and all(distinct(k) and distinct(v) for k, v in n["m"])
    return True


def ligs_ok(doc):
    for k, v in doc["m"] if doc["y"] == "map" else []:
        if k.get("s") == cps("modifiers") and v["y"] == "map":
            for a, b in v["m"]:
                if a.get("s") == cps("ligature_translator") and b["y"] == "map" and any(x.get("s") == [] for x, _ in b["m"]):
                    return False
    return True


YTOKENS = ["a", "b: c", "items", "modifiers", ": ", ":", "\n", "\n ", "\n  ", "- ", "-", "[", "]", "{", "}", ",", '"', "'", "&a ", "*a", "|", "|\n",
           ">", "> \n", "#", " # ", "!", "!!str ", "!<", "%", "%YAML 1.2\n", "---\n", "...\n", "?", "? ", "~", "\t", " ", "0", "\\", "\\u", "\\x4", "@",
           "`", "\ufeff", "\u0085", "\u2028", "trim", "character_converter", "character_eliminator", "<<", "=", "\r", "\r\n", "é", "\U0001F600",
           "\x00", "from", "to", "1e999", "-0", ".nan", "0x", "9" * 30]


def yaml_noise(rng):
    """Texts that are mostly no YAML, or odd YAML."""
    s = "".join(rng.choice(YTOKENS) for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20])))
    s = rng.choice(["", "", "items: ", "modifiers: ", "modifiers:\n  trim:\n  "]) + s
    b = bytearray(s.encode("utf-8"))
    if rng.random() < 0.1:
        b.insert(rng.randrange(len(b) + 1), rng.choice([0x80, 0xFF, 0xC3]))
    return bytes(b)


def deep(c, text):
    return [dict(RESET), file_bad("w/deep.yaml", text), {"op": "cfg", "i": 1, "path": "w/deep.yaml", "ext": "yaml"}]


def c15(c):
    parts = [".", "/", "csv", "yaml", "yml", "a", "CSV", "ｃ", ".."]
    names = {"".join(w) for n in (1, 2, 3, 4) for w in itertools.product(parts, repeat=n)}
    c.trace([[dict(RESET)] + [{"op": "fext", "text": cps(x)} for x in part] for part in chunks(sorted(names), 800)])
    for t in ("- ", "? "):
        c.known("C15-deep-nesting " + t.strip(), deep(c, t.encode() * 100000))
    c.trace([deep(c, t) for n in (130, 200, 500) for t in (b"- " * n, b"? " * n, b"items:\n" + b"- " * n, b"items: " + b"[" * n + b"]" * n,
                                                           b"modifiers: " + b"{a: " * n + b"}" * n)])
    csv_texts(c, False)
    late_errors(c)
    progs = []
    for part in range(scale(40, 400)):
        prog = [dict(RESET)]
        for _ in range(100):
            p = "w/n." + c.rng.choice(["yaml", "yml", "yaml", "csv"])
            fmt = "csv" if p.endswith("csv") else "yaml"
            prog += [file_bad(p, yaml_noise(c.rng)), {"op": "cfg", "i": 1, "path": p, "ext": ext(p), "want": {"p": 0}},
                     {"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from", "want": {"p": 0}}]
        progs.append(prog)
    c.replay(progs, what="noise")
    docs = c.model("Docs.tla", cfg(c, "Docs.cfg", Wide="TRUE" if THOROUGH else "FALSE"))
    bad = [p for p in docs if any(o["op"] in ("cfg", "tload") and not o["want"]["ok"] for o in p)]
    c.replay([fill(c, [o for o in p if o["op"] != "norm"]) for p in bad for _ in range(scale(2, 4))], what="malformed document")
    c.trace(malformed(c, scale(500, 6000)))


def malformed(c, n):
    """Configurations with something wrong in them, read in every way."""
    progs = []
    for _ in range(n):
        prog = [dict(RESET)]
        r = c.rng.random()
        fmt = "yaml"
        if r < 0.55:
            doc, mods, its = rdoc(c.rng)
            for _ in range(c.rng.choice([1, 1, 1, 2])):
                d = damage(c.rng, doc)
                if distinct(d) and ligs_ok(d):
                    doc = d
            p = "w/d." + c.rng.choice(["yaml", "yml"])
            prog.append(file_yaml(p, doc, c.rng))
        elif r < 0.75:
            fmt = c.rng.choice(["csv", "yaml"])
            p = "w/d." + fmt
            prog.append(file_bad(p, bad_bytes(c.rng, fmt)))
        elif r < 0.8:
            p = "w/d." + c.rng.choice(["csv", "yaml"])
            fmt = p.split(".")[1]
            prog.append(gen.mkdir(p) if c.rng.random() < 0.4 else gen.special(p, c.rng.choice(["dangling", "dirlink", "sock", "loop", "eio"])))
        elif r < 0.85:
            p = "w/" + c.rng.choice(["none.csv", "none.yaml", "no/such.yaml", "none.yml", "x" * 300 + ".csv", "x/" * 2500 + "x.yaml", "file/x.csv", "file/x.yml", "file/../d.csv"])
            if "file/" in p:
                prog.append(file_csv("w/file", [[cps("from"), cps("to")], [[A], [B]]], c.rng))
            fmt = "csv" if p.endswith("csv") else "yaml"
        elif r < 0.93:
            p = "w/" + c.rng.choice(["d.txt", "d", ".csv", ".yaml", "d.CSV", "d.Yaml", "d.json", "d.csv.bak", "csv", "d.", "d.ya ml", "d.ｃｓｖ"])
            prog.append(file_csv(p, [[cps("from"), cps("to")], [[A], [B]]], c.rng))
            prog[-1]["x"] = {"t": "file", "f": "csv", "rows": prog[-1]["x"]["rows"]}
            fmt = "csv"
        else:
            fmt = "csv"
            p = "w/d.csv"
            prog.append(file_csv(p, rows_of(c.rng), c.rng))
        prog.append({"op": "new", "i": 1})
        prog.append({"op": "cfg", "i": 1, "path": p, "ext": ext(p)})
        prog.append({"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from", "via": c.rng.choice(["file", "builder"])})
        prog.append({"op": "tlit", "t": 2, "items": []})
        prog.append({"op": "tload", "t": 2, "path": p, "fmt": fmt, "how": "add"})
        # the same thing found automatically, next to good files; and named by the variable
        f = prog[1] if prog[1]["op"] == "file" and prog[1]["path"] != "w/file" else None
        locs = [l for l in LOCS if ext(l) == ext(p)] if f else []
        if locs:
            q = c.rng.choice(locs)
            prog.append(dict(f, path=q))
            for l in c.rng.sample([l for l in LOCS if l != q], c.rng.choice([0, 1, 2])):
                prog.append(file_csv(l, [[cps("x")], [[A], [B]]], c.rng) if l.endswith("csv") else
                            file_yaml(l, doc_of([], [[[A], [B]]]), c.rng))
            prog.append({"op": "load_rc", "i": 1})
        prog.append({"op": "env", "home": "h", "cwd": "w", "rc": {"set": True, "p": p, "e": ext(p)}, "debug": False})
        prog.append({"op": "load_rc", "i": 2})
        progs.append(prog)
    # things that are no files, or files that cannot be read, in every place
    for kind in ("dir", "dangling", "dirlink", "sock", "loop", "eio"):
        at = lambda p: gen.mkdir(p) if kind == "dir" else gen.special(p, kind)  # noqa: E731
        for e in ("csv", "yaml", "yml"):
            fmt, p = "csv" if e == "csv" else "yaml", "w/d." + e
            prog = [dict(RESET), at(p), {"op": "new", "i": 1}, {"op": "cfg", "i": 1, "path": p, "ext": ext(p)}]
            for via in ("file", "builder"):
                prog.append({"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from", "via": via})
            prog += [{"op": "tlit", "t": 2, "items": [[[A], [B]]]}, {"op": "tload", "t": 2, "path": p, "fmt": fmt, "how": "add"}]
            for q in [l for l in LOCS if ext(l) == ext(p)]:
                more = c.rng.choice([l for l in LOCS if l != q])
                prog += [at(q), {"op": "load_rc", "i": 1},
                         file_csv(more, [[cps("x")], [[A], [B]]], c.rng) if more.endswith("csv") else file_yaml(more, doc_of([], [[[A], [B]]]), c.rng),
                         {"op": "load_rc", "i": 1}, {"op": "del", "path": q}, {"op": "load_rc", "i": 1}, {"op": "del", "path": more}]
            prog += [{"op": "env", "home": "h", "cwd": "w", "rc": {"set": True, "p": p, "e": ext(p)}, "debug": False}, {"op": "load_rc", "i": 2}]
            progs.append(prog)
    # what can be no name of a file
    for p in ("w/a\0.csv", "w/\0/b.yaml", "w/d.csv\0", "w/d.csv\0.csv", "w/d.\0csv"):
        fmt = "yaml" if "yaml" in p else "csv"
        progs.append([dict(RESET), file_csv("w/d.csv", [[cps("from"), cps("to")], [[A], [B]]], c.rng), {"op": "new", "i": 1}, {"op": "cfg", "i": 1, "path": p, "ext": ext(p)},
                      {"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from", "via": "file"}, {"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from"},
                      {"op": "tlit", "t": 2, "items": []}, {"op": "tload", "t": 2, "path": p, "fmt": fmt, "how": "add"}, {"op": "norm", "i": 1, "text": [A]}])
    return progs


def late_errors(c):
    """Long files with one thing wrong, anywhere in them."""
    progs = []
    for size in (4090, 8190, 66000, (1 << 20) + 50, scale(2100000, 17000000)):
        for f in (file_bad("w/d.csv", b"from,to\na,b\n" + b"\n" * size + b"\xff,a\n"),
                  file_bad("w/d.yaml", b"items:\n- from: a\n  to: b\n" + b"#\n" * (size // 2) + b"- from: [\n"),
                  file_bad("w/d.yaml", b"items:\n- from: a\n  to: b\n" + b"# \n" * (size // 3) + b"# \xff\n"),
                  dict(file_yaml("w/d.yaml", ymap([[ystr("items"), yseq([gen.NUM])]]), c.rng), b=(b"\n" * size + b"items:\n- 5\n").hex())):
            fmt = f["path"][-4:].lstrip(".")
            progs.append([dict(RESET), f, {"op": "tlit", "t": 1, "items": []}, {"op": "cfg", "i": 1, "path": f["path"], "ext": fmt},
                          {"op": "tload", "t": 1, "path": f["path"], "fmt": fmt, "how": c.rng.choice(["from", "add"])}])
    for kind in ("list", "map", "seq", "conv", "elim", "csv") * scale(4, 20):
        n = c.rng.choice([130, 300, 300, 1100, 2100])
        its = [[[0x4E00 + k], [0x3041 + k % 80]] for k in range(n)]
        at = c.rng.choice([n // 2, n - 2, n - 1, c.rng.randrange(n)])
        wrong = clone(c.rng.choice([j for j in JUNK if j["y"] not in ("str",)]))
        if kind == "csv":
            rows = [b"from,to"] + ["".join(map(chr, f + [44] + t)).encode() for f, t in its]
            rows[1 + at] = b"\xe3\x81,a"
            fmt, f = "csv", file_bad("w/d.csv", b"\n".join(rows))
        else:
            entry = lambda f, t: ymap([[ystr("from"), ystr(f)], [ystr("to"), ystr(t)]])  # noqa: E731
            if kind == "list":
                v = yseq([entry(*i) for i in its])
                v["v"][at] = clone(c.rng.choice([gen.NUM, ystr("a"), ymap([[ystr("from"), ystr("a")]]), ymap([[ystr("to"), ystr("a")]]),
                                                 ymap([[ystr("from"), gen.NUM], [ystr("to"), ystr("a")]])]))
                doc = ymap([[ystr("items"), v]])
            elif kind == "map":
                v = ymap([[ystr(f), ystr(t)] for f, t in its])
                v["m"][at][1] = wrong if wrong["y"] != "seq" else gen.NUM
                doc = ymap([[ystr("items"), v]])
            elif kind == "seq":
                v = yseq([ystr(f) for f, t in its])
                v["v"][at] = wrong
                doc = ymap([[ystr("items"), ymap([[ystr("a"), v]])]])
            elif kind == "conv":
                v = ymap([[ystr(f), ystr(t)] for f, t in its])
                v["m"][at][1] = c.rng.choice([wrong, wrong, wrong, ystr("")])
                doc = ymap([[ystr("modifiers"), ymap([[ystr("character_converter"), v]])]])
            else:
                v = yseq([ystr(f) for f, t in its])
                v["v"][at] = c.rng.choice([wrong, wrong, wrong, ystr("")])
                doc = ymap([[ystr("modifiers"), ymap([[ystr("character_eliminator"), v]])]])
            fmt, f = "yaml", file_yaml("w/d.yaml", doc, c.rng)
        p = f["path"]
        progs.append([dict(RESET), f, {"op": "cfg", "i": 1, "path": p, "ext": fmt}, {"op": "tlit", "t": 2, "items": []},
                      {"op": "tload", "t": 1, "path": p, "fmt": fmt, "how": "from"}, {"op": "tload", "t": 2, "path": p, "fmt": fmt, "how": "add"}])
    c.trace(progs)


# ---------------------------------------------------------------- purity

def c16(c):
    # the property is not vacuous: TLC refutes it for instances with hidden state
    for name in ("none", "exact", "live"):
        c.model("Threads.tla", "Threads_%s.cfg" % name)
    for name in ("weak", "buffer"):
        rc, out = tlc("Threads.tla", "Threads_%s.cfg" % name, workers=CORES)
        if "is violated" not in out:
            raise ToolError("hidden state was not noticed: %s\n%s" % (name, out[-2000:]))
    seqs = c.model("Threads.tla", "Threads_emit.cfg")
    st = [("conv", [[[A], [B]], [[B], [SP]]]), ("trim",), ("red", B)]
    progs = []
    for part in chunks(seqs, 150):
        b = Builder(c.rng)
        ids = [b.instance(st)[0] for _ in range(2)]
        for s in part:
            for j, e in enumerate(s):
                b.ops.append({"op": "norm", "i": ids[j % 2], "text": e["text"], "want": {"p": 0, "out": e["out"]}})
        progs.append(b.ops)
    c.replay(progs, what="call sequence")

    # the same questions to many instances, in several processes and in different orders
    progs, pars = [], []
    for _ in range(scale(48, 400)):
        b = Builder(c.rng)
        sts = stages_list(c.rng, c.rng.choice([1, 1, 2, 3]))
        if c.rng.random() < 0.5:
            sts = [rlig(c.rng) if s[0] == "lig" else unique_keys(rtable(c.rng)) if s[0] == "conv" else s for s in sts]
            sts = [unique_keys(("conv", [i for i in s[1] if i[0] and i[1]])) if s[0] == "conv" else s for s in sts]
        made = [b.instance(sts) for _ in range(3)]
        texts = []
        for _ in range(5):
            t = text_for(c.rng, made[0][1], lengths(c.rng, False))
            texts += [t, t[:-1], t[::-1], [x + 1 if x == 97 else x for x in t]]
        for k in range(4):
            order = list(texts)
            c.rng.shuffle(order)
            b.ops += [{"op": "probe", "i": c.rng.choice(made)[0], "text": t} for t in order]
        # an instance of the same shape is asked the same directly before or after
        like = b.instance([twin(c.rng, st) for st in made[0][1]])[0]
        for t in texts + texts[::-1]:
            for i in c.rng.choice([[made[0][0], like], [like, made[0][0]], [like, made[0][0], like]]):
                b.ops.append({"op": "norm", "i": i, "text": t})
        if len(pars) % 2:
            # an instance with other stages is asked the same in between
            odd = b.instance(stages_list(c.rng, c.rng.choice([1, 2])))[0]
            b.ops += [{"op": "probe", "i": c.rng.choice([odd, made[0][0]]), "text": t} for t in texts + texts[::-1]]
        progs.append(b.ops)
        # long ones as well, so that the threads meet inside one call
        texts = texts + [(t * (1 + scale(3000, 12000) // len(t)))[:scale(3000, 12000)] for t in c.rng.sample([t for t in texts if t] or [[A]], 1)]
        pars.append(list(b.ops[:[o["op"] for o in b.ops].index("probe")])
                    + [{"op": "par", "i": made[0][0], "texts": texts, "threads": c.rng.choice([2, 8, 8, 24, 48]), "iters": scale(12, 60)}])
    # tables that map one character several times, read from everywhere
    for _ in range(scale(12, 120)):
        cs = [gen.rchar(c.rng) for _ in range(c.rng.choice([1, 2, 3]))]
        its = [[[c.rng.choice(cs)], [c.rng.choice([A, B, C, HI, GRIN, *cs])]] for _ in range(c.rng.choice([2, 3, 6, 15]))]
        prog = [dict(RESET), {"op": "tlit", "t": 1, "items": its}, {"op": "from_table", "i": 1, "t": 1},
                {"op": "new", "i": 2}, {"op": "add_table", "i": 2, "t": 1}, {"op": "from_table", "i": 3, "t": 1},
                file_yaml("w/c.yaml", doc_of([], its, c.rng), c.rng), {"op": "cfg", "i": 4, "path": "w/c.yaml", "ext": "yaml"}, {"op": "cfg", "i": 5, "path": "w/c.yaml", "ext": "yaml"},
                file_csv("w/c.csv", [[cps("x")]] + its, c.rng), {"op": "cfg", "i": 6, "path": "w/c.csv", "ext": "csv"}, {"op": "cfg", "i": 7, "path": "w/c.csv", "ext": "csv"}]
        prog += [{"op": "probe", "i": i, "text": t} for t in (cs, text_for(c.rng, [("conv", its)], 9)) for i in c.rng.sample(range(1, 8), 7)]
        progs.append(prog)
    # instances given up, others made in their place, asked the same
    for k in ("conv", "elim", "red", "lig", "trim", "neo", "conv", "lig"):
        st = ("lig", [[[A], [B]], [[B, HI], [A]]]) if k == "lig" else unique_keys(rstage(c.rng, (k,)))
        if k in ("conv", "elim") and not st[1]:
            st = ("conv", [[[A], [B]], [[HI], [A]]])
        prog = [dict(RESET)]
        texts = [text_for(c.rng, [st], n) for n in (1, 5, 30)] + [[A, HI, B, HI, SP]]
        way = c.rng.choice(ways(st))
        for _ in range(12):
            way = way if way in ways(st) else ways(st)[0]
            prog += make(st, way, c.rng)[0]
            prog += [{"op": c.rng.choice(["norm", "normp"]), "i": 1, "text": t} for t in texts]
            if c.rng.random() < 0.5:
                prog.append({"op": "new", "i": 1})
            st = unique_keys(twin(c.rng, st))
        progs.append(prog)
    # large parameters in which the order matters, asked the same many times in a row and in turns
    for n in [*range(9, 21), *c.rng.sample(WIDTHS, scale(4, 20))]:
        al = c.rng.sample(range(0x61, 0x7B), 3) if n < 30 else c.rng.sample(range(0x61, 0x7B), 6)
        d = {}
        while len(d) < n:
            d[tuple(c.rng.choice(al) for _ in range(c.rng.choice([1, 2, 2, 3, 3, 4, 5])))] = [c.rng.choice([65 + len(d) % 26, *al]) for _ in range(c.rng.choice([0, 1, 1, 2]))]
        keys = list(d)
        for st in (("lig", [[list(f), t] for f, t in d.items()]),
                   ("conv", [[[0x3400 + c.rng.randrange(n)], [0x3400 + c.rng.randrange(n)]] for _ in range(2 * n)]),
                   ("elim", c.rng.sample(range(0x3400, 0x3400 + 2 * n), n))):
            st = unique_keys(st)
            prog = [dict(RESET)]
            for i, x in ((1, st), (2, unique_keys(twin(c.rng, st))), (3, (st[0], gen.shuffled(c.rng, st[1])))):
                prog += make(x, "yaml", c.rng, i)[0]
            texts = [sum((list(c.rng.choice(keys)) for _ in range(6)), []) for _ in range(4)] if st[0] == "lig" else \
                [[0x3400 + c.rng.randrange(2 * n) for _ in range(20)] for _ in range(2)]
            for t in texts:
                prog += [{"op": c.rng.choice(["norm", "norm", "normp"]), "i": 1, "text": t} for _ in range(4)]
                prog += [{"op": c.rng.choice(["norm", "norm", "normp"]), "i": c.rng.choice([1, 2, 3]), "text": t} for _ in range(6)]
            progs.append(prog)
    # very many calls
    for sts in ([("neo",)], [("lig", KINDS["nest"][1]), ("conv", KINDS["swap"][1]), ("red", A)], [("preset",), ("dse",), ("trim",), ("elim", [A])]):
        b = Builder(c.rng)
        i = b.instance(sts)[0]
        pars.append(b.ops + [{"op": "par", "i": i, "texts": [cps(x) for x in ("a b", "abcab", "ｶﾞー　～a")], "threads": 8,
                              "iters": scale(3000, 12000)}])
    # the first use in a process, by several threads at once
    makes = []
    for k in range(scale(96, 400)):
        how = c.rng.choice(["preset", "use_preset", "neologdn", "use_neologdn", "from_table", "cfg", "load_rc"])
        sts = [("preset",)] if "preset" in how else [("neo",)] if "neo" in how else \
            [unique_keys(rstage(c.rng, (kind,))) for kind in c.rng.sample(["conv", "elim", "red", "lig", "neo"], 2)] + [("conv", unique_keys(rtable(c.rng))[1])]
        op = {"op": "make", "i": 1, "how": how, "texts": [text_for(c.rng, sts, n) for n in (3, 20, 200)] + [cps("Ａ ｶﾞ ～ か゛")], "threads": c.rng.choice([2, 4, 8, 8, 16, 40])}
        ops = [dict(RESET)]
        if how == "from_table":
            ops.append({"op": "tlit", "t": 1, "items": sts[-1][1]})
            op["t"] = 1
        elif how == "cfg":
            ops.append(file_yaml("o/c.yaml", doc_of(sts[:-1], sts[-1][1], c.rng), c.rng))
            op.update(path="o/c.yaml", ext="yaml")
        elif how == "load_rc":
            ops += [file_yaml("h/chanomarc.yaml", doc_of(sts[:-1], sts[-1][1], c.rng), c.rng), file_csv("w/.chanomarc.csv", [[cps("x")], [[A], [B]]], c.rng)]
        ops += [op, {"op": "norm", "i": 1, "text": op["texts"][0]}, dict(op, i=2), {"op": "norm", "i": 2, "text": op["texts"][1]}]
        makes.append(ops)
    c.trace_together([makes[k::4] for k in range(4)])
    groups = [progs[k::CORES] for k in range(CORES)]
    runs = []
    for g in groups:
        if g:
            runs += [[o for p in g for o in p] for _ in range(3)]
    c.trace_together([[r for r in runs[3 * k:3 * k + 3]] for k in range(len(runs) // 3)])
    # one at a time: every run has all the cores for its threads
    c.trace(pars, n=2)


# ---------------------------------------------------------------- the tools

def c17(c):
    uses = c.model("Cli.tla", cfg(c, "Cli.cfg", MaxArgs=scale(3, 4)))
    c.trace([fill(c, p) for p in pick(c.rng, uses, scale(2500, 15000))])
    progs = []
    for _ in range(scale(250, 3000)):
        prog = [dict(RESET)]
        ok = True
        for p in c.rng.sample(LOCS, c.rng.choice([0, 0, 1, 1, 2])):
            its = [[[gen.rchar(c.rng)], [gen.rchar(c.rng)]] for _ in range(c.rng.choice([0, 2, 5]))]
            if p.endswith("csv"):
                prog.append(file_csv(p, [[cps("from"), cps("to")]] + its, c.rng))
            else:
                mods = []
                for k in c.rng.sample(["conv", "elim", "red", "dse", "lig", "trim", "neo"], c.rng.choice([0, 1, 2])):
                    mods.append(unique_keys(rstage(c.rng, (k,))))
                prog.append(file_yaml(p, doc_of(mods, its, c.rng), c.rng))
        if c.rng.random() < 0.1:
            p = "o/b." + c.rng.choice(["csv", "yaml"])
            prog += [file_bad(p, bad_bytes(c.rng, ext(p))),
                     {"op": "env", "home": "h", "cwd": "w", "rc": {"set": True, "p": p, "e": ext(p)}, "debug": False}]
            ok = False
        prog.append({"op": "load_rc", "i": 1})
        pre, neo, dbg = (c.rng.random() < 0.5 for _ in range(3))
        if ok:
            prog += [{"op": "use_preset", "i": 1}] * pre + [{"op": "use_neologdn", "i": 1}] * neo
        for _ in range(3):
            words = [w for w, b in ((c.rng.choice(["-p", "--preset"]), pre), (c.rng.choice(["-n", "--neologdn"]), neo),
                                    (c.rng.choice(["-d", "--debug"]), dbg)) if b]
            c.rng.shuffle(words)
            args = [cps(w) for w in words]
            n = lengths(c.rng)
            text = rtext(c.rng, n)
            if c.rng.random() < 0.25:
                text = gen.ended(c.rng, text)
            text = [x for x in text if x != 0]
            has = c.rng.random() < 0.45
            stdin = rtext(c.rng, lengths(c.rng))
            if c.rng.random() < 0.25:
                stdin = gen.ended(c.rng, stdin)
            if c.rng.random() < 0.5:
                stdin = stdin + [10] + rtext(c.rng, c.rng.randrange(4))
            if has:
                if text[:1] == [45] or c.rng.random() < 0.2:
                    args += [cps("--"), text]
                else:
                    args.insert(c.rng.randrange(len(args) + 1), text)
            op = {"op": "cli", "i": 1, "ok": ok, "preset": pre, "neo": neo, "debug": dbg, "hasinput": has,
                  "input": text if has else [], "stdin": stdin, "args": args}
            if c.rng.random() < 0.08:
                w = c.rng.choice(["-x", "--text", "-i", "--input=a", "--rc", "-c", "--configfile", "-v", "--quiet", "--日本語", "-ー", "--no-preset"])
                if [45, 45] not in args:
                    op.update(ok=False, wrong=True, args=args[:])
                    op["args"].insert(c.rng.randrange(len(args) + 1), cps(w))
            elif has and c.rng.random() < 0.08:
                op.update(ok=False, wrong=True, args=args + [[A, B]])
            elif has and c.rng.random() < 0.05:
                # an argument that is no text
                b = c.rng.choice([[0xF7FF], [A, 0xF780], [0xF7E3, 0xF781], [0xF7ED, 0xF7A0, 0xF780], [0xF7C0, 0xF780], [A, B, 0xF7F4, 0xF790, 0xF780, 0xF780]])
                op.update(ok=False, wrong=True, bytes=True, args=[b if a == text else a for a in args])
            if c.rng.random() < 0.3:
                op["rust_log"] = c.rng.choice(["debug", "trace", "off", "error", "chanoma=trace", "=", "info"])
            if 10 in stdin and not has:
                if c.rng.random() < 0.5:
                    op["tail"] = bytes(c.rng.randrange(256) for _ in range(c.rng.randrange(6))).hex()
                if c.rng.random() < 0.4:
                    op["open"] = True
            elif has and c.rng.random() < 0.2:
                op["open"] = True
            if c.rng.random() < 0.3 and (has or 10 in stdin[:2000]) and len(stdin) < 1000:
                op["tty"] = c.rng.choice([["in"], ["out"], ["in", "out"], ["err"], ["out", "err"], ["in", "out", "err"]])
            prog.append(op)
        progs.append(prog)
    # words that mean something elsewhere are texts like any other
    here = ["x.txt", "../o/x.csv", "chanomarc.csv", "."]
    words = c.rng.sample(WORDS, len(WORDS))
    for group in chunks(words + here, 12):
        prog = [dict(RESET), file_csv("w/chanomarc.csv", [[cps("from"), cps("to")], [[A], [B]]], c.rng), file_csv("w/x.txt", [[cps("from"), cps("to")], [[A], [B]]], c.rng),
                file_csv("o/x.csv", [[cps("from"), cps("to")], [[A], [B]]], c.rng), {"op": "load_rc", "i": 1}]
        for w in group:
            w = cps(w)
            lead = c.rng.choice([[], [], [], [A], [SP]])
            for text, where in ((w, "arg"), (w, "in"), (lead + w + c.rng.choice([[], [B], [SP]]) + w, c.rng.choice(["arg", "in"]))):
                has = where == "arg"
                if has:
                    bare = text[:1] != [45] or text == [45]
                    args = [text] if bare and c.rng.random() < 0.7 else [cps("--"), text]
                else:
                    args = [[45, 45]] * (c.rng.random() < 0.2)
                prog.append({"op": "cli", "i": 1, "ok": True, "preset": False, "neo": False, "debug": False, "hasinput": has, "input": text if has else [],
                             "stdin": cps("other\n") if has else text + c.rng.choice([[], [10], [10, A, 10]]), "args": args})
        progs.append(prog)
    # long arguments and long lines, and what comes after them
    for n in (255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, scale(100000, 300000)):
        st = c.rng.choice([("preset",), ("neo",)])
        pre, neo = st[0] == "preset", st[0] == "neo"
        prog = [dict(RESET), {"op": "load_rc", "i": 1}, {"op": "use_preset" if pre else "use_neologdn", "i": 1}]
        for body in ([120], [0x30A2, 120], [0xFF21, GRIN]):
            size = lambda xs: sum(len(chr(x).encode()) for x in xs)  # noqa: E731
            t = (body * n)[:max(1, n * len(body) // max(1, size(body)))]
            for has in (False, True):
                if has and size(t) > 120000:
                    continue
                flags = [cps("-p")] * pre + [cps("-n")] * neo + [cps("-d")] * (n % 2)
                prog.append({"op": "cli", "i": 1, "ok": True, "preset": pre, "neo": neo, "debug": bool(n % 2), "hasinput": has, "input": t if has else [],
                             "stdin": t + c.rng.choice([[], [10], [13, 10], [10, 10, A], [10] + t[:50]]) if not has else [A], "args": flags + [t] * has})
        progs.append(prog)
    # lines of a mebibyte
    for n, u in ((2 ** 20 - 1, [120]), (2 ** 20, [120]), (2 ** 20 + 3, [0x61]), (349526, [0x30A2]), (scale(2 ** 20 + 5, 2 ** 22 + 5), [0x62])):
        progs.append([dict(RESET), {"op": "load_rc", "i": 1}, {"op": "cli", "i": 1, "ok": True, "preset": False, "neo": False, "debug": False,
                                                              "hasinput": False, "input": [], "stdin": u * n + [10, A], "args": []}])
    c.trace([surrounded(c, p) for p in progs])


WORDS = ["-", "--", "---", "-p", "-h", "-V", "--help", "--version", "--preset", "-1", "-0.5", "-\u30fc", "~", "~/x", "@x.txt", "@-", "@", "$HOME", "${HOME}", "%HOME%", "$(ls)", "`ls`", "$0", "%s", "%d%n",
         "%", "%%", "{}", "{0}", "\\n", "\\t", "\\r\\n", "\\0", "\\\\", "\\", "\\u0041", "\\u{41}", "\\x41", "\\e[0m", "&amp;", "&#65;", "%41", "+", "=A", "U+0041", "''", "\"\"", "'a'", "\"a\"", "*",
         "?", "[x]", "{a,b}", "/dev/stdin", "/dev/null", "file:x.txt", "<x.txt", ">x", "|", "&", ";", "#", "!", "!!", "^", "a=b", "key: A", "from,to", "null", "true", "false", "0", "1e3", "0x41", "NaN",
         "exit", "quit", "q", ":q", "EOF", "END", "help", "version", "stdin", "input", "none", "\x1b[31mA\x1b[0m", "\x04", "\x1a", "\x03", "\x08", "\x7f", "\ufeffA", "A\ufeff", "\ufeff", "\u200b", "\u200e",
         "\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\xa0", "\u3000", "\xad", "\ufffd", "\ufffe", "\U0010ffff", "\ue000"]


def set_chars():
    return [x for k in ("fwalnum", "fwpunct", "halfkana", "kanapunct", "space", "tildes", "kata", "hira") for x in CLASSES[k]] \
        + list(range(0x3300, 0x3400)) + [0x3000, 0x2018, 0x2019, 0x201C, 0x201D, 0x20A9, 0xA2, 0xA3, 0xA5, 0xAC, 0x27E6]


PYBAD = [l.split('"')[1] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyrun.py")) if l.startswith('    "') and "lambda c, t:" in l]


def c18(c):
    hists = c.model("Py.tla", cfg(c, "Py.cfg", Depth=scale(3, 4)))
    c.trace([fill(c, p) for p in pick(c.rng, hists, scale(1500, 8000))])
    progs = [[dict(RESET), {"op": "pyset", "name": n, "chars": sorted(set(set_chars()))}] for n in SETS[:5]]
    for _ in range(scale(120, 1500)):
        prog = [dict(RESET)]
        its = [[[gen.rchar(c.rng)], [gen.rchar(c.rng)]] for _ in range(4)]
        prog.append(file_csv("o/a.csv", [[cps("from"), cps("to")]] + its, c.rng))
        mods = [unique_keys(rstage(c.rng, (k,))) for k in c.rng.sample(["conv", "elim", "red", "dse", "lig", "trim", "neo"], 2)]
        prog.append(file_yaml("o/b.yaml", doc_of(mods, its, c.rng), c.rng))
        if c.rng.random() < 0.4:
            prog.append(dict(prog[1], path="h/.config/chanoma/.chanomarc.csv"))
        if c.rng.random() < 0.4:
            prog.append(dict(prog[2], path="w/chanomarc.yml"))
        tables = {"set": False}
        items = []
        if c.rng.random() < 0.6:
            pre = c.rng.random() < 0.4
            prog.append({"op": "pytabnew", "t": 1, "preset": pre,
                         "csv": {"set": True, "p": "o/a.csv"} if c.rng.random() < 0.4 else {"set": False},
                         "yaml": {"set": True, "p": "o/b.yaml"} if c.rng.random() < 0.4 else {"set": False},
                         "spell": c.rng.choice(["plain", "order"])})
            tables = {"set": True, "t": 1}
            items = (["all"] if pre else []) + ([its] if prog[-1]["csv"]["set"] or prog[-1]["yaml"]["set"] else [])
            for _ in range(c.rng.choice([0, 1, 2])):
                x = c.rng.choice([{"c": "lit", "items": [[[gen.rchar(c.rng)], [gen.rchar(c.rng)]] for _ in range(3)]}, {"c": "lit", "items": ritems(c.rng)},
                                  {"c": "set", "name": c.rng.choice(SETS[:4])}])
                prog.append({"op": "pytabadd", "t": 1, "c": x})
                items.append(x["items"] if x["c"] == "lit" else x["name"])
                if x["c"] == "lit" and c.rng.random() < 0.3:
                    # first as what only looks like a correspondence
                    prog.insert(-1, {"op": "pytabadd", "t": 1, "c": dict(x, **{"as": "duck"})})
        bad = lambda: prog.extend({"op": "pybad", "i": 1, "t": 1, "what": w} for w in c.rng.sample(PYBAD, c.rng.choice([0, 0, 1, 3])))  # noqa: E731
        if tables["set"]:
            bad()
        cf = c.rng.choice([{"set": False}, {"set": False}, {"set": True, "p": "o/a.csv", "e": "csv"}, {"set": True, "p": "o/b.yaml", "e": "yaml"}])
        if cf["set"] and c.rng.random() < 0.3:
            cf["val"] = "../" + cf["p"]
        rc, pre, neo = (c.rng.random() < 0.4 for _ in range(3))
        prog.append({"op": "pynew", "i": 1, "cfg": cf, "rc": rc, "table": tables, "preset": pre, "neo": neo, "spell": c.rng.choice(["", "all", "order"])})
        # the same in Rust
        prog.append({"op": "cfg", "i": 101, "path": cf["p"], "ext": cf["e"]} if cf["set"] else
                    {"op": "load_rc", "i": 101} if rc else {"op": "new", "i": 101})
        if tables["set"]:
            prog.append({"op": "tlit", "t": 101, "items": []})
            for x in items:
                prog.append({"op": "tadd", "t": 101, "c": {"c": "set", "name": x} if isinstance(x, str) else {"c": "lit", "items": x}})
            prog.append({"op": "add_table", "i": 101, "t": 101})
        prog += [{"op": "use_preset", "i": 101}] * pre + [{"op": "use_neologdn", "i": 101}] * neo
        sts = mods + [("conv", its)]
        lits = [i for x in items if not isinstance(x, str) for i in x]
        if lits:
            prog.append({"op": "pynorm", "i": 1, "ref": 101, "text": [x for i in lits for w in i for x in w]})
            sts.append(("conv", lits))
        for k in range(8):
            if k == 4 and tables["set"]:
                prog.append({"op": "pytabadd", "t": 1, "c": {"c": "lit", "items": [[[A], [Z]], [[SP], [Y]]]}})
                bad()
            if k == 6 and c.rng.random() < 0.3:
                prog.append({"op": "pydel", "t": 1})
            prog.append({"op": "pynorm", "i": 1, "ref": 101, "text": text_for(c.rng, sts, lengths(c.rng))})
            if c.rng.random() < 0.2:
                prog[-1]["as"] = "sub"
        if c.rng.random() < 0.15:
            prog.append({"op": "pypar", "i": 1, "ref": 101, "texts": [text_for(c.rng, sts, n) for n in (0, 3, 40, 400, 3000)],
                         "threads": c.rng.choice([2, 4, 8]), "iters": scale(20, 100)})
        progs.append(prog)
    # what is in a table shows in the instances made from it, after every addition
    for _ in range(scale(60, 600)):
        prog = [dict(RESET), {"op": "pytabnew", "t": 1, "preset": c.rng.random() < 0.2, "csv": {"set": False}, "yaml": {"set": False}}, {"op": "tlit", "t": 101, "items": []}]
        if prog[1]["preset"]:
            prog.append({"op": "tadd", "t": 101, "c": {"c": "set", "name": "all"}})
        lits = []
        for k in range(c.rng.choice([1, 2, 3, 5])):
            x = {"c": "lit", "items": c.rng.choice([ritems, lambda r: rtable(r)[1], lambda r: [i for i in rtable(r)[1] if i[0] == i[1]] + ritems(r)])(c.rng)}
            lits += x["items"]
            prog += [{"op": "pytabadd", "t": 1, "c": x}, {"op": "tadd", "t": 101, "c": x},
                     {"op": "pynew", "i": 1, "cfg": {"set": False}, "rc": False, "table": {"set": True, "t": 1}, "preset": False, "neo": False, "spell": c.rng.choice(["", "all", "order"])},
                     {"op": "new", "i": 101}, {"op": "add_table", "i": 101, "t": 101},
                     {"op": "pynorm", "i": 1, "ref": 101, "text": [y for i in lits for w in i for y in w]}]
        progs.append(prog)
    # file names that look as if they meant some other file
    for _ in range(scale(120, 1200)):
        name, files = odd_rc(c, "h", "w", ())
        what = c.rng.choice(["cfg", "cfg", "csv", "yaml"])
        if c.rng.random() < 0.2:
            v = c.rng.choice(["", ".", "..", "/", "./", " ", "None", "null"])
            name = {"set": True, "p": os.path.normpath("w/" + v) if v not in ("", "/", " ") else "w/ " if v == " " else v, "e": ext(v) if v not in (".", "..") else "", "val": v}
        if what == "yaml" or what == "cfg" and c.rng.random() < 0.4:
            # the same names of YAML files
            y = lambda p: p[:-4] + ".yaml" if p.endswith(".csv") else p  # noqa: E731
            for k in ("p", "val"):
                if k in name:
                    name[k] = y(name[k])
            name["e"] = ext(name.get("val", name["p"])) if name.get("val") not in (".", "..") else ""
            files = [file_yaml(y(f["path"]), doc_of([], [[[A], [0x30CD]]], c.rng), c.rng) for f in files if f["path"].endswith(".csv")]
        name = {k: v for k, v in name.items() if k != "e"} if what != "cfg" else name
        prog = [dict(RESET)] + files + [{"op": "pynew", "i": 1, "cfg": {"set": False}, "rc": False, "table": {"set": False}, "preset": False, "neo": False},
                                        {"op": "new", "i": 101}, {"op": "pytabnew", "t": 1, "preset": False, "csv": {"set": False}, "yaml": {"set": False}}]
        if what == "cfg":
            prog += [{"op": "pynew", "i": 1, "cfg": name, "rc": c.rng.random() < 0.3, "table": {"set": False}, "preset": False, "neo": False, "spell": c.rng.choice(["", "all", "order"])},
                     dict({"op": "cfg", "i": 101, "path": name["p"], "ext": name["e"]}, **({"val": name["val"]} if "val" in name else {}))]
        else:
            prog += [dict({"op": "pytabnew", "t": 1, "preset": False, "csv": {"set": False}, "yaml": {"set": False}, "spell": c.rng.choice(["plain", "order"])}, **{what: name}),
                     {"op": "pynew", "i": 2, "cfg": {"set": False}, "rc": False, "table": {"set": True, "t": 1}, "preset": False, "neo": False},
                     {"op": "tlit", "t": 101, "items": []}, {"op": "from_table", "i": 102, "t": 101},
                     dict({"op": "tload", "t": 101, "path": name["p"], "fmt": what, "how": "add"}, **({"val": name["val"]} if "val" in name else {})),
                     {"op": "from_table", "i": 102, "t": 101},
                     {"op": "pynorm", "i": 2, "ref": 102, "text": [A, B, A]}]
        prog.append({"op": "pynorm", "i": 1, "ref": 101, "text": [A, B, A]})
        progs.append(prog)
    # every call that cannot be
    for w in PYBAD:
        progs.append([dict(RESET), {"op": "pytabnew", "t": 1, "preset": False, "csv": {"set": False}, "yaml": {"set": False}},
                      {"op": "pytabadd", "t": 1, "c": {"c": "lit", "items": [[[A], [B]]]}},
                      {"op": "pynew", "i": 1, "cfg": {"set": False}, "rc": False, "table": {"set": True, "t": 1}, "preset": False, "neo": False},
                      {"op": "pybad", "i": 1, "t": 1, "what": w},
                      {"op": "pynew", "i": 2, "cfg": {"set": False}, "rc": False, "table": {"set": True, "t": 1}, "preset": False, "neo": False},
                      {"op": "tlit", "t": 101, "items": [[[A], [B]]]}, {"op": "from_table", "i": 101, "t": 101},
                      {"op": "pynorm", "i": 1, "ref": 101, "text": [A, SP, B, HI]}, {"op": "pynorm", "i": 2, "ref": 101, "text": [A, SP, B, HI]}])
    for pre, neo in ((False, False), (True, False), (False, True), (True, True)):
        prog = [dict(RESET), {"op": "pynew", "i": 1, "cfg": {"set": False}, "rc": False, "table": {"set": False}, "preset": pre, "neo": neo}]
        prog += [{"op": "new", "i": 101}] + [{"op": "use_preset", "i": 101}] * pre + [{"op": "use_neologdn", "i": 101}] * neo
        for n in (255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, scale(70000, 300000)):
            prog.append({"op": "pynorm", "i": 1, "ref": 101, "text": (c.rng.choice([[0xFF21], [A, SP, SP], [GRIN, 0xFF76], [0]]) * n)[:n]})
        progs.append(prog)
    c.trace([surrounded(c, p) for p in progs])


def asking(prog):
    """The same program, its errors looked into."""
    return [dict(o, why=True) if o["op"] in ("cfg", "load_rc", "tload", "cli", "pynew", "pytabnew") else o for o in prog]


def c20(c):
    docs = c.model("Docs.tla", cfg(c, "Docs.cfg", Wide="TRUE" if THOROUGH else "FALSE"))
    bad = [p for p in docs if any(o["op"] in ("cfg", "tload") and not o["want"]["ok"] for o in p)]
    plain = lambda p: [{k: v for k, v in o.items() if k != "want"} for o in p if o["op"] not in ("norm", "normp")]  # noqa: E731
    c.trace([asking(plain(fill(c, p))) for p in pick(c.rng, bad, scale(1200, 10000))])
    found = c.model("Discover.tla", cfg(c, "Discover.cfg", MaxFiles=2, MaxWithEnv=scale(1, 2)), timeout=800)
    bad = [p for p in found if any(o["op"] == "load_rc" and not o["want"]["ok"] for o in p)]
    c.trace([asking(plain(fill(c, p))) for p in pick(c.rng, bad, scale(600, 5000))])
    progs = [asking(p) for p in malformed(c, scale(300, 4000))]
    # several things wrong at once; told by the command line tool and in Python as well
    junk = lambda: clone(c.rng.choice(JUNK))  # noqa: E731
    for _ in range(scale(150, 1500)):
        prog = [dict(RESET)]
        for p in c.rng.sample(LOCS + ["o/x.csv", "o/y.yaml", "o/z.yml"], c.rng.choice([1, 1, 2, 3])):
            r = c.rng.random()
            if r < 0.25:
                prog.append(file_bad(p, bad_bytes(c.rng, "csv" if p.endswith("csv") else "yaml")))
            elif p.endswith("csv"):
                prog.append(file_csv(p, rows_of(c.rng), c.rng))
            else:
                ms = [[ystr(c.rng.choice([ "trim", "neologdn", "dotted_space_eliminator"])), gen.NULL]]
                for name in c.rng.sample(["trimm", "", "Ｔrim", "consecutive_character_reducer", "character_eliminator", "ligature_translator", "日本語",
                                          "trim(x)", "a\nb"], c.rng.choice([0, 1, 2])):
                    ms.insert(c.rng.randrange(len(ms) + 1), [ystr(name), junk()])
                if c.rng.random() < 0.2:
                    ms.append([clone(gen.NUM), gen.NULL])
                d = ymap([[ystr("modifiers"), ymap(ms)]] + ([[ystr("items"), junk()]] if c.rng.random() < 0.4 else []))
                c.rng.shuffle(d["m"])
                prog.append(file_yaml(p, d if distinct(d) and ligs_ok(d) else junk(), c.rng))
        rc = {"set": False}
        if c.rng.random() < 0.6:
            p = c.rng.choice([o["path"] for o in prog[1:]] + ["o/none.csv", "o/none", "o/d.yaml", "o/x.txt", "o/x", "o/ｘ.ｔ", "o/x.\uf7ff", "o/x.CSV", "o/x.csv~"])
            if p not in [o["path"] for o in prog[1:]] and p not in ("o/none.csv", "o/none"):
                prog.append(gen.mkdir(p) if p == "o/d.yaml" else file_csv(p, [[cps("from"), cps("to")], [[A], [B]]], c.rng))
            rc = {"set": True, "p": p, "e": ext(p) if ext(p) != "\uf7ff" else "?bytes"}
            if c.rng.random() < 0.4:
                rc["val"] = c.rng.choice(["", "./"]) + os.path.relpath(p, "w")
        prog.append({"op": "env", "home": "h", "cwd": "w", "rc": rc, "debug": False})
        prog += [{"op": "new", "i": 1}, {"op": "load_rc", "i": 1, "why": True}]
        if c.rng.random() < 0.5:
            prog.append({"op": "cli", "i": 1, "why": True, "ok": True, "preset": False, "neo": False, "debug": False, "hasinput": True,
                         "input": [A], "stdin": [], "args": [[A]]})
        off = {"set": False}
        prog.append({"op": "pynew", "i": 3, "cfg": off, "rc": True, "table": off, "preset": False, "neo": False, "why": True})
        for o in [o for o in prog if o["op"] == "file" and "?" not in o["path"] and "\uf7ff" not in o["path"]]:
            p = o["path"]
            prog.append({"op": "cfg", "i": 1, "path": p, "ext": ext(p), "why": True})
            prog.append({"op": "pynew", "i": 3, "cfg": {"set": True, "p": p, "e": ext(p)}, "rc": c.rng.random() < 0.3, "table": off, "preset": False,
                         "neo": False, "why": True})
            fmt = "csv" if p.endswith("csv") else "yaml"
            if ext(p) in ("csv", "yaml", "yml"):
                prog.append({"op": "pytabnew", "t": 1, "preset": c.rng.random() < 0.3, "csv": {"set": True, "p": p} if fmt == "csv" else off,
                             "yaml": {"set": True, "p": p} if fmt == "yaml" else off, "why": True})
        progs.append(prog)
    c.trace([surrounded(c, p) for p in progs])


def c19(c):
    progs = [[dict(RESET)] + [{"op": "setitems", "name": n, **x} for n in SETS for x in ({}, {"as": "const"})] +
             [{"op": "consts", "name": n} for n in SETS if n != "all"]]
    # a set less every pair by its name, and every pair by its name: nothing, and the set
    for n in SETS:
        ops = [{"c": "const", "set": x, "name": y} for x, y in CONSTS if n == x or (n == "all" and x != "cjk")]
        for op, start in (("trem", [{"op": "tadd", "t": 1, "c": {"c": "set", "name": n}}]), ("tadd", [])):
            c.rng.shuffle(ops)
            progs.append([dict(RESET), {"op": "tlit", "t": 1, "items": []}] + start + [{"op": op, "t": 1, "c": x} for x in ops[:80]])
    for _ in range(scale(120, 800)):
        prog = [dict(RESET), {"op": "tlit", "t": 1, "items": ritems(c.rng, c.rng.choice([0, 0, 3]))}]
        for _ in range(c.rng.choice([1, 2, 3, 5])):
            op = c.rng.choice(["tadd", "tadd", "trem"])
            x = named(c.rng) if c.rng.random() < 0.4 else {"c": "set", "name": c.rng.choice(SETS), **c.rng.choice([{}, {"as": "const"}])}
            prog.append({"op": op, "t": 1, "c": x, "via": c.rng.choice(["table", "builder"])})
        prog.append({"op": "from_table", "i": 1, "t": 1})
        for _ in range(2):
            prog.append({"op": "norm", "i": 1, "text": c.rng.sample(set_chars(), 60)})
        progs.append(prog)
    for n in SETS:
        if n != "cjk":
            ops = [dict(RESET), {"op": "tlit", "t": 1, "items": []}, {"op": "tadd", "t": 1, "c": {"c": "set", "name": n}},
                   {"op": "from_table", "i": 1, "t": 1}]
            progs.append(ops + [{"op": "sweep", "i": 1, "pre": cps("a"), "suf": [], "k": 1}])
            all_chars = sorted(set(set_chars()))
            progs.append(ops + [{"op": "norm", "i": 1, "text": all_chars}, {"op": "norm", "i": 1, "text": all_chars[::-1]}])
    c.trace(progs)


CHECKS = {"C%02d" % k: globals()["c%02d" % k] for k in range(1, 21)}


def main():
    pid = sys.argv[1]
    if pid == "build":
        build()
        return 0
    try:
        need_py = pid in ("C18", "C20")
        build(python=need_py or pid == "all", bins=pid in ("C12", "C17", "C18", "C20"))
        c = Check(pid)
        try:
            CHECKS[pid](c)
        except Enough:
            pass
        except ToolError:
            if not c.violations:
                c.s.close()
                raise
            traceback.print_exc()
        return c.finish()
    except ToolError as e:
        log("no answer: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        log("no answer")
        return 2


if __name__ == "__main__":
    sys.exit(main())
