"""Coprocess of the harness: executes operations on the Python module, one JSON line each."""
import gc
import json
import os
import sys
import threading

sys.path.insert(0, os.environ["VERIF_PYMOD"])
import chanoma as ch  # noqa: E402

inst, tab = {}, {}
SETS = {"digits": "Digits", "alphabets": "Alphabets", "punctuations": "Punctuations",
        "kanas": "Kanas", "cjk": "CjkCompatibilities"}


def s(cps):
    return "".join(map(chr, cps))


def cps(t):
    return [ord(c) for c in t]


def raw(t):
    """U+F780..U+F7FF stand for the bytes 0x80..0xFF."""
    return "".join(chr(ord(x) - 0xF780 + 0xDC80) if 0xF780 <= ord(x) <= 0xF7FF else x for x in t)


def enter(q):
    home, cwd = raw(q["home"]), raw(q["cwd"])
    os.makedirs(home, exist_ok=True)
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    os.environ["HOME"] = home
    if q["chanomarc"] is None:
        os.environ.pop("CHANOMARC", None)
    else:
        os.environ["CHANOMARC"] = raw(q["chanomarc"])
    for name in ("XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "APPDATA", "CHANOMA_HOME"):
        if q["xdg"] is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = os.path.join(q["root"], q["xdg"])


    for k in list(given):
        if given[k] is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = given[k]
    given.clear()
    for k, v in q["vars"].items():
        given[k] = os.environ.get(k)
        os.environ[k] = v


given = {}


def path(q, c):
    return c["val"].replace("{root}", q["root"]) if "val" in c else os.path.join(q["root"], c["p"])


def corr(c):
    if c["c"] == "set":
        return getattr(ch.characters_set, SETS[c["name"]])()
    items = [ch.Item(s(i[0]), s(i[1])) for i in c["items"]]
    if c.get("as") == "duck":
        return Duck(items)
    return ch.Correspondence(items)


class Duck:
    """Anything that has items."""

    def __init__(self, items):
        self.items = items


class Text(str):
    """A string of another class."""


class Shy:
    @property
    def items(self):
        raise KeyError("items")


LONE = chr(0xD800)
# calls that no argument list allows: name -> function of an instance and a table
BAD = {
    "norm none": lambda c, t: c.normalize(None),
    "norm number": lambda c, t: c.normalize(1),
    "norm bytes": lambda c, t: c.normalize(b"a"),
    "norm list": lambda c, t: c.normalize(["a"]),
    "norm nothing": lambda c, t: c.normalize(),
    "norm two": lambda c, t: c.normalize("a", "b"),
    "norm surrogate": lambda c, t: c.normalize("a" + LONE + " "),
    "new table number": lambda c, t: ch.Chanoma(table=1),
    "new table text": lambda c, t: ch.Chanoma(table="preset"),
    "new table items": lambda c, t: ch.Chanoma(table=ch.Correspondence([])),
    "new unknown": lambda c, t: ch.Chanoma(presets=True),
    "new many": lambda c, t: ch.Chanoma(None, False, False, False, None, None),
    "new config number": lambda c, t: ch.Chanoma(configfile=3),
    "new config surrogate": lambda c, t: ch.Chanoma(configfile=LONE + ".csv"),
    "new config nul": lambda c, t: ch.Chanoma(configfile="a" + chr(0) + ".csv"),
    "table csv number": lambda c, t: ch.Table(csv=3),
    "table csv surrogate": lambda c, t: ch.Table(csv=LONE + ".csv"),
    "table yaml nul": lambda c, t: ch.Table(yaml="a" + chr(0) + ".yaml"),
    "table unknown": lambda c, t: ch.Table(json="x.json"),
    "add number": lambda c, t: t.add(1),
    "add text": lambda c, t: t.add("ab"),
    "add method": lambda c, t: t.add({"a": "b"}),
    "add nothing": lambda c, t: t.add(),
    "add raising": lambda c, t: t.add(Shy()),
    "add not items": lambda c, t: t.add(Duck([1])),
    "add last not item": lambda c, t: t.add(Duck([ch.Item("a", "b"), ch.Item(" ", "c"), "d"])),
    "add pairs": lambda c, t: t.add(Duck([("a", "b")])),
    "item one": lambda c, t: ch.Item("a"),
    "item number": lambda c, t: ch.Item("a", 1),
    "item none": lambda c, t: ch.Item(None, "a"),
    "item surrogate": lambda c, t: ch.Item("a", LONE),
    "corr number": lambda c, t: ch.Correspondence(1),
    "corr not items": lambda c, t: ch.Correspondence([ch.Item("a", "b"), "c"]),
    "corr nothing": lambda c, t: ch.Correspondence(),
}


def shared(c, texts, threads, iters):
    """What all the threads got for each of the texts."""
    seen = [set() for _ in texts]
    go = threading.Barrier(threads)

    def work(k):
        go.wait()
        for n in range(iters):
            for j in range(len(texts)):
                j = (j + k + n) % len(texts)
                try:
                    seen[j].add(c.normalize(texts[j]))
                except Exception as e:  # noqa: BLE001
                    seen[j].add("raised " + type(e).__name__)

    all_ = [threading.Thread(target=work, args=(k,)) for k in range(threads)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    for t in all_:
        t.start()
    for t in all_:
        t.join()
    sys.setswitchinterval(old)
    return {"seen": [sorted(map(cps, x)) for x in seen]}


def do(q):
    op = q["op"]
    if op == "reset":
        inst.clear()
        tab.clear()
        os.chdir("/")
        return {}
    enter(q)
    if op == "pynew":
        if q.get("spell") == "order":
            # by place instead of by name
            args = [tab[q["table"]["t"]] if q["table"]["set"] else None, q["neo"], q["preset"], q["rc"],
                    path(q, q["cfg"]) if q["cfg"]["set"] else None]
            inst[q["i"]] = ch.Chanoma(*args)
            return {"ok": True}
        kw = {}
        if q["table"]["set"]:
            kw["table"] = tab[q["table"]["t"]]
        if q["preset"] or q.get("spell"):
            kw["preset"] = q["preset"]
        if q["neo"] or q.get("spell"):
            kw["neologdn"] = q["neo"]
        if q["rc"] or q.get("spell"):
            kw["rc"] = q["rc"]
        if q["cfg"]["set"]:
            kw["configfile"] = path(q, q["cfg"])
        inst[q["i"]] = ch.Chanoma(**kw)
        return {"ok": True}
    if op == "pynorm":
        return {"out": cps(inst[q["i"]].normalize((Text if q.get("as") == "sub" else str)(s(q["text"]))))}
    if op == "pybad":
        BAD[q["what"]](inst.get(q["i"]), tab.get(q["t"]))
        return {"ok": True}
    if op == "pypar":
        return shared(inst[q["i"]], [s(t) for t in q["texts"]], q["threads"], q["iters"])
    if op == "pydel":
        tab.pop(q["t"], None)
        gc.collect()
        return {}
    if op == "pytabnew":
        if q.get("spell") == "order":
            tab[q["t"]] = ch.Table(q["preset"], *[path(q, q[f]) if q[f]["set"] else None for f in ("csv", "yaml")])
            return {"ok": True}
        kw = {}
        if q["preset"]:
            kw["preset"] = True
        for f in ("csv", "yaml"):
            if q[f]["set"]:
                kw[f] = path(q, q[f])
        tab[q["t"]] = ch.Table(**kw)
        return {"ok": True}
    if op == "pytabadd":
        tab[q["t"]].add(corr(q["c"]))
        return {"ok": True}
    if op == "pyset":
        # an item cannot be looked into from Python: what a table of just it converts
        out = []
        for item in getattr(ch.characters_set, SETS[q["name"]])().items:
            t = ch.Table()
            t.add(ch.Correspondence([item]))
            c = ch.Chanoma(table=t)
            res = cps(c.normalize(s(q["chars"])))
            out.append([[a, b] for a, b in zip(q["chars"], res) if a != b])
        return {"items": sorted(out)}
    raise SystemExit("unknown " + op)


for line in sys.stdin:
    q = json.loads(line)
    try:
        r = do(q)
    except Exception as e:  # noqa: BLE001
        r = {"ok": False, "raised": type(e).__name__}
        if q.get("why"):
            r["msg"] = cps(str(e))
    except BaseException as e:  # a panic of the extension
        if type(e).__name__ != "PanicException":
            raise
        r = {"crash": 1}
    r.setdefault("crash", 0)
    print(json.dumps(r), flush=True)
