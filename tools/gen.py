"""Random and systematic inputs.  Everything here chooses operations; nothing here says what
they should give: that is for the specification."""
import unicodedata


SP, CHOONPU = 32, 0x30FC
MOD = {"conv": "character_converter", "elim": "character_eliminator",
       "red": "consecutive_character_reducer", "dse": "dotted_space_eliminator",
       "lig": "ligature_translator", "trim": "trim", "neo": "neologdn"}
RESET = {"op": "reset"}


def cps(s):
    return [ord(c) for c in s]


# ---------------------------------------------------------------- texts

TILDES = [126, 8764, 8766, 12316, 12336, 65374]
CHOONS = [65123, 65392, 8212, 8213, 9472, 9473]
HYPHENS = [727, 1418, 8208, 8209, 8210, 8211, 8259, 8315, 8331, 8722, 65293, 45, 173, 8722 + 1]
CLASSES = {
    "lower": list(range(97, 123)),
    "upper": list(range(65, 91)),
    "digit": list(range(48, 58)),
    "space": [SP],
    "spaces": [SP, 9, 10, 13, 11, 12, 0x3000, 0xA0, 0x2003, 0x200B, 0x2028, 0x85],
    "punct": list(range(33, 48)) + list(range(58, 65)) + list(range(91, 97)) + list(range(123, 127)),
    "fwalnum": [c + 65248 for c in (*range(48, 58), *range(65, 91), *range(97, 123))],
    "fwpunct": [c + 65248 for c in (*range(33, 48), *range(58, 65), *range(91, 97), *range(123, 127))]
    + [8221, 8217, 8220, 8216, 65509, 65504, 65505, 65506, 12316],
    "halfkana": list(range(65377, 65440)),
    "hira": list(range(0x3041, 0x3097)),
    "kata": list(range(0x30A1, 0x30FB)),
    "ten": [ord(c) for c in "かきくけこさしすせそたちつてとはひふへほうカキクケコサシスセソタチツテトハヒフヘホウ"],
    "marks": [12443, 12444, 0x3099, 0x309A, 0xFF9E, 0xFF9F],
    "mark": [12443, 12444],
    "choonpu": [CHOONPU],
    "choonpus": CHOONS + [CHOONPU],
    "hyphens": HYPHENS,
    "tildes": TILDES,
    "kanji": [ord(c) for c in "漢字日本語正規化処理一二三十人"],
    "latin2": [0xE9, 0xDF, 0x100, 0x3B1, 0x416, 0xFF, 0x80, 0x7FF],
    "astral": [0x1F600, 0x20BB7, 0x10000, 0x10FFFF, 0x1F1EF, 0x1F468],
    "odd": [0, 1, 27, 127, 0xFEFF, 0xFFFD, 0xFFFF, 0xFDD0, 0x200D, 0xD7FF, 0xE000, 0x301, 0xFE0F],
    "compat": list(range(0x3300, 0x3400, 7)),
    "kanapunct": [0x3001, 0x3002, 0x300C, 0x300D, 0x30FB, 0xFF61, 0xFF62, 0xFF63, 0xFF64, 0xFF65],
}
NAMES = sorted(CLASSES)


# sequences that something other than a list of characters takes for one thing
UNITS = [cps(u) for u in (
    "\r\n", "e\u0301", "\u00e9", "か\u3099", "が", "は\u309A", "ﾊﾟ", "ｶﾞ", "か゛", "\U0001F1EF\U0001F1F5",
    "\U0001F468\u200D\U0001F469\u200D\U0001F467", "❤\uFE0F", "\U0001F44D\U0001F3FD", "1\uFE0F\u20E3", "\u1112\u1161\u11AB", "葛\U000E0100",
    "ﬁ", "ß", "ẞ", "İ", "ı", "K", "Å", "Ω", "㍿", "①", "...", "…", "\\n", "\\r\\n", "%s", "$0", "$1", "${1}", "\\1", "&amp;", "<br>",
    "\x1b[0m", "\u202Eabc\u202C", "\uFEFF", "[a-z]", ".*", "^a$", "(?i)", "--", "#", "# a", "a: b", "- a", '""', "''", "\t ", " \t", "\u3000 ",
    "\n\n", "\x00", "\x7f", "\x80", "\u2028", "\u0300\u0301\u0302")]


def rtext(rng, n, names=None, runs=0.3):
    """n characters from a few classes, with runs."""
    if names is None:
        names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 4, 6, len(NAMES)]))
    pool = [CLASSES[k] if isinstance(k, str) else [k] for k in names]
    out = []
    while len(out) < n:
        if rng.random() < 0.03:
            out.extend(rng.choice(UNITS))
            continue
        c = rng.choice(rng.choice(pool))
        out.append(c)
        if rng.random() < runs:
            out.extend([c] * min(rng.choice([1, 1, 2, 3, 8, 17]), n - len(out)))
    return out[:n]


def lengths(rng, big=True):
    """Mostly short, sometimes around the sizes at which things change."""
    r = rng.random()
    if r < 0.60:
        return rng.randrange(0, 12)
    if r < 0.85:
        return rng.randrange(12, 70)
    if r < 0.97 or not big:
        return rng.choice([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    return rng.choice([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097])


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


# ---------------------------------------------------------------- YAML and CSV

def ystr(s):
    return {"y": "str", "s": cps(s) if isinstance(s, str) else list(s)}


def yseq(v):
    return {"y": "seq", "v": v}


def ymap(v):
    return {"y": "map", "m": v}


NULL, BOOL, NUM = {"y": "null"}, {"y": "bool"}, {"y": "num"}
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_あいうかきくカキク漢字")
WORDS = {"null", "true", "false", "yes", "no", "on", "off", "y", "n"}


def raw(c):
    """Beyond ASCII, what may stand in a YAML file as it is."""
    return (0xA1 <= c < 0xD800 or 0xE000 <= c < 0xFFFE or c >= 0x10000) and c not in (0xAD, 0x2028, 0x2029, 0xFEFF)


def scalar_str(s, rng):
    t = "".join(map(chr, s))
    styles = ["double"]
    if t and all(x in SAFE or raw(ord(x)) and not x.isspace() for x in t) and t.lower() not in WORDS:
        styles += ["plain", "plain"]
    if all(0x20 <= c < 0x7F or raw(c) for c in s):
        styles.append("single")
    st = rng.choice(styles)
    if st == "plain":
        return t
    if st == "single":
        return "'" + t.replace("'", "''") + "'"
    out = []
    for c in s:
        if c == 34:
            out.append('\\"')
        elif c == 92:
            out.append("\\\\")
        elif c == 10:
            out.append("\\n")
        elif c == 9:
            out.append("\\t")
        elif c == 13:
            out.append("\\r")
        elif 0x20 <= c < 0x7F or (raw(c) and rng.random() < 0.8):
            out.append(chr(c))
        elif c < 0x100:
            out.append("\\x%02x" % c)
        elif c < 0x10000:
            out.append("\\u%04x" % c)
        else:
            out.append("\\U%08x" % c)
    return '"' + "".join(out) + '"'


ANCHORS = {}        # scalars of the document being written that have a name
PRINT = {chr(c) for c in range(0x20, 0x7F)} | SAFE


def value_str(s, rng):
    """A string that is a value or an element: it may have a name, a tag, or be a reference."""
    key = tuple(s)
    if key in ANCHORS and rng.random() < 0.6:
        return "*" + ANCHORS[key]
    t = scalar_str(s, rng)
    if ANCHORS.get("on") and key not in ANCHORS and rng.random() < 0.5:
        ANCHORS[key] = "a%d" % len(ANCHORS)
        return "&" + ANCHORS[key] + " " + t
    return t


def literal(s, rng, ind):
    """The lines of a block scalar: its header, then the rest."""
    t = "".join(map(chr, s))
    body = t[:-1] if t.endswith("\n") else t
    lines = body.split("\n")
    if not all(l and set(l) <= PRINT and l[0] != " " and l[-1] != " " for l in lines):
        return None
    folded = len(lines) == 1 and rng.random() < 0.5
    return [(">" if folded else "|") + ("" if t.endswith("\n") else "-")] + [" " * ind + l for l in lines]


def flow(n, rng):
    y = n["y"]
    if y == "null":
        return rng.choice(["null", "~"])
    if y == "bool":
        return rng.choice(["true", "false"])
    if y == "num":
        return rng.choice(["1", "42", "-7", "1.5", "0x1f"])
    if y == "str":
        return value_str(n["s"], rng)
    sep = rng.choice([", ", ","])
    if y == "seq":
        return "[" + sep.join(flow(v, rng) for v in n["v"]) + "]"
    return "{" + sep.join(key_text(k, rng) + ": " + flow(v, rng) for k, v in n["m"]) + "}"


def key_text(k, rng):
    return scalar_str(k["s"], rng) if k["y"] == "str" else flow(k, rng)


def block(n, rng, ind):
    """Lines of a block node, or None if it has to be inline."""
    y = n["y"]
    pad = " " * ind
    if y == "seq" and n["v"] and rng.random() < 0.75:
        lines = []
        for v in n["v"]:
            b = block(v, rng, ind + 2)
            l = literal(v["s"], rng, ind + 2) if v["y"] == "str" and rng.random() < 0.1 else None
            if l is not None:
                lines.append(pad + "- " + l[0])
                lines.extend(l[1:])
            elif b is None:
                lines.append(pad + "- " + flow(v, rng))
            else:
                lines.append(pad + "- " + b[0][ind + 2:])
                lines.extend(b[1:])
        return lines
    if y == "map" and n["m"] and rng.random() < 0.8 and all(k["y"] in ("str", "num", "bool") for k, _ in n["m"]):
        lines = []
        for k, v in n["m"]:
            step = rng.choice([1, 2, 2, 4])
            key = pad + key_text(k, rng) + ":"
            if rng.random() < 0.03 and k["y"] == "str":
                key = pad + "? " + key_text(k, rng) + "\n" + pad + ":"
            b = block(v, rng, ind + step)
            l = literal(v["s"], rng, ind + step) if v["y"] == "str" and rng.random() < 0.1 else None
            if l is not None:
                lines.append(key + " " + l[0])
                lines.extend(l[1:])
            elif b is not None:
                lines.append(key)
                lines.extend(b)
            elif v["y"] == "null" and rng.random() < 0.6:
                lines.append(key)
            else:
                lines.append(key + " " + flow(v, rng))
        return lines
    return None


def render_yaml(doc, rng):
    ANCHORS.clear()
    if rng.random() < 0.15:
        ANCHORS["on"] = "on"
    b = block(doc, rng, 0)
    lines = [flow(doc, rng)] if b is None else b
    if rng.random() < 0.2:
        lines = ["---"] + lines
    if rng.random() < 0.2:
        lines = ["# a comment"] + lines
    if rng.random() < 0.1:
        lines.append("# the end")
    nl = "\r\n" if rng.random() < 0.12 else "\n"
    text = "\n".join(lines) + ("\n" if rng.random() < 0.9 else "")
    return (b"\xef\xbb\xbf" if rng.random() < 0.08 else b"") + text.replace("\n", nl).encode("utf-8")


def render_csv(rows, rng):
    crlf = rng.random() < 0.3
    out = []
    for r in rows:
        fs = []
        for f in r:
            t = "".join(map(chr, f))
            must = t == "" and len(r) == 1 or any(c in t for c in ',"\r\n') \
                or t.startswith("\ufeff")
            if must or rng.random() < 0.15:
                t = '"' + t.replace('"', '""') + '"'
            fs.append(t)
        out.append(",".join(fs))
        if rng.random() < 0.05:
            out.append("")
    nl = "\r\n" if crlf else "\n"
    s = nl.join(out)
    if out and rng.random() < 0.85:
        s += nl
    return s.encode("utf-8")


def csv_text(rows, rng):
    """The text of a CSV file with these rows, with every freedom there is in writing it."""
    q = rng.choice([0.0, 0.1, 0.5, 1.0])
    nls = rng.choice([["\n"], ["\r\n"], ["\r"], ["\n", "\r\n", "\r"], ["\n", "\n\n", "\r\n\r\n", "\n\r\n\r"]])
    s = "\ufeff" if rng.random() < 0.15 else ""
    s += rng.choice(nls) if rng.random() < 0.1 else ""
    for k, r in enumerate(rows):
        fs = []
        for f in r:
            t = "".join(map(chr, f))
            must = t == "" and len(r) == 1 or any(x in t for x in ',"\r\n') or t.startswith("\ufeff") and not s
            fs.append('"' + t.replace('"', '""') + '"' if must or rng.random() < q else t)
        s += ",".join(fs)
        if k < len(rows) - 1 or rng.random() < 0.8:
            s += rng.choice(nls)
    return cps(s)


# ---------------------------------------------------------------- files

def file_yaml(path, doc, rng):
    return {"op": "file", "path": path, "x": {"t": "file", "f": "yaml", "doc": doc},
            "b": render_yaml(doc, rng).hex()}


def file_csv(path, rows, rng):
    return {"op": "file", "path": path, "x": {"t": "file", "f": "csv", "rows": rows},
            "b": render_csv(rows, rng).hex()}


def file_csv_text(path, text):
    return {"op": "file", "path": path, "x": {"t": "file", "f": "csv", "text": text},
            "b": "".join(map(chr, text)).encode("utf-8").hex()}


def file_bad(path, data):
    return {"op": "file", "path": path, "x": {"t": "file", "f": "bad"}, "b": data.hex()}


def mkdir(path):
    return {"op": "file", "path": path, "x": {"t": "dir"}, "b": ""}


def special(path, kind):
    """Something there that is no regular file: a link to nothing, to itself or to a directory, or a
    socket; or a regular file that cannot be read."""
    if kind == "eio":
        return {"op": "file", "path": path, "x": {"t": "file", "f": "eio"}, "b": ""}
    return {"op": "file", "path": path, "x": {"t": kind}, "b": ""}


# ---------------------------------------------------------------- stages
# ("conv", [[from, to], ...])  ("elim", [c, ...])  ("red", c)  ("dse",)  ("lig", [[f, t], ...])
# ("trim",)  ("neo",)  ("preset",)

def more(w, rng):
    """Where one character is asked for, what comes after it means nothing."""
    if rng is None or not w or rng.random() > 0.3:
        return list(w)
    c = w[0]
    return [*w, *rng.choice([[45, min(c + 2, 0xD7FF) if c < 0xD800 else c], [c], [c + 1 if c < 0xD7FF else c], [SP], [46, 46, 122], [44, c], [0x301], [0xFE0F], [40], [10], rtext(rng, 3)])]


def modifier(st, rng=None):
    k = st[0]
    rng = rng if rng and rng.random() < 0.2 else None
    if k == "conv":
        v = ymap([[ystr(more(f, rng)), ystr(more(t, rng))] for f, t in st[1]])
    elif k == "elim":
        v = yseq([ystr(more([c], rng)) for c in st[1]])
    elif k == "red":
        v = ystr(more([st[1]], rng))
    elif k == "lig":
        v = ymap([[ystr(f), ystr(t)] for f, t in st[1]])
    else:
        v = NULL
    return [ystr(MOD[k]), v]


def entry(f, t, rng=None):
    """An entry of a list of items; its keys stand in any order, others mean nothing."""
    e = [[ystr("from"), ystr(f)], [ystr("to"), ystr(t)]]
    if rng and rng.random() < 0.3:
        e.reverse()
    if rng and rng.random() < 0.15:
        e.insert(rng.randrange(3), [ystr(rng.choice(["note", "From", "form", "0", "items", "too"])),
                                    rng.choice([NUM, NULL, ystr("x"), yseq([ystr(t), ystr(f)]), ymap([[ystr("to"), ystr("q")]])])])
    return ymap(e)


def doc_of(mods, items=None, rng=None):
    """A YAML document with these modifiers and items (a list of [from, to])."""
    parts = []
    if mods:
        parts.append([ystr("modifiers"), ymap([modifier(m, rng) for m in mods])])
    if items:
        if rng and rng.random() < 0.5 and len({tuple(t) for _, t in items}) == len(items):
            parts.append([ystr("items"), ymap([[ystr(t), yseq([ystr(f)]) if rng.random() < 0.5 else ystr(f)]
                                               for f, t in items])])
        else:
            parts.append([ystr("items"), yseq([entry(f, t, rng) for f, t in items])])
    if rng and rng.random() < 0.5:
        parts.reverse()
    return ymap(parts)


LOCS = [d + "/" + n + "." + e for d in ("h/.config/chanoma", "h", "w")
        for n in ("chanomarc", ".chanomarc") for e in ("csv", "yaml", "yml")]
YLOCS = [l for l in LOCS if not l.endswith("csv")]


def ext(path):
    return path.rsplit(".", 1)[1]


class Builder:
    """Builds instances with given stages, by whichever way can express them."""

    def __init__(self, rng):
        self.rng, self.ops, self.n, self.tables = rng, [dict(RESET)], 0, 0

    def new_id(self):
        self.n += 1
        return self.n

    def table(self, items):
        self.tables += 1
        if self.rng.random() < 0.3:
            # read from a file, so that it has another origin
            p = "w/t%d.%s" % (self.tables, self.rng.choice(["csv", "yaml", "yml"]))
            fmt = "csv" if p.endswith("csv") else "yaml"
            self.ops.append(file_csv(p, [[cps("x")]] + items, self.rng) if fmt == "csv" else file_yaml(p, doc_of([], items, self.rng), self.rng))
            self.ops.append({"op": "tload", "t": self.tables, "path": p, "fmt": fmt, "how": "from", "via": self.rng.choice(["file", "builder"])})
        else:
            self.ops.append({"op": "tlit", "t": self.tables, "items": items})
        return self.tables

    def single(self, st):
        """An instance with the one stage st (and perhaps an empty conversion)."""
        i, rng = self.new_id(), self.rng
        k = st[0]
        if k == "preset":
            self.ops.append({"op": "preset", "i": i})
        elif k == "neo" and rng.random() < 0.7:
            self.ops.append({"op": "neologdn", "i": i})
        elif k == "conv" and rng.random() < 0.7:
            self.ops.append({"op": "from_table", "i": i, "t": self.table(st[1])})
        else:
            p = "w/s%d.yaml" % i
            self.ops.append(file_yaml(p, doc_of([st], None, rng), rng))
            self.ops.append({"op": "cfg", "i": i, "path": p, "ext": "yaml"})
        return i

    def instance(self, stages):
        """An instance with exactly these stages, as far as they can be expressed; returns
        (id, the stages it really has)."""
        rng, i = self.rng, self.new_id()
        adds = {"preset", "neo", "conv"}
        # the tail that add calls can give
        cut = len(stages)
        while cut > 0 and stages[cut - 1][0] in adds:
            cut -= 1
        if cut and rng.random() < 0.3:
            cut = min(len(stages), cut + rng.randrange(0, 2))
        head, tail = stages[:cut], stages[cut:]
        real = []
        if head:
            files, cur, seen = [], [], set()
            for st in head:
                if st[0] == "preset":
                    st = ("neo",)
                if st[0] in seen:
                    files.append((cur, None))
                    cur, seen = [], set()
                cur.append(st)
                seen.add(st[0])
            files.append((cur, None))
            files = files[:len(YLOCS)]
            if len(files) == 1 and rng.random() < 0.6:
                p = "w/c%d.%s" % (i, rng.choice(["yaml", "yml"]))
                self.ops.append(file_yaml(p, doc_of(files[0][0], None, rng), rng))
                self.ops.append({"op": "cfg", "i": i, "path": p, "ext": "yaml"})
            else:
                locs = sorted(rng.sample(range(len(YLOCS)), len(files)))
                for k, (mods, _) in zip(locs, files):
                    self.ops.append(file_yaml(YLOCS[k], doc_of(mods, None, rng), rng))
                self.ops.append({"op": "load_rc", "i": i})
                for k in locs:
                    self.ops.append({"op": "del", "path": YLOCS[k]})
            for mods, _ in files:
                real += mods + [("conv", [])]
        else:
            if tail and rng.random() < 0.5:
                st, tail = tail[0], tail[1:]
                real.append(st)
                if st[0] == "preset":
                    self.ops.append({"op": "preset", "i": i})
                elif st[0] == "neo":
                    self.ops.append({"op": "neologdn", "i": i})
                else:
                    self.ops.append({"op": "from_table", "i": i, "t": self.table(st[1])})
            else:
                self.ops.append({"op": rng.choice(["new", "new", "default", "load_rc"]), "i": i})
        for st in tail:
            real.append(st)
            if st[0] == "preset":
                self.ops.append({"op": "use_preset", "i": i})
            elif st[0] == "neo":
                self.ops.append({"op": "use_neologdn", "i": i})
            else:
                self.ops.append({"op": "add_table", "i": i, "t": self.table(st[1])})
        return i, real

    def singles(self, real):
        return [self.single(st) for st in real]


def rchar(rng):
    return rng.choice(CLASSES[rng.choice(NAMES)])


def akin(rng, c):
    """A character that something short of the whole character takes for c: equal in its low bits,
    its high bits, all bits but one, its last bytes, its surrogates, its width or its case."""
    for _ in range(20):
        r = rng.random()
        if r < 0.35:
            m = (1 << rng.choice([7, 8, 8, 10, 12, 15, 16, 16, 16])) - 1
            d = (c & m) | (rng.randrange(0x110000) & ~m)
        elif r < 0.5:
            d = c ^ (1 << rng.randrange(21))
        elif r < 0.65:
            d = (c & 0xFFFF) | (rng.randrange(17) << 16)
        elif r < 0.8:
            d = (c & ~0xFF) | rng.randrange(256) if rng.random() < 0.5 else (c & ~0x3FF) | rng.randrange(1024)
        elif r < 0.9:
            d = c + rng.choice([1, -1, 0xFEE0, -0xFEE0, 0x60, -0x60, 32, -32])
        else:
            d = rng.choice([*map(ord, chr(c).upper() + chr(c).lower() + unicodedata.normalize("NFKD", chr(c)))])
        if 0 <= d < 0x110000 and not 0xD800 <= d < 0xE000 and d != c:
            return d
    return 97


def kindred(rng, n):
    """n characters, many of them akin to one another."""
    out = [rchar(rng)]
    while len(out) < n:
        out.append(rchar(rng) if rng.random() < 0.15 else akin(rng, rng.choice(out)))
    return out


def rstage(rng, kinds=("conv", "elim", "red", "dse", "lig", "trim", "neo", "preset")):
    k = rng.choice(kinds)
    if k in ("conv", "elim", "red") and rng.random() < 0.12:
        # some of what makes up a unit
        u = rng.choice(UNITS)
        cs = list(dict.fromkeys(rng.sample(u, rng.randrange(1, len(u) + 1))))
        return ("red", cs[0]) if k == "red" else ("elim", cs) if k == "elim" else ("conv", [[[c], [rchar(rng)]] for c in cs])
    if k == "conv":
        n = rng.choice([0, 1, 2, 3, 5, 12])
        if n > 1 and rng.random() < 0.3:
            cs = kindred(rng, 2 * n)
            return ("conv", [[[f], [t]] for f, t in zip(cs, rng.sample(cs, n))])
        return ("conv", [[[rchar(rng)], [rchar(rng)]] for _ in range(n)] if n < 12 else
                [[[c], [c + 1]] for c in range(0x61, 0x61 + n)])
    if k == "elim":
        n = rng.choice([1, 1, 2, 4])
        return ("elim", list(dict.fromkeys(kindred(rng, n) if rng.random() < 0.3 else (rchar(rng) for _ in range(n)))))
    if k == "red":
        return ("red", rchar(rng))
    if k == "lig":
        m = {}
        if rng.random() < 0.15:
            for f in rng.sample(UNITS, rng.choice([1, 1, 2])):
                m[tuple(f)] = list(rng.choice(UNITS))
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            m[tuple(rtext(rng, rng.choice([1, 2, 2, 3])))] = rtext(rng, rng.choice([0, 1, 1, 2, 3]))
        return ("lig", [[list(f), t] for f, t in m.items()])
    return (k,)


def unique_keys(st):
    """YAML mappings need distinct keys."""
    if st[0] in ("conv", "lig"):
        d = {}
        for f, t in st[1]:
            d.setdefault(tuple(f), t)
        return (st[0], [[list(f), t] for f, t in d.items()])
    return st


def mentioned(st):
    """Characters a stage is about."""
    if st[0] in ("conv", "lig"):
        return [c for f, t in st[1] for c in (*f, *t)]
    if st[0] == "elim":
        return list(st[1])
    if st[0] == "red":
        return [st[1]]
    if st[0] in ("dse", "trim"):
        return [SP, 97, 65, 48, 0x3042]
    if st[0] == "neo":
        return NEO_POOL
    return []


# what the neologdn stage is about, so that it takes more than one pass to settle
NEO_POOL = [CHOONPU, CHOONPU, CHOONPU, SP, SP, SP, *TILDES, 0x304B, 0x306F, 0x30A6, 12443, 12443, 12444, 97, 49, 0xFF61, 65123,
            65392, 8212, 45, 8208, 65293, 65313, 65297, 12288, 61, 65309]


ENDS = [[10], [13, 10], [13], [10, 10], [SP], [9], [0], [0xFEFF], [0x3000], [0x200D], [0x3099], [0xFE0F], [0x2028], [0x1F600], [0x10FFFF], [34], [92]]


def ended(rng, text):
    """The text with something at an end of it that programs like to take away."""
    return rng.choice([text + rng.choice(ENDS), rng.choice(ENDS) + text, rng.choice(ENDS) + text + rng.choice(ENDS)])


def text_for(rng, stages, n):
    """A text of about n characters that has much to do with the stages."""
    t = text_about(rng, stages, n)
    return ended(rng, t) if n and rng.random() < 0.1 else t


def text_about(rng, stages, n):
    pool = [c for st in stages for c in mentioned(st)]
    if not pool or rng.random() < 0.25:
        return rtext(rng, n)
    seqs = [f for st in stages if st[0] in ("conv", "lig") for f, _ in st[1]]
    seqs += [u for u in UNITS if not set(u).isdisjoint(pool)]
    out = []
    extra = rng.sample(NAMES, 2)
    while len(out) < n:
        r = rng.random()
        if r < 0.45:
            c = rng.choice(pool)
            if rng.random() < 0.15:
                c = akin(rng, c)
            out += [c] * rng.choice([1, 1, 1, 2, 3, 9])
        elif r < 0.65 and seqs:
            f = rng.choice(seqs)
            out += f[:rng.randrange(len(f) + 1)] if rng.random() < 0.3 else f
        elif r < 0.8:
            out += [rng.choice([SP, 97, 0x3042])] * rng.choice([1, 1, 2])
        else:
            out += rtext(rng, rng.choice([1, 2, 3]), extra)
    return out[:n]
