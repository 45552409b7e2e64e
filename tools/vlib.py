"""Building the code under test, running programs on it, and having TLC judge the results."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
PYTHON = "/opt/vp/pyvenv/bin/python3"
CORES = 8

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Enough(Exception):
    """The property is broken: the rest need not be looked at."""


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def repo_files():
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__"))
        for f in sorted(fs):
            if not f.endswith((".so", ".pyc")) and f != "Cargo.lock" and os.path.isfile(os.path.join(d, f)):
                yield os.path.normpath(os.path.join(rel, f))


def env_for_cargo(target):
    e = dict(os.environ)
    for k in ("CHANOMARC", "RUSTFLAGS", "RUST_LOG"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0", PYO3_PYTHON=PYTHON,
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="",
             PYTHONDONTWRITEBYTECODE="1")
    return e


def cargo(cwd, target, *args):
    p = subprocess.run(["cargo", *args, "--offline"], cwd=cwd, env=env_for_cargo(target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed in %s:\n%s" % (" ".join(args), cwd, p.stdout[-4000:]))


def put(path, data):
    """Write only what differs, so that time stamps tell what changed."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        pass
    with open(path, "wb") as f:
        f.write(data)
    return True


def build(python=True, bins=True):
    """Build the harness, the tools and the Python module from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256()
        tree = os.path.join(BUILD, "tree")
        seen = set()
        for f in repo_files():
            data = open(os.path.join(REPO, f), "rb").read()
            h.update(f.encode() + b"\0" + data + b"\0")
            put(os.path.join(tree, f), data)
            seen.add(os.path.join(tree, f))
        for name, dst in (("repo.lock", "Cargo.lock"), ("python.lock", "bindings/python3/Cargo.lock")):
            d = os.path.join(tree, dst)
            put(d, open(os.path.join(VERIF, "tools", name), "rb").read())
            seen.add(d)
        for d, _, fs in os.walk(tree):
            for f in fs:
                if os.path.join(d, f) not in seen:
                    os.remove(os.path.join(d, f))
        digest = h.hexdigest()
        stamp = os.path.join(BUILD, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        ht, rt = os.path.join(BUILD, "target"), os.path.join(BUILD, "target-repo")
        if old != digest and os.path.exists(ht):
            # never trust time stamps in /repo
            cargo(os.path.join(VERIF, "harness"), ht, "clean", "-p", "chanoma")

        def py():
            cargo(os.path.join(tree, "bindings/python3"), rt + "-py", "build", "--lib",
                  "--features", "pyo3/extension-module")
            pk = os.path.join(BUILD, "pymod/chanoma")
            os.makedirs(pk, exist_ok=True)
            so = open(rt + "-py/debug/libchanoma_py.so", "rb").read()
            tmp = os.path.join(pk, "chanoma.so.new")
            if put(os.path.join(pk, "chanoma.so.copy"), so) or not os.path.exists(os.path.join(pk, "chanoma.so")):
                open(tmp, "wb").write(so)
                os.replace(tmp, os.path.join(pk, "chanoma.so"))
            init = os.path.join(tree, "bindings/python3/chanoma/__init__.py")
            put(os.path.join(pk, "__init__.py"), open(init, "rb").read())

        jobs = [lambda: cargo(os.path.join(VERIF, "harness"), ht, "build")]
        if bins:
            jobs.append(lambda: cargo(tree, rt, "build", "--bins"))
        if python:
            jobs.append(py)
        with concurrent.futures.ThreadPoolExecutor() as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()
        with open(stamp, "w") as f:
            f.write(digest)
    return digest


# ---------------------------------------------------------------- scratch

class Scratch:
    """A directory for one check, removed at the end."""

    def __init__(self, name):
        base = os.path.join(VERIF, ".run")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)
        # the harness works below a short path of its own
        self.root = tempfile.mkdtemp(prefix="vchk-", dir="/var/tmp")
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def new_root(self):
        self.n += 1
        return os.path.join(self.root, "r", str(self.n))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.root, ignore_errors=True)


# ---------------------------------------------------------------- running programs

def dump(ops, path):
    with open(path, "w") as f:
        for o in ops:
            f.write(json.dumps(o, separators=(",", ":"), ensure_ascii=True))
            f.write("\n")


WORLDS = [{}, {"LANG": "ja_JP.UTF-8", "LC_ALL": "ja_JP.UTF-8", "TZ": "Asia/Tokyo", "TERM": "dumb", "NO_COLOR": "1", "COLUMNS": "3"},
          {"LANG": "C", "LC_ALL": "C", "LC_CTYPE": "tr_TR", "TZ": "America/St_Johns", "LANGUAGE": "ja:en", "RAYON_NUM_THREADS": "1",
           "USER": "nobody", "PWD": "/nonexistent", "RUST_MIN_STACK": "200000"}]


def harness(mode, ops, out, root, idle=100, world=0):
    """Run one program file.  Returns (status, line): status is "ok", "died" or "hung"."""
    env = dict(os.environ)
    for k in ("CHANOMARC", "RUST_LOG", "RUST_BACKTRACE"):
        env.pop(k, None)
    # what the surroundings say to other programs
    env.update(WORLDS[world])
    env.update(VERIF_BIN=os.path.join(BUILD, "target-repo/debug"), VERIF_PYTHON=PYTHON,
               VERIF_PYRUN=os.path.join(VERIF, "tools/pyrun.py"),
               VERIF_PYMOD=os.path.join(BUILD, "pymod"), PYTHONDONTWRITEBYTECODE="1")
    os.makedirs(os.path.dirname(root), exist_ok=True)
    err = open(out + ".err", "w")
    p = subprocess.Popen([os.path.join(BUILD, "target/debug/harness"), mode, ops, out, root],
                         env=env, stdout=subprocess.DEVNULL, stderr=err, cwd="/",
                         preexec_fn=os.setsid)
    at, since, last = out + ".at", time.time(), None
    status = "ok"
    try:
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(at).read()
            except OSError:
                cur = None
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > idle:
                status = "hung"
                os.killpg(p.pid, 9)
                p.wait()
                break
    finally:
        err.close()
        shutil.rmtree(root, ignore_errors=True)
    line = 0
    try:
        line = int(open(at).read())
    except (OSError, ValueError):
        pass
    if status == "ok" and p.returncode != 0:
        if p.returncode == 101 or p.returncode > 0:
            raise ToolError("harness failed: " + open(out + ".err").read()[-2000:])
        status = "died"
    return status, line


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=1, timeout=840, mem="3g", extra=(), keep=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(VERIF, ".run"))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m",
           "-Djava.io.tmpdir=" + meta,
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-maxSetSize", "20000000", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-checkpoint", "0", "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    if keep:
        with open(keep, "w") as f:
            f.write(out)
    return p.returncode, out


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def last_program(path, line):
    """The operations from the last reset up to and including the given 0-based line."""
    prog = []
    with open(path) as f:
        for k, l in enumerate(f):
            if k > line:
                break
            o = json.loads(l)
            if o["op"] == "reset":
                prog = []
            prog.append(o)
    return prog


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, SEED))
        os.makedirs(os.path.join(VERIF, ".run"), exist_ok=True)
        self.sweep_old()
        self.s = Scratch(pid)
        self.states = self.transitions = 0
        self.models, self.samples, self.violations, self.notes = [], [], [], {}
        self.traces = self.events = self.replayed = self.wanted = 0
        self.n = 0
        self.findings = []
        self.nviol = 0

    @staticmethod
    def sweep_old():
        base = os.path.join(VERIF, ".run")
        for d in os.listdir(base):
            p = os.path.join(base, d)
            try:
                if time.time() - os.path.getmtime(p) > 4 * 3600:
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass

    # ---- model checking
    def model(self, module, cfg, workers=CORES, timeout=840, mem="8g", env=None, extra=()):
        """Check a model; returns what it emitted (the JSON values it printed)."""
        t = time.time()
        rc, out = tlc(module, cfg, env=env, workers=workers, timeout=timeout, mem=mem, extra=extra)
        gen, dist = stats(out)
        if "No error has been found" not in out or gen == 0:
            raise ToolError("the model %s/%s does not check:\n%s" % (module, cfg, out[-6000:]))
        self.states += dist
        self.transitions += gen
        emitted = []
        for l in sorted(out.splitlines()):      # the workers print in any order
            if l.startswith('"') and l.endswith('"'):
                emitted.append(json.loads(json.loads(l)))
        self.models.append({"module": module, "config": cfg, "states": dist, "transitions": gen,
                            "emitted": len(emitted), "wall_s": round(time.time() - t, 1)})
        return emitted

    # ---- running programs in parallel shards
    def shards(self, programs, n):
        n = max(1, min(n, len(programs)))
        out = [[] for _ in range(n)]
        size = [0] * n
        for p in programs:
            k = size.index(min(size))
            out[k].append(p)
            size[k] += sum(weight(o) for o in p)
        return out

    def run(self, mode, programs, n, idle=100):
        files = []
        for sh in self.shards(programs, n):
            self.n += 1
            ops = self.s.path("p%d.ops" % self.n)
            dump((o for p in sh for o in p), ops)
            files.append((ops, self.s.path("p%d.out" % self.n), self.s.new_root(), sh))
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda f: harness(mode, f[0], f[1], f[2], idle), files))
        for (ops, out, _, _), (st, line) in zip(files, res):
            if st != "ok":
                self.violation("the program %s" % ("crashed" if st == "died" else "did not return"),
                               last_program(ops, line), {"status": st})
        return files

    def replay(self, programs, n=CORES, what="model"):
        """Programs with expected results, written by a model: compare with the real results."""
        if not programs:
            raise ToolError("no programs to replay: " + what)
        for ops, out, _, sh in self.run("replay", programs, n):
            summary = None
            try:
                for l in open(out):
                    d = json.loads(l)
                    if "summary" in d:
                        summary = d["summary"]
                    elif len(self.violations) < 20:
                        self.violation("replay of a %s behaviour: %s differs" % (what, ",".join(d["diff"])),
                                       last_program(ops, d["line"]), {"got": d["r"]})
            except ValueError:
                pass
            if summary:
                self.replayed += len(sh)
                self.wanted += summary["checked"]
                if summary["checked"] == 0:
                    raise ToolError("nothing was compared")
        self.sample(programs)
        self.settled()

    def trace(self, programs, n=CORES, timeout=800, mem="3g", idle=100):
        """Programs without expected results: record what happens and let TLC judge it."""
        if not programs:
            raise ToolError("no programs to trace")
        self.judge(self.run("run", programs, n, idle), timeout, mem)
        self.settled()
        self.sample(programs)

    def judge(self, files, timeout=800, mem="3g"):
        def judge(f):
            return tlc("Trace.tla", "Trace.cfg", env={"TRACE": f[1]}, workers=1, timeout=timeout, mem=mem)
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(judge, files))
        for (ops, out, _, sh), (rc, o) in zip(files, res):
            gen, dist = stats(o)
            m = re.search(r'<<"ACCEPTED", (\d+)>>', o)
            if m:
                want = sum(len(p) for p in sh)
                if int(m.group(1)) != want and not self.violations:
                    raise ToolError("trace is incomplete")
                self.traces += len(sh)
                self.events += int(m.group(1))
                self.states += dist
                self.transitions += gen
                continue
            mm = re.search(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)"', o)
            if not mm:
                if self.violations:
                    continue        # an incomplete trace of a crashed run
                raise ToolError("TLC could not judge a trace:\n" + o[-5000:])
            line = int(mm.group(1)) - 1
            want = re.search(r'<<\s*"MISMATCH",\s*\d+,\s*"[^"]*",\s*("(?:[^"\\]|\\.)*")\s*>>', o, re.S)
            extra = {"rule": mm.group(2)}
            if want:
                try:
                    extra["want"] = json.loads(json.loads(want.group(1)))
                except ValueError:
                    pass
            extra["got"] = last_program(out, line)[-1].get("r")
            prog = last_program(ops, line)
            self.violation("trace rejected by the specification at rule '%s'" % mm.group(2), prog, extra)

    def trace_together(self, groups, timeout=800, mem="3g"):
        """Each group is a list of runs, each run in a process of its own; the recordings of one
        group are judged as one history."""
        files = []
        for g in groups:
            fs = []
            for ops in g:
                self.n += 1
                p = self.s.path("p%d.ops" % self.n)
                dump(ops, p)
                fs.append((p, self.s.path("p%d.out" % self.n), self.s.new_root(), [ops], len(fs) % len(WORLDS)))
            files.append(fs)
        flat = [f for fs in files for f in fs]
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda f: harness("run", f[0], f[1], f[2], world=f[4]), flat))
        for (ops, out, _, _, _), (st, line) in zip(flat, res):
            if st != "ok":
                self.violation("the program %s" % ("crashed" if st == "died" else "did not return"),
                               last_program(ops, line), {"status": st})
        joined = []
        for fs in files:
            self.n += 1
            names = [self.s.path("j%d.ops" % self.n), self.s.path("j%d.out" % self.n)]
            for k in (0, 1):
                with open(names[k], "wb") as w:
                    for f in fs:
                        with open(f[k], "rb") as r:
                            shutil.copyfileobj(r, w)
            joined.append((names[0], names[1], None, [o for f in fs for o in f[3]]))
        self.judge(joined, timeout, mem)
        self.settled()

    def sample(self, programs):
        if len(self.samples) < 6:
            p = programs[self.rng.randrange(len(programs))]
            small = [o for o in p if len(json.dumps(o)) < 1500][:12]
            self.samples.append(small)

    def known(self, label, program):
        """A failure that KNOWN_FINDINGS.txt may list under this label."""
        listed = [l for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8")
                  if l.startswith("known: property=%s label=%s;" % (self.pid, label))]
        saved, self.violations = self.violations, []
        try:
            self.judge(self.run("run", [program], 1))
            found = self.violations
        finally:
            self.violations = saved
        if found and listed:
            self.findings.append(listed[0].split(";", 1)[1].strip())
        else:
            self.violations += found

    def violation(self, what, prog, extra):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        self.nviol += 1
        path = os.path.join(d, "%s-%d-%d.ndjson" % (self.pid, SEED, self.nviol))
        prog = [{k: v for k, v in o.items() if k != "r"} for o in prog]
        with open(path, "w") as f:
            f.write(json.dumps({"property": self.pid, "what": what, **extra}) + "\n")
            for o in prog:
                f.write(json.dumps(o) + "\n")
        self.violations.append((what, path))

    def settled(self):
        if self.violations:
            raise Enough()

    def finish(self):
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces + self.replayed,
                           "recorded_programs_accepted": self.traces, "recorded_events_accepted": self.events,
                           "model_behaviours_replayed": self.replayed,
                           "model_expectations_compared": self.wanted,
                           "models": self.models, "samples": self.samples, **self.notes},
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        self.s.close()
        for f in self.findings:
            log("KNOWN-FINDING: property=%s %s" % (self.pid, f))
        for what, path in self.violations[:5]:
            log("%s: %s" % (self.pid, what))
            log("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.violations:
            log("%s held: %d model states, %d behaviours replayed (%d expectations), %d recorded programs "
                "(%d events) accepted, %.0f s" % (self.pid, self.states, self.replayed, self.wanted,
                                                  self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0


def weight(o):
    if o["op"] == "sweep":
        return 30000
    n = len(o.get("text", ())) + len(o.get("items", ()))
    return 20 + n
