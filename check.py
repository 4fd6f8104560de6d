#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py PROPERTY
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0: held on everything observed. Exit 1, with a VIOLATION line: broken.
Anything else: no verdict.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
MON = os.path.join(VERIF, "mon")
WORK = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
THREADS = max(2, min(8, os.cpu_count() or 4))
COV = ("-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
       "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters "
       "-Cllvm-args=-sanitizer-coverage-trace-compares")
CFG = "--cfg binate_verif"
HOOKS = {"machine", "chunk", "ids", "occupy", "start", "error", "buf"}
# Nothing of these can be observed without this hook.
NEED_HOOK = {"P04": "buf", "P05": "buf"}
NEED_HOOK.update({f"R0{i}": "machine" for i in range(1, 9)})
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL,
           signal.SIGFPE, signal.SIGTRAP}
HANG = 77


def say(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


class Again(Exception):
    pass


class Broken(Exception):
    """A violation: signature, message, and how to see it again."""

    def __init__(self, what, message, replay):
        super().__init__(message)
        self.what, self.message, self.replay = what, message, replay


def env(**more):
    e = {k: v for k, v in os.environ.items()
         if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
                      "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
                      "MIRIFLAGS", "RUST_BACKTRACE")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-" + TRIPLE
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(more)
    return e


def tree_hash():
    h = hashlib.sha256()
    for top in ("binate/src", "binate/Cargo.toml", "Cargo.toml"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# Machines unlike this one: big-endian, and with words of 32 bits.
MACHINES = {"s390x": "s390x-unknown-linux-gnu",
            "i686": "i686-unknown-linux-gnu"}


class Build:
    """One way of building the monitors."""

    def __init__(self, name, flags="", features="hooks", args=(),
                 toolchain="", miri=False, triple=TRIPLE):
        self.name, self.flags, self.features = name, flags, features
        self.args, self.toolchain, self.miri = list(args), toolchain, miri
        self.triple = triple
        self.target = os.path.join(WORK, "target-" + name)
        self.skipped = set()
        self.error = None
        profile = "release" if "--release" in self.args else "debug"
        self.exe = os.path.join(self.target, triple, profile, "mon")

    def cmd(self, verb="build"):
        c = ["cargo"]
        if self.toolchain:
            c.append("+" + self.toolchain)
        c += verb.split() + ["--offline", "--quiet", "--target", self.triple]
        c += self.args
        f = [x for x in self.features.split(",") if x and x != "hooks"]
        f += ["h-" + x for x in sorted(HOOKS - self.skipped)]
        if f:
            c += ["--features", ",".join(f)]
        return c

    def env(self):
        flags = [CFG] if self.skipped != HOOKS else []
        flags += [f'--cfg binate_verif_skip="{x}"'
                  for x in sorted(self.skipped)]
        return env(RUSTFLAGS=" ".join(flags + [self.flags]).strip(),
                   CARGO_TARGET_DIR=self.target)

    def skip_more(self):
        """After an error: which hook to leave out?"""
        found = set()
        for m in re.finditer(r"^error(?:\[E\d+\])?:.*\n\s*--> (\S+?):(\d+):",
                             self.error, re.M):
            f = re.search(r"binate/src/.*\.rs$", m.group(1))
            f = f and os.path.join(REPO, f.group(0))
            if not f or not os.path.exists(f):
                continue
            lines = open(f, errors="replace").read().split("\n")
            for x in reversed(lines[:int(m.group(2))]):
                h = re.search(r'binate_verif_skip = "(\w+)"', x)
                if h:
                    found.add(h.group(1))
                    break
        if "machine" in found:
            found |= {"chunk", "ids", "occupy"}
        found -= self.skipped
        self.skipped |= (found or HOOKS) & HOOKS

    def run(self):
        """Builds; without the hooks that do not compile."""
        os.makedirs(self.target, exist_ok=True)
        mark = os.path.join(self.target, "tree")
        now = tree_hash()
        old = open(mark).read() if os.path.exists(mark) else now
        if old != now:
            # Do not rely on timestamps.
            for d, subs, _ in os.walk(self.target):
                for s in list(subs):
                    if re.match(r"(binate|mon)-[0-9a-f]+$", s) and \
                            os.path.basename(d) == ".fingerprint":
                        shutil.rmtree(os.path.join(d, s), ignore_errors=True)
        with open(mark, "w") as f:
            f.write("unknown")
        while True:
            verb = "build"
            if self.miri:
                verb = "miri run"
            c = self.cmd(verb)
            if self.miri:
                c += ["--", "list", "--prop", "U01"]
            r = subprocess.run(c, cwd=MON, env=self.miri_env() if self.miri
                               else self.env(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=800)
            if r.returncode == 0:
                with open(mark, "w") as f:
                    f.write(now)
                return
            self.error = r.stdout
            if self.skipped == HOOKS:
                break
            self.skip_more()
        raise NoVerdict(f"build {self.name} failed:\n{self.error[-4000:]}")

    def miri_env(self, extra=""):
        e = self.env()
        # The aliasing models are experimental, and the bytes crate of the
        # lock file does not follow them.
        e["MIRIFLAGS"] = ("-Zmiri-disable-isolation -Zmiri-ignore-leaks "
                          "-Zmiri-disable-stacked-borrows "
                          "-Zmiri-permissive-provenance " + extra)
        return e


def build_all(builds):
    errs = []

    def go(b):
        try:
            b.run()
        except Exception as e:  # noqa
            errs.append(e)

    ts = [threading.Thread(target=go, args=(b,)) for b in builds]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], NoVerdict) else NoVerdict(
            str(errs[0]))


def build_of(name):
    if name == "trace":
        return Build(name, COV, "hooks,trace")
    if name == "release":
        return Build(name, "", "hooks", ["--release"])
    if name == "miri":
        return Build(name, toolchain="nightly", miri=True)
    if name in MACHINES:
        return Build("miri-" + name, toolchain="nightly", miri=True,
                     triple=MACHINES[name])
    kind = {"asan": "address", "tsan": "thread",
            "msan": "memory -Zsanitizer-memory-track-origins"}[name]
    # Except for addresses, the standard library has to be instrumented, too.
    std = [] if name == "asan" else ["-Zbuild-std"]
    return Build(name, f"-Zsanitizer={kind} -Cdebuginfo=1", "hooks",
                 ["--release"] + std, "nightly")


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.runs = []
        self.dir = os.path.join(WORK, f"run-{prop}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(EVID, exist_ok=True)
        self.assumptions = []
        self.extra = {}

    # ---------------------------------------------------------- one run

    def mon(self, b, label, secs, dict_=None, dump=None, only=None,
            extra_env=None, limit=None, again=None):
        out = os.path.join(self.dir, label + ".json")
        slots = os.path.join(self.dir, label + ".slots")
        os.makedirs(slots, exist_ok=True)
        c = [b.exe, "run", "--prop", self.prop, "--seed", str(self.seed),
             "--secs", str(secs), "--threads", str(THREADS),
             "--tier", self.tier, "--slots", slots, "--out", out]
        if dict_:
            c += ["--dict", dict_]
        if dump:
            c += ["--dump-dict", dump]
        if only:
            c += ["--only", only]
        if label.startswith("scout"):
            c += ["--scout", "1"]
        if label.endswith("san"):
            c += ["--hang-cpu-ms", "150000", "--hang-idle-ms", "150000"]
        e = env(**(extra_env or {}))
        try:
            r = subprocess.run(c, cwd=self.dir, env=e, text=True,
                               errors="replace", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE,
                               timeout=limit or secs * 4 + 300)
        except subprocess.TimeoutExpired:
            raise NoVerdict(f"{label}: exceeded its time limit")
        res = {}
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = {}
        ctx = {"build": b.name, "label": label, "dict": dict_,
               "stderr": r.stderr[-6000:], "env": extra_env or {},
               "cmd": c, "before": again}
        if res and r.returncode in (0, 1, 2):
            res["label"] = label
            self.runs.append(res)
        if r.returncode == 0 and res.get("verdict") == "held":
            return res, r
        if r.returncode == 1 and res.get("verdict") == "violation":
            self.violation(b, res, ctx)
        try:
            if r.returncode == HANG:
                self.hang(b, r.stderr, ctx)
            if r.returncode < 0 and -r.returncode in CRASHES:
                self.crash(b, slots, -r.returncode, ctx)
        except Again as a:
            # It may take what ran before, or what ran beside it.
            return self.mon(b, label, secs, dict_, dump, only, extra_env,
                            limit, again=str(a))
        return self.odd(b, r, res, ctx)

    def not_alone(self, what, ctx):
        """Twice the same in whole runs, though not in single cases."""
        if not ctx["before"]:
            raise Again(what)
        msg = (f"{what}; an earlier run: {ctx['before']}. Single cases do "
               "not show it.")
        raise Broken(ctx["label"], msg, {
            "property": self.prop, "message": msg, "build": ctx["build"],
            "cmd": ctx["cmd"], "stderr": ctx["stderr"]})

    def odd(self, b, r, res, ctx):
        raise NoVerdict(f"{ctx['label']}: exit {r.returncode} "
                        f"{res.get('verdict')} {res.get('message', '')}\n"
                        + r.stderr[-3000:])

    def one(self, b, w, kind, val, ctx, limit=90):
        c = [b.exe, "one", "--prop", self.prop, "--workload", w,
             "--" + kind, str(val), "--tier", self.tier, "--secs", "5",
             "--threads", str(THREADS)]
        if ctx["dict"]:
            c += ["--dict", ctx["dict"]]
        try:
            r = subprocess.run(c, cwd=self.dir, env=env(**ctx["env"]),
                               text=True, errors="replace",
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=limit)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            return "timeout", o.decode(errors="replace") if isinstance(
                o, bytes) else o

    def replay(self, b, w, kind, val, ctx, message):
        d = None
        if ctx["dict"]:
            d = os.path.join(EVID, f"{self.prop}.replay.dict")
            shutil.copy(ctx["dict"], d)
        return {
            "property": self.prop, "workload": w, kind: str(val),
            "build": b.name, "tier": self.tier, "message": message,
            "dict": d, "rerun": f"python3 {VERIF}/check.py {self.prop} "
            f"--replay <this file>",
        }

    def violation(self, b, res, ctx):
        w, kind, val = res["workload"], res["kind"], res["value"]
        rc, out = self.one(b, w, kind, val, ctx)
        rep = self.replay(b, w, kind, val, ctx, res["message"])
        rep["alone"] = {"exit": str(rc), "output": out[-3000:]}
        raise Broken(f"{w}", res["message"], rep)

    def hang(self, b, err, ctx):
        m = re.search(r"HANG (\S+) (\S+) (\d+)(.*)", err)
        if not m:
            raise NoVerdict("hang without a case: " + err[-500:])
        w, kind, val = m.group(1), m.group(2), m.group(3)
        rc, out = self.one(b, w, kind, val, ctx, limit=100)
        msg = f"{w} {kind} {val} does not terminate ({m.group(4).strip()})"
        if rc != "timeout":
            self.not_alone(msg, ctx)
        raise Broken(w, msg, self.replay(b, w, kind, val, ctx, msg))

    def crash(self, b, slots, sig, ctx):
        name = signal.Signals(sig).name
        cases = []
        for f in sorted(os.listdir(slots)):
            p = open(os.path.join(slots, f), errors="replace").readline()
            if len(p.split()) == 3:
                cases.append(p.split())
        for w, kind, val in cases:
            rc, out = self.one(b, w, kind, val, ctx)
            if isinstance(rc, int) and rc < 0 and -rc in CRASHES:
                msg = f"{w} {kind} {val} ends the process with {name}"
                rep = self.replay(b, w, kind, val, ctx, msg)
                rep["alone"] = {"exit": str(rc), "output": out[-3000:]}
                raise Broken(w, msg, rep)
            if rc == 1:
                msg = f"{w} {kind} {val} fails: {out[-400:]}"
                raise Broken(w, msg, self.replay(b, w, kind, val, ctx, msg))
        where = "; ".join(" ".join(x) for x in cases)
        self.not_alone(f"the process ends with {name} during one of: {where}",
                       ctx)

    # ------------------------------------------------------- a property

    def without_hooks(self, *builds):
        for b in builds:
            if not b.skipped:
                continue
            self.assumptions.append(
                f"these hooks did not compile into the {b.name} build, and "
                "monitors that need them did not run: "
                + ", ".join(sorted(b.skipped)))
            if NEED_HOOK.get(self.prop) in b.skipped:
                raise NoVerdict("the hooks do not compile:\n"
                                + (b.error or "")[-4000:])

    def standard(self):
        t, r = build_of("trace"), build_of("release")
        build_all([t, r])
        self.without_hooks(t, r)
        d1 = os.path.join(self.dir, "d1")
        d2 = os.path.join(self.dir, "d2")
        if self.thorough:
            a, m, n = 5, 120, 240
        else:
            a, m, n = 1, 6, 9
        self.mon(t, "scout-1", a, None, d1)
        self.mon(t, "scout-2", a, d1, d2)
        self.mon(t, "checked", m, d2)
        self.mon(r, "release", n, d2)
        if self.prop in ("S02", "S03"):
            self.miri_teams()

    def miri_teams(self):
        if not self.thorough:
            return
        m = build_of("miri")
        build_all([m])
        e = m.miri_env("-Zmiri-many-seeds=%d..%d " % (
            self.seed * 1000, self.seed * 1000 + 64))
        c = m.cmd("miri run") + [
            "--", "mini", "--seed", str(self.seed), "--n", "2",
            "--prop", self.prop]
        log = open(os.path.join(self.dir, "miri-teams"), "w+",
                   errors="replace")
        p = subprocess.Popen(c, cwd=MON, env=e, stdout=log,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(1500)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        log.seek(0)
        out = log.read()
        seen = out.count("MINI ")
        self.extra["miri_schedules"] = seen
        fails = [x for x in out.splitlines() if x.startswith("FAIL")]
        if fails:
            raise Broken("miri", fails[0], {
                "property": self.prop, "message": fails[0],
                "output": out[-6000:], "cmd": c})
        if p.returncode != 0:
            self.extra["miri_odd"] = out[-1500:]
            self.assumptions.append(
                f"the interpreter finished only {seen} of 64 schedules")

    # ------------------------------------------------------------- U01

    def u01(self):
        r, a, t, m = (build_of(x) for x in ("release", "asan", "tsan",
                                            "msan"))
        mi = build_of("miri")
        build_all([r, a, t, m, mi])
        self.without_hooks(r, a, t, m, mi)
        n = 150 if self.thorough else 10
        miri = self.miri_start(mi)
        try:
            self.mon(r, "balance", n)
            self.starts(r, "starts", n, {}, None)
            self.sanitized(a, "asan", n, "ASAN_OPTIONS",
                           "detect_leaks=0:abort_on_error=0:exitcode=66:"
                           "allocator_may_return_null=1",
                           "AddressSanitizer", None)
            self.sanitized(t, "tsan", n, "TSAN_OPTIONS",
                           "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
                           "ThreadSanitizer", "shared-values,"
                           "shared-stream-ids,shared-counter,shared-machine,"
                           "everything")
            self.starts(t, "starts-tsan", n, {
                "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:"
                                "second_deadlock_stack=1"},
                        "ThreadSanitizer")
            self.sanitized(m, "msan", n, "MSAN_OPTIONS",
                           "halt_on_error=1:exitcode=66",
                           "MemorySanitizer",
                           "shared-values,shared-machine,everything")
        finally:
            self.miri_end(mi, miri)

    def sanitized(self, b, label, secs, var, opts, word, only):
        self.word = word
        self.mon(b, label, secs, extra_env={var: opts}, only=only)
        self.extra[label + "_reports"] = 0

    def starts(self, b, label, secs, extra, word):
        """Fresh processes in which several threads use the crate first."""
        e = env(**extra)
        end = time.time() + secs
        done, cases, odd = [0], [0], []
        lock = threading.Lock()

        def once(seed):
            c = [b.exe, "start", "--seed", str(seed), "--threads",
                 str(2 + seed % 5), "--n", str(1 + seed % 3)]
            try:
                r = subprocess.run(c, cwd=self.dir, env=e, text=True,
                                   errors="replace", timeout=120,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE)
            except subprocess.TimeoutExpired:
                return c, "it did not end", ""
            out = r.stdout + r.stderr
            if word and (r.returncode == SAN_EXIT or word in r.stderr):
                i = out.find(word)
                return c, (out[i:].splitlines() or [word])[0], \
                    out[max(0, i - 200):][:6000]
            m = re.search(r"^START (\d+)", out, re.M)
            if r.returncode == 0 and m:
                with lock:
                    done[0] += 1
                    cases[0] += int(m.group(1))
                return None
            m = re.search(r"^FAIL: (.*)", out, re.M)
            if m:
                return c, "did not hold: " + m.group(1), out[:6000]
            return c, f"ended with {r.returncode}", out[-6000:]

        def work(k):
            i = 0
            while time.time() < end or i < 4:
                seed = self.seed * 1_000_000 + i * THREADS + k
                i += 1
                bad = once(seed)
                if bad:
                    with lock:
                        odd.append((seed,) + bad)
                    return

        ts = [threading.Thread(target=work, args=(k,))
              for k in range(THREADS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.extra[label.replace("-", "_")] = done[0]
        self.extra[label.replace("-", "_") + "_cases"] = cases[0]
        for seed, c, what, text in odd:
            # What a sanitizer reports is so; the rest has to happen again.
            sure = word and word in what
            if not sure:
                for _ in range(60 if "end" not in what else 5):
                    again = once(seed)
                    if again:
                        sure = True
                        break
            if sure:
                msg = ("when several threads use the crate first, at once: "
                       + what)
                raise Broken(label, msg, {
                    "property": self.prop, "message": msg, "cmd": c,
                    "seed": seed, "report": text, "build": b.name})
        if odd:
            self.extra[label.replace("-", "_") + "_seen_once"] = [
                o[2] for o in odd]

    def miri_start(self, b):
        """A share of the cores goes to the interpreter meanwhile."""
        k = 6 if self.thorough else 3
        n = 400 if self.thorough else 25
        ps = []
        for i in range(k):
            s = self.seed * 100 + i
            c = b.cmd("miri run") + ["--", "mini", "--seed", str(s),
                                     "--n", str(n)]
            log = open(os.path.join(self.dir, f"miri{i}"), "w+")
            ps.append((s, c, subprocess.Popen(
                c, cwd=MON, env=b.miri_env(f"-Zmiri-seed={s} "),
                stdout=log, stderr=subprocess.STDOUT,
                start_new_session=True), log))
        return ps

    def miri_end(self, b, ps):
        failing = sys.exc_info()[0] is not None
        bad, odd, cases, stopped = None, None, 0, 0
        end = time.time() + 3600 if self.thorough else max(
            time.time() + 60, self.t0 + 600)
        for s, c, p, log in ps:
            if failing:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                continue
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                stopped += 1
            log.seek(0)
            out = log.read()
            # On a busy machine some of it must do.
            done = len(re.findall(r"^MINI-DONE", out, re.M))
            if p.returncode == -signal.SIGKILL and done:
                cases += done
                continue
            m = re.search(r"^MINI evals=(\d+)(.*)", out, re.M)
            if p.returncode == 0 and m:
                cases += int(m.group(1))
                continue
            u = re.search(r"error: (Undefined Behavior|the evaluated program"
                          r"|.*[Dd]ata race|deadlock)[^\n]*", out)
            if u:
                bad = bad or (u.group(0), c, out[u.start():][:6000], s)
            else:
                odd = odd or "miri: " + out[-2500:]
        if failing:
            return
        self.extra["miri_cases"] = cases
        self.extra["miri_stopped_early"] = stopped
        self.extra["miri_schedule_seeds"] = len(ps)
        if bad:
            msg = "interpreter: " + bad[0]
            raise Broken("miri", msg, {
                "property": self.prop, "message": msg, "cmd": bad[1],
                "seed": bad[3], "report": bad[2]})
        if odd:
            # The other sanitizers have judged; say what this one missed.
            self.extra["miri_odd"] = odd[-1500:]
            self.assumptions.append(
                "the interpreter could not run some of its share (miri_odd)")

    # ------------------------------------------------------------- X01

    def x01(self):
        """The same cases on interpreted machines of other kinds."""
        host = build_of("release")
        bs = [build_of(m) for m in MACHINES]
        errs = []

        def ready(b):
            try:
                b.run()
            except NoVerdict as e:
                errs.append(str(e)[-1500:])
                b.broken = True

        host.run()
        self.without_hooks(host)
        for b in bs:
            # One after the other; what comes of it shows in what follows.
            subprocess.run(["cargo", "+nightly", "miri", "setup", "--target",
                            b.triple], cwd=MON, env=b.miri_env(),
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=600)
        ts = [threading.Thread(target=ready, args=(b,)) for b in bs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        secs = 600 if self.thorough else 45
        parts = max(2, THREADS // 2)
        ps = []
        for b in bs:
            for i in range(parts):
                if getattr(b, "broken", False):
                    continue
                c = b.cmd("miri run") + [
                    "--", "cross", "--seed", str(self.seed), "--secs",
                    str(secs), "--part", str(i), "--parts", str(parts)]
                log = open(os.path.join(self.dir, f"{b.name}-{i}"), "w+")
                ps.append((b, c, subprocess.Popen(
                    c, cwd=MON, env=b.miri_env(), stdout=log,
                    stderr=subprocess.STDOUT, start_new_session=True), log))
        # The same here, for comparison.
        r = subprocess.run([host.exe, "cross", "--seed", str(self.seed),
                            "--secs", "10"], cwd=self.dir, text=True,
                           env=env(), errors="replace", timeout=300,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        here = re.search(r"^CROSS (\d+)", r.stdout, re.M)
        self.extra["cases_on_this_machine"] = \
            int(here.group(1)) if here else 0
        end = time.time() + secs * 3 + 200
        total, odd, bad, samples = 0, [], None, []
        for b, c, p, log in ps:
            if bad:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                continue
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            log.seek(0)
            out = log.read()
            m = re.search(r"^CROSS (\d+) of (.*)", out, re.M)
            samples += [f"{b.triple}: {x}" for x in re.findall(
                r"^CROSS-CASE (.*)", out, re.M)]
            if m:
                total += int(m.group(1))
                k = "cases_" + b.triple.split("-")[0]
                self.extra[k] = self.extra.get(k, 0) + int(m.group(1))
                continue
            m = re.search(r"^CROSS-FAIL (\S+) (\S+) (\d+) (.*)", out, re.M)
            u = re.search(r"error: Undefined Behavior[^\n]*", out)
            if m:
                case = ["cross", "--prop", m.group(1), "--workload",
                        m.group(2), "--seed", m.group(3)]
                a = subprocess.run([host.exe] + case, cwd=self.dir,
                                   env=env(), text=True, errors="replace",
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=300)
                if a.returncode != 0:
                    # Wrong here, too; that is for another property.
                    self.extra["fails_everywhere"] = m.group(0)[:300]
                    continue
                c = b.cmd("miri run") + ["--"] + case
                a = subprocess.run(c, cwd=MON, env=b.miri_env(), text=True,
                                   errors="replace", timeout=300,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if "CROSS-FAIL" in a.stdout:
                    bad = (f"on {b.triple}, though not here: {m.group(1)} "
                           f"{m.group(2)}: {m.group(4)}", c, out)
                    continue
            elif u:
                a = subprocess.run(c, cwd=MON, env=b.miri_env(), text=True,
                                   errors="replace", timeout=600,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if "Undefined Behavior" in a.stdout:
                    bad = (f"on {b.triple}: {u.group(0)}", c, out)
                    continue
            odd.append(f"{b.name}: {out[-800:]}")
        if bad:
            raise Broken("machines", bad[0], {
                "property": self.prop, "message": bad[0], "cmd": bad[1],
                "seed": self.seed, "report": bad[2][-6000:]})
        if errs or odd:
            self.extra["not_run"] = errs + odd
            self.assumptions.append(
                "some of the machines could not be interpreted (not_run)")
        self.runs.append({
            "label": "machines", "verdict": "held",
            "evaluations": total or self.extra["cases_on_this_machine"],
            "distinct": total, "samples": samples, "wall": round(time.time() - self.t0, 2),
            "debug": True, "dict": 0, "cov_hit": 0, "cov_edges": 0})

    # -------------------------------------------------------- evidence

    def evidence(self, violations):
        runs = self.runs
        counts = {}
        for r in runs:
            for k, v in r.get("counts", {}).items():
                counts[k] = counts.get(k, 0) + v
        samples = []
        for r in runs[::-1]:
            for s in r.get("samples", []):
                if len(samples) < 40 and s not in samples:
                    samples.append(s[:500])
        # The runs use the same seeds where they use the same constants, so
        # the largest one counts.
        distinct = max([r["distinct"] for r in runs] or [0])
        cov = {
            "evaluations": sum(r["evaluations"] for r in runs),
            "distinct_nontrivial": distinct,
            "rule": RULES.get(self.prop, ""),
            "samples": samples,
            "observed": counts,
            "swept_completely": sorted(
                {x for r in runs for x in r.get("exhaustive", [])}),
            "runs": [{
                "label": r["label"], "evaluations": r["evaluations"],
                "distinct": r["distinct"], "wall_s": r["wall"],
                "debug_assertions": r["debug"],
                "constants_known": r["dict"],
                "edges_hit": r["cov_hit"], "edges": r["cov_edges"],
            } for r in runs],
        }
        cov.update(self.extra)
        e = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "exploration", "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
        }
        t = json.dumps(e, indent=1)
        if len(t) > 60_000:
            cov["samples"] = [s[:150] for s in samples[:20]]
            t = json.dumps(e, indent=1)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            f.write(t + "\n")

    def run(self):
        known = load_known(self.prop)
        try:
            if self.prop == "U01":
                self.u01()
            elif self.prop == "X01":
                self.x01()
            else:
                self.standard()
            total = sum(r["evaluations"] for r in self.runs)
            if total < 50 and self.prop not in FEW:
                raise NoVerdict(f"only {total} cases observed")
            self.evidence(0)
            for k in known:
                say(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            say(f"held: {self.prop}, {total} cases, "
                f"{time.time() - self.t0:.0f} s")
            return 0
        except Broken as v:
            for k in known:
                say(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            path = os.path.join(EVID, f"{self.prop}.replay.json")
            with open(path, "w") as f:
                json.dump(v.replay, f, indent=1)
                f.write("\n")
            self.evidence(1)
            say(f"{self.prop} {v.what}: {v.message[:2000]}")
            say(f"VIOLATION property={self.prop} replay={path}")
            return 1
        except NoVerdict as n:
            self.extra["no_verdict"] = str(n)[-3000:]
            self.evidence(0)
            say(f"no verdict on {self.prop}: {n}")
            return 2
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


# Sanitizer reports end the process with this exit code.
SAN_EXIT = 66


class U(Check):
    def odd(self, b, r, res, ctx):
        word = getattr(self, "word", None)
        if word and (r.returncode == SAN_EXIT or word in r.stderr):
            i = r.stderr.find(word)
            text = r.stderr[max(0, i - 200):][:6000]
            line = r.stderr[i:].splitlines()[0] if i >= 0 else word
            raise Broken(ctx["label"], line, {
                "property": self.prop, "message": line, "report": text,
                "build": b.name, "seed": self.seed})
        return super().odd(b, r, res, ctx)


FEW = set()
# Histories of many operations count as one case there.
FEW |= {"S02", "S03", "R03"}

RULES = {}


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("{"):
                continue
            k = json.loads(line)
            if k.get("property") == prop and k.get("status") == "open":
                out.append(k)
    return out


def replay(prop, path):
    r = json.load(open(path))
    if "workload" not in r:
        say(json.dumps(r, indent=1))
        return 0
    c = Check(prop)
    b = build_of(r["build"])
    b.run()
    kind = "seed" if "seed" in r else "idx"
    c.tier = r["tier"]
    rc, out = c.one(b, r["workload"], kind, r[kind],
                    {"dict": r.get("dict"), "env": {}})
    shutil.rmtree(c.dir, ignore_errors=True)
    say(out)
    say("exit", rc)
    return 0


def setup():
    """Compiles everything once, to show that it compiles."""
    build_all([build_of("trace"), build_of("release")])
    say("ready")
    return 0


def main():
    if len(sys.argv) < 2:
        say(__doc__)
        return 2
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "setup":
        return setup()
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    with open(os.path.join(VERIF, "rules.json")) as f:
        RULES.update(json.load(f))
    if prop not in RULES:
        say("unknown property", prop)
        return 2
    return (U if prop == "U01" else Check)(prop).run()


if __name__ == "__main__":
    try:
        code = main()
    except NoVerdict as e:
        say("no verdict:", e)
        code = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
