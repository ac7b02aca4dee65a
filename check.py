#!/usr/bin/env python3
"""Runs the check of one property: check.py C07 [--tier quick|thorough] [--seed N] [--secs N]
                                   check.py replay FILE
Builds the crate under test from /repo's working tree, runs the monitors of harness/ (or c22.py),
merges what they observed into evidence/<id>.json.
Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken. Exit 2: no answer."""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import rules  # noqa: E402

TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
HOST = "x86_64-unknown-linux-gnu"
LOW = {"C26": "low_bits", "C14": "low_bits", "C15": "low_lift", "C16": "low_part", "C20": "low_quant", "C21": "low_block"}
# what decides a property at the public interface when its inner modules cannot be called as the harness does
SUBSTITUTE = {"C26": "C26", "C14": "C17", "C15": "C19", "C16": "C01", "C20": "C04", "C21": "C17"}
SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def clean_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "RAYON_NUM_THREADS", "MIRIFLAGS"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    if not e.get("HOME"):
        e["HOME"] = "/root"
    cargo = os.path.join(e["HOME"], ".cargo", "bin")
    if cargo not in e.get("PATH", ""):
        e["PATH"] = cargo + ":" + e.get("PATH", "/usr/bin:/bin")
    return e


class NoBuild(Exception):
    pass


SANCOV = ["-Cpasses=sancov-module", "-Ccodegen-units=1", "-Cllvm-args=-simplifycfg-branch-fold-threshold=0"] + [
    "-Cllvm-args=-sanitizer-coverage-" + x for x in ("level=4", "inline-8bit-counters", "pc-table", "trace-compares")]


# every edge of the control flow is counted when it is taken
STEPS = ["-Cpasses=sancov-module", "-Ccodegen-units=1"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in ("level=3", "trace-pc-guard")]
# generic functions of the crate are compiled with the harness
WITH_HARNESS = {"fuzz-generic": SANCOV, "work": STEPS}


def sancov(profile, flags=SANCOV):
    """coverage and comparison tracing of the crate under test, not of the harness"""
    return ["-Zprofile-rustflags", "--config", "profile.%s.package.gfwx.rustflags=%s" % (profile, json.dumps(flags))]


# name: (toolchain, profile, features, rustflags, extra cargo arguments)
VARIANTS = {
    "release": (None, "release", ["rayon", "adaptive", "cpp", "count_alloc"], "", []),
    "checked": (None, "checked", ["rayon", "adaptive", "cpp", "count_alloc"], "", []),
    "plain-rayon": (None, "release", ["rayon"], "", []),
    "sequential": (None, "release", [], "", []),
    "sequential-adaptive": (None, "release", ["adaptive"], "", []),
    "tsan": ("+nightly", "release", ["rayon"], "-Zsanitizer=thread", ["-Zbuild-std", "--target", HOST]),
    "asan": ("+nightly", "release", ["rayon"], "-Zsanitizer=address", ["--target", HOST]),
    "fuzz": ("+nightly", "release", ["rayon", "adaptive", "cpp", "count_alloc", "fuzz"], "", sancov("release")),
    "fuzz-generic": ("+nightly", "release", ["rayon", "adaptive", "cpp", "count_alloc", "fuzz"], "", sancov("release")),
    "fuzz-checked": ("+nightly", "checked", ["rayon", "adaptive", "cpp", "count_alloc", "fuzz"], "", sancov("checked")),
    "work": ("+nightly", "release", ["rayon", "adaptive", "count_alloc", "work"], "", sancov("release", STEPS)),
    "fuzz-asan": ("+nightly", "release", ["rayon", "fuzz"], "-Zsanitizer=address", sancov("release") + ["--target", HOST]),
}


def cargo(args, cwd, env, limit=700):
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return False, "the build took more than %d s" % limit
    return r.returncode == 0, r.stdout


def build(name, prop, want_low=True):
    """Builds a variant of the harness; gives (binary, what was left out)."""
    toolchain, profile, features, flags, extra = VARIANTS[name]
    own = LOW.get(prop)
    tries = []
    for hook in (True, False):
        for low in (["low"] if want_low else [], [own] if own and want_low else []):
            if (hook, low) not in tries:
                tries.append((hook, low))
        if (hook, []) not in tries:
            tries.append((hook, []))
    out = ""
    for hook, low in tries:
        e = clean_env()
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, name)
        e["RUSTFLAGS"] = (flags + (" --cfg gfwx_verif" if hook else "")).strip()
        own_flags = ["--bin", "gv", "--"] + WITH_HARNESS[name] if name in WITH_HARNESS else []
        args = ([toolchain] if toolchain else []) + ["rustc" if own_flags else "build", "--offline", "--locked", "--profile", profile] + extra
        if features + low:
            args += ["--features", ",".join(features + low)]
        ok, out = cargo(args + own_flags, HARNESS, e)
        if ok:
            d = [TARGET, name] + ([HOST] if "--target" in extra else []) + [profile, "gv"]
            left_out = ([] if hook else ["schedule hook"]) + ([] if low == ["low"] or not want_low else ["inner modules (only %s)" % (low or "none")])
            if left_out:
                log("%s built without %s" % (name, ", ".join(left_out)))
            return os.path.join(*d), left_out, low
    raise NoBuild("%s: %s" % (name, "\n".join(l for l in out.splitlines() if l.startswith("error") or "-->" in l)[:3000]))


class Shard:
    """one process of the harness over the cases start, start + stride, ..."""

    def __init__(self, binary, variant, prop, seed, start, stride, secs, tmp, env=None, args=(), memory=None, cases=None):
        self.binary, self.variant, self.prop, self.seed = binary, variant, prop, seed
        self.start, self.stride, self.secs, self.env_extra = start, stride, secs, dict(env or {})
        self.args, self.memory = list(args), memory
        self.tag = "%s-%d-%s" % (variant, start, prop)
        self.out = os.path.join(tmp, self.tag + ".json")
        self.note = os.path.join(tmp, self.tag + ".note")
        self.err = os.path.join(tmp, self.tag + ".err")
        self.cases = cases
        self.data = None
        self.rc = None

    def command(self, only=None, cpu=None):
        c = [self.binary, self.prop, "--seed", str(self.seed), "--start", str(self.start), "--stride", str(self.stride),
             "--secs", str(int(self.secs)), "--out", self.out, "--note", self.note] + self.args
        if only is not None:
            c += ["--only", str(only)]
        elif self.cases is not None:
            c += ["--cases", str(self.cases)]
        if cpu:
            c += ["--cpu-limit", str(cpu)]
        return c

    def limit(self):
        os.setpgrp()
        if self.memory:
            resource.setrlimit(resource.RLIMIT_AS, (self.memory, self.memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def run(self, only=None, cpu=None, wall=None):
        for f in (self.out, self.out + ".hashes"):
            if os.path.exists(f):
                os.unlink(f)
        e = clean_env()
        e.update(self.env_extra)
        self.timed_out = False
        with open(self.err, "wb") as err:
            p = subprocess.Popen(self.command(only, cpu), env=e, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=self.limit, cwd=HARNESS)
            try:
                p.wait(wall or self.secs + 400)
            except subprocess.TimeoutExpired:
                self.timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        self.rc = p.returncode
        self.data = None
        try:
            with open(self.out) as f:
                self.data = json.load(f)
        except (OSError, ValueError):
            pass
        return self.rc

    def noted(self):
        try:
            with open(self.note) as f:
                return int(f.read(20))
        except (OSError, ValueError):
            return None

    def stderr(self):
        try:
            with open(self.err, errors="replace") as f:
                return f.read()
        except OSError:
            return ""

    def hashes(self):
        try:
            b = open(self.out + ".hashes", "rb").read()
            return {x[0] for x in struct.iter_unpack("<Q", b)}
        except OSError:
            return set()


class FuzzShard:
    """a libFuzzer process whose input makes the decisions of the cases; several share a corpus"""

    def __init__(self, binary, variant, prop, seed, number, secs, corpus, tmp, env, threads):
        self.binary, self.variant, self.prop, self.secs, self.corpus = binary, variant, prop, secs, corpus
        self.dir = os.path.join(tmp, "%s-%d" % (variant, number))
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "report")
        self.err = os.path.join(self.dir, "log")
        self.env_extra = dict({"RAYON_NUM_THREADS": str(threads)}, **(env or {}))
        self.libfuzzer = ["-seed=%d" % (seed * 100 + number + 1), "-max_total_time=%d" % secs, "-max_len=2500", "-len_control=0", "-use_value_profile=%d" % (number % 3 != 2),
                          "-timeout=100", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-print_final_stats=1", "-artifact_prefix=%s/" % self.dir, corpus]
        self.data, self.rc = None, None

    def start(self, args, wall):
        for f in (self.out, self.out + ".hashes"):
            if os.path.exists(f):
                os.unlink(f)
        e = clean_env()
        e.update(self.env_extra)
        self.data, self.timed_out = None, False
        with open(self.err, "ab") as err:
            p = subprocess.Popen([self.binary, "fuzz", self.prop, self.out] + args, env=e, stdout=err, stderr=err, preexec_fn=os.setpgrp, cwd=self.dir)
            try:
                p.wait(wall)
            except subprocess.TimeoutExpired:
                self.timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        try:
            with open(self.out) as f:
                self.data = json.load(f)
        except (OSError, ValueError):
            pass
        return p.returncode

    def run(self):
        self.rc = self.start(self.libfuzzer, self.secs + 250)

    def again(self, path):
        """one input; gives (fails, violation)"""
        rc = self.start(["-timeout=100", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-artifact_prefix=%s/again-" % self.dir, path], 200)
        return rc != 0, (self.data or {}).get("violation")

    def artifacts(self):
        return [os.path.join(self.dir, f) for f in sorted(os.listdir(self.dir)) if re.match(r"(crash|timeout|oom|leak)-", f)]

    def log(self):
        with open(self.err, errors="replace") as f:
            return f.read()

    hashes = Shard.hashes


class Check:
    def __init__(self, prop, tier, seed, secs):
        self.prop, self.tier, self.seed, self.secs = prop, tier, seed, secs
        self.t0 = time.time()
        self.violations = []     # (message, replay dict)
        self.inconclusive = []
        self.harness_errors = []
        self.counts, self.samples, self.known = {}, [], {}
        self.evals, self.distinct = 0, set()
        self.notes = {}
        self.tmp = tempfile.mkdtemp(prefix="gv-%s-" % prop)
        self.thorough = tier == "thorough"

    # ------------------------------------------------------------ running

    def violation(self, message, **replay):
        replay.update({"property": self.prop, "seed": self.seed, "message": message})
        self.violations.append((message, replay))

    def merge(self, s):
        d = s.data
        if not d:
            return
        self.evals += d["evals"]
        self.distinct |= s.hashes()
        for k, v in d["counts"].items():
            self.counts[k] = max(self.counts.get(k, 0), v) if k.startswith("max.") else self.counts.get(k, 0) + v
        self.samples += ["[%s] %s" % (s.variant, x) for x in d["samples"][:1 if len(self.samples) > 4 else 3]]
        for k, v in d["known"].items():
            self.known.setdefault(k, v)
        self.inconclusive += d["inconclusive"][:5]

    def replay_of(self, s, index, **more):
        r = {"variant": s.variant, "case": index, "harness_property": s.prop, "environment": s.env_extra, "arguments": s.args,
             "command": " ".join(s.command(index)[:-1 - 0])}
        r.update(more)
        return r

    def judge(self, s, relevant_crash=True):
        """what one finished shard says"""
        if s.data is not None:
            self.merge(s)
            v = s.data["violation"]
            if v:
                self.violation(v["message"], detail=v["detail"], **self.replay_of(s, v["index"]))
            if s.data["harness_error"]:
                self.harness_errors.append("%s: %s" % (s.tag, s.data["harness_error"]))
            return
        if s.timed_out:
            self.inconclusive.append("%s did not end within the wall clock limit (case %s)" % (s.tag, s.noted()))
            return
        index = s.noted()
        if s.rc == 97 and index is not None:
            first = s.stderr().strip().splitlines()[-1:]
            again = s.run(only=index, cpu=100, wall=600)
            if again == 97:
                self.violation("a call does not return: %s" % " ".join(first), **self.replay_of(s, index))
            else:
                self.inconclusive.append("%s: case %d took long once" % (s.tag, index))
                if s.data:
                    self.judge(s)
            return
        if s.rc == 98 and index is not None:
            first = s.stderr().strip().splitlines()[-1:]
            for k in range(5):
                again = s.run(only=index, wall=300) if k < 4 else s.run()
                if again == 98:
                    self.violation("calls wait for each other and do not return: %s" % " ".join(first), **self.replay_of(s, index if k < 4 else None))
                    return
                if again == 10:
                    self.judge(s)
                    return
            self.inconclusive.append("%s: case %d waited for ever once" % (s.tag, index))
            if s.data:
                self.judge(s)
            return
        if s.rc is not None and s.rc < 0 and -s.rc in SIGNALS and index is not None:
            name = signal.Signals(-s.rc).name
            text = s.stderr()[-2000:]
            for _ in range(3):
                again = s.run(only=index, wall=300)
                if again < 0 and -again in SIGNALS:
                    self.violation("the process died with %s: %s" % (name, last_words(text)), detail=text, **self.replay_of(s, index))
                    return
                if again == 10:
                    self.judge(s)
                    return
            # not by this case alone: by the history before it?
            again = s.run()
            if again < 0 and -again in SIGNALS:
                self.violation("the process died with %s after a series of calls: %s" % (name, last_words(text)), detail=text, **self.replay_of(s, None))
            else:
                self.inconclusive.append("%s: died with %s once, not reproduced" % (s.tag, name))
                self.judge(s) if s.data else None
            return
        self.inconclusive.append("%s ended with %s: %s" % (s.tag, s.rc, last_words(s.stderr())))

    def run_shards(self, shards, workers=8):
        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(lambda s: s.run(), shards))
        for s in shards:
            self.judge(s)

    def shards(self, variant, binary, n=8, secs=None, prop=None, env=None, args=(), memory=8 << 30, stride=None, offset=0, cases=None):
        threads = [2, 1, 3, 8, 2, 4, 1, 5]
        a = list(args) + (["--thorough"] if self.thorough else [])
        return [Shard(binary, variant, prop or self.prop, self.seed, offset + i, stride or n, secs or self.secs, self.tmp,
                      dict({"RAYON_NUM_THREADS": str(threads[i % 8])}, **(env or {})), a, memory, cases) for i in range(n)]

    # ------------------------------------------------------------ coverage-guided workload

    def fuzz_build(self, variant, low):
        try:
            return build(variant, self.prop, low)
        except NoBuild as x:
            return x

    def fuzzing(self, built, variant, prop=None, secs=None, env=None, workers=7):
        """the same cases and oracles, with decisions by libFuzzer"""
        if self.violations:
            return
        if isinstance(built, NoBuild):
            self.inconclusive.append("no fuzzer: %s" % built)
            return
        secs = secs or (200 if self.thorough else 22)
        corpus = os.path.join(self.tmp, variant + "-corpus")
        os.makedirs(corpus)
        rnd = random.Random("%d %s" % (self.seed, self.prop))
        for i in range(100):
            with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                f.write(rnd.randbytes(int(8 * 2 ** rnd.uniform(0, 8))))
        threads = [1, 1, 2, 1, 3, 1, 1, 2]
        ss = [FuzzShard(built[0], variant, prop or self.prop, self.seed, i, secs, corpus, self.tmp, env, threads[i % 8]) for i in range(workers)]
        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(lambda s: s.run(), ss))
        edges = features = runs = 0
        for s in ss:
            text = s.log()
            for m in re.finditer(r"cov: (\d+) ft: (\d+)", text):
                edges, features = max(edges, int(m.group(1))), max(features, int(m.group(2)))
            self.judge_fuzz(s, text)
            if s.data:
                runs += s.data["done"]
        for k, v in (("runs", runs), ("max.edges", edges), ("max.features", features), ("max.corpus", len(os.listdir(corpus)))):
            k = k.replace("max.", "max.%s." % variant) if k.startswith("max.") else "%s.%s" % (variant, k)
            self.counts[k] = max(self.counts.get(k, 0), v)

    def judge_fuzz(self, s, text):
        data = s.data
        found = s.artifacts()
        if data is not None:
            self.merge(s)
            v = data["violation"]
            if v:
                replay = {"variant": s.variant, "case": v["index"], "harness_property": s.prop, "environment": s.env_extra, "detail": v["detail"]}
                if found:
                    replay.update(self.keep(s, found[0]))
                self.violation(v["message"], **replay)
            return
        if s.timed_out or not found:
            self.inconclusive.append("%s ended with %s: %s" % (s.variant, s.rc, last_words(text)))
            return
        path = found[0]
        what = re.search(r"ERROR: (AddressSanitizer[^\n]*|libFuzzer[^\n]*)", text)
        for _ in range(3):
            fails, v = s.again(path)
            if fails:
                message = v["message"] if v else ("a call does not return" if "timeout-" in path else "the process dies: " + (what.group(1) if what else ""))
                if "out-of-memory" in message or "allocation-size-too-big" in message and self.prop != "C07":
                    break
                self.violation(message, variant=s.variant, case=None, harness_property=s.prop, environment=s.env_extra, detail=text[-6000:], **self.keep(s, path))
                return
        self.inconclusive.append("%s: failed once, not reproduced: %s" % (s.variant, what.group(1) if what else path))

    def keep(self, s, path):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        to = os.path.join(d, "%s-%s.input" % (self.prop, os.path.basename(path)[:24]))
        shutil.copyfile(path, to)
        return {"input": to, "command": "%s fuzz %s /dev/null %s" % (s.binary, s.prop, to)}

    # ------------------------------------------------------------ kinds of checks

    def functional(self):
        # these call generic functions
        variant = "fuzz-generic" if self.prop in ("C14", "C16", "C21", "C26") else "fuzz"
        with cf.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build, "release", self.prop, self.prop in LOW), ex.submit(self.fuzz_build, variant, self.prop in LOW)
            (binary, left_out, low), fuzzer = a.result(), b.result()
        self.notes["left_out"] = left_out
        prop = self.prop
        if prop in LOW and not low:
            prop = SUBSTITUTE[prop]
            self.notes["substituted"] = "inner modules could not be called, decided by the monitors of %s at the public interface" % prop
        self.run_shards(self.shards("release", binary, prop=prop))
        if prop == self.prop and not isinstance(fuzzer, NoBuild) and fuzzer[2] != low:
            fuzzer = NoBuild("other parts left out")
        self.fuzzing(fuzzer, variant, prop)

    def work(self):
        binary, self.notes["left_out"], _ = build("work", self.prop, False)
        self.run_shards(self.shards("work", binary))

    def hostile(self):
        with cf.ThreadPoolExecutor(3) as ex:
            a, b = ex.submit(build, "checked", self.prop, False), ex.submit(build, "release", self.prop, False)
            f = ex.submit(self.fuzz_build, "fuzz-checked", False)
            checked, release, fuzzer = a.result()[0], b.result()[0], f.result()
        self.run_shards(self.shards("checked", checked, 6, stride=8) + self.shards("release", release, 2, stride=8, offset=6))
        if self.thorough and not self.violations:
            asan, _, _ = build("asan", self.prop, False)
            ss = self.shards("asan", asan, 8, env=asan_env(), memory=None, offset=1 << 40)
            self.sanitizer_shards(ss, "asan")
        self.fuzzing(fuzzer, "fuzz-checked")
        if self.thorough and not self.violations:
            self.fuzzing(self.fuzz_build("fuzz-asan", False), "fuzz-asan", env=asan_env())

    def arguments(self):
        names = ["release", "checked", "asan"]
        with cf.ThreadPoolExecutor(4) as ex:
            f = ex.submit(self.fuzz_build, "fuzz-asan", True)
            b = dict(zip(names, ex.map(lambda n: build(n, self.prop), names)))
            fuzzer = f.result()
        self.notes["left_out"] = b["release"][1]
        ss = self.shards("release", b["release"][0], 3, stride=8) + self.shards("checked", b["checked"][0], 2, stride=8, offset=3)
        sa = self.shards("asan", b["asan"][0], 3, stride=8, offset=5, env=asan_env(), memory=None)
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda s: s.run(), ss + sa))
        for s in ss:
            self.judge(s)
        self.sanitizer_shards(sa, "asan", ran=True)
        self.fuzzing(fuzzer, "fuzz-asan", env=asan_env())

    def profiles(self):
        with cf.ThreadPoolExecutor(3) as ex:
            a, b = ex.submit(build, "checked", self.prop, False), ex.submit(build, "release", self.prop, False)
            f = ex.submit(self.fuzz_build, "fuzz-checked", False)
            checked, release, fuzzer = a.result()[0], b.result()[0], f.result()
        one = self.shards("checked", checked, 4)
        two = self.shards("release", release, 4)
        self.run_shards(one + two)
        self.compare(one, two)
        self.fuzzing(fuzzer, "fuzz-checked")

    def compare(self, *groups):
        """results of the same cases in several builds"""
        seen, compared = {}, 0
        for g in groups:
            mine = {}
            for s in g:
                for i, h in (s.data or {}).get("digests", []):
                    mine[i] = (h, s)
            for i, (h, s) in mine.items():
                if i not in seen:
                    seen[i] = (h, s)
                    continue
                compared += 1
                if seen[i][0] != h and not self.violations:
                    s1 = seen[i][1]
                    a, b = redo(s1, i), redo(s, i)
                    if a and b and a != b:
                        self.violation("builds %s and %s give different results" % (s1.variant, s.variant), **self.replay_of(s, i, other=self.replay_of(s1, i)))
                    else:
                        self.inconclusive.append("case %d: results of %s and %s differed once" % (i, s1.variant, s.variant))
        self.counts["results_compared_between_builds"] = self.counts.get("results_compared_between_builds", 0) + compared
        return compared

    def schedules(self):
        names = ["release", "plain-rayon", "sequential", "sequential-adaptive"]
        with cf.ThreadPoolExecutor(4) as ex:
            b = dict(zip(names, ex.map(lambda n: build(n, self.prop, False), names)))
        self.notes["left_out"] = b["release"][1]
        no_threads = {"RAYON_NUM_THREADS": "4"}
        a = self.shards("release", b["release"][0], 4, env=no_threads)
        p = self.shards("plain-rayon", b["plain-rayon"][0], 4, env=no_threads)
        self.run_shards(a + p)
        top = max([i for s in a + p for i, _ in (s.data or {}).get("digests", [])] or [0])
        q = self.shards("sequential", b["sequential"][0], 4, cases=top + 1)
        q2 = self.shards("sequential-adaptive", b["sequential-adaptive"][0], 4, cases=top + 1)
        self.run_shards(q + q2)
        if self.compare(a, p, q, q2) == 0 and not self.violations:
            self.harness_errors.append("no results to compare between builds")

    def races(self):
        """ThreadSanitizer, AddressSanitizer, Miri and rustc's own checks over the same workload"""
        jobs = {"tsan": lambda: build("tsan", self.prop), "asan": lambda: build("asan", self.prop), "checked": lambda: build("checked", self.prop),
                "miri": lambda: miri_build(self.tmp)}
        built = {}
        with cf.ThreadPoolExecutor(4) as ex:
            fs = {k: ex.submit(f) for k, f in jobs.items()}
            for k, f in fs.items():
                try:
                    built[k] = f.result()
                except NoBuild as x:
                    self.inconclusive.append(str(x))
        if not built:
            raise NoBuild("no sanitizer build")
        self.notes["builds"] = sorted(built)
        secs = self.secs
        ss = []
        if "tsan" in built:
            logs = os.path.join(self.tmp, "tsan")
            ss += self.shards("tsan", built["tsan"][0], 3, secs, memory=None, env={
                "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:log_path=%s" % logs})
        if "asan" in built:
            ss += self.shards("asan", built["asan"][0], 2, secs, memory=None, env=asan_env())
        if "checked" in built:
            ss += self.shards("checked", built["checked"][0], 1, secs)
        miri = []
        if "miri" in built:
            n = 7 if self.thorough else 3
            miri = [("rayon", i) for i in range(n)] + [("sequential", i) for i in range(n // 2)]
        with cf.ThreadPoolExecutor(6) as ex, cf.ThreadPoolExecutor(10) as mx:
            ms = [mx.submit(self.miri_run, kind, i, secs) for kind, i in miri]
            list(ex.map(lambda s: s.run(), ss))
            for m in ms:
                m.result()
        self.sanitizer_shards([s for s in ss if s.variant == "asan"], "asan", ran=True)
        for s in ss:
            if s.variant == "checked":
                self.judge(s)
            if s.variant == "tsan":
                self.tsan(s)
        if not any(k in built for k in ("tsan", "asan", "miri")):
            self.harness_errors.append("no sanitizer could be built")

    def tsan(self, s):
        reports = []
        for f in sorted(os.listdir(self.tmp)):
            if f.startswith("tsan."):
                with open(os.path.join(self.tmp, f), errors="replace") as g:
                    reports += g.read().split("==================")
                os.unlink(os.path.join(self.tmp, f))
        text = s.stderr()
        reports += text.split("==================") if "ThreadSanitizer" in text else []
        foreign = 0
        for r in reports:
            if "ThreadSanitizer" not in r or "SUMMARY" not in r and "WARNING" not in r:
                continue
            if "data race" in r and not race_in_crate(r):
                foreign += 1
                continue
            if "data race" in r:
                self.violation("data race: " + summary(r), detail=r[:6000], **self.replay_of(s, s.noted()))
                break
            if "DEADLYSIGNAL" in r or "SEGV" in r:
                self.violation("ThreadSanitizer: " + summary(r), detail=r[:6000], **self.replay_of(s, s.noted()))
                break
            foreign += 1
        self.counts["tsan_reports_outside_the_crate"] = self.counts.get("tsan_reports_outside_the_crate", 0) + foreign
        if s.data is not None or s.timed_out:
            self.judge(s)
        elif not self.violations:
            self.inconclusive.append("%s ended with %s: %s" % (s.tag, s.rc, last_words(s.stderr())))

    def sanitizer_shards(self, ss, kind, ran=False):
        if not ran:
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda s: s.run(), ss))
        for s in ss:
            text = s.stderr()
            if "ERROR: AddressSanitizer" in text and s.data is None:
                m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", text)
                what = m.group(1) if m else ""
                if "out-of-memory" in what or "allocation-size-too-big" in what and self.prop != "C07":
                    self.inconclusive.append("%s: %s" % (s.tag, what))
                    continue
                self.violation("AddressSanitizer: " + what + " " + first_frame(text), detail=text[:6000], **self.replay_of(s, s.noted()))
            else:
                self.judge(s)

    def miri_run(self, kind, i, secs):
        rayon = kind == "rayon"
        e = clean_env()
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri-" + kind)
        e["RUSTFLAGS"] = "--cfg gfwx_verif"
        e["MIRIFLAGS"] = " ".join((["-Zmiri-tree-borrows", "-Zmiri-disable-validation"] if rayon else []) + ["-Zmiri-ignore-leaks", "-Zmiri-disable-isolation", "-Zmiri-seed=%d" % (self.seed * 1000 + i)])
        e["RAYON_NUM_THREADS"] = "3"
        n = 7 if self.thorough else 5
        args = ["+nightly", "miri", "run", "--offline", "--locked"] + (["--features", "rayon,low"] if rayon else ["--features", "low"])
        args += ["--", "C10", "--seed", str(self.seed + 7), "--start", str(i), "--stride", str(n), "--secs", str(int(secs)), "--small", "--no-files"]
        out = os.path.join(self.tmp, "miri-%s-%d" % (kind, i))
        with open(out, "wb") as o, open(out + ".err", "wb") as err:
            p = subprocess.Popen(["cargo"] + args, cwd=HARNESS, env=e, stdout=o, stderr=err, preexec_fn=os.setpgrp)
            try:
                p.wait(secs * 3 + 120)
                slow = False
            except subprocess.TimeoutExpired:
                slow = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        text = open(out + ".err", errors="replace").read()
        cases = re.findall(r"^case (\d+)$", text, re.M)
        replay = {"variant": "miri-" + kind, "case": int(cases[-1]) if cases else None, "command": "RUSTFLAGS='%s' MIRIFLAGS='%s' RAYON_NUM_THREADS=3 cargo %s" % (e["RUSTFLAGS"], e["MIRIFLAGS"], " ".join(args))}
        m = re.search(r"^error: (Undefined Behavior: .*)$", text, re.M)
        k = "miri_%s_cases" % kind
        self.counts[k] = self.counts.get(k, 0) + len(cases)
        if m and re.search(r"(/repo/src/|gfwx::)", text[m.start():]):
            self.violation("Miri: " + m.group(1), detail=text[m.start():][:6000], **replay)
            return
        if m:
            self.inconclusive.append("Miri, outside the crate: " + m.group(1))
            return
        try:
            d = json.loads(open(out).read().strip().splitlines()[-1])
        except (ValueError, IndexError):
            if not slow or not cases:
                self.inconclusive.append("Miri (%s): %s" % (kind, last_words(text)))
            return
        self.evals += d["evals"]
        self.counts["miri_%s_distinct" % kind] = self.counts.get("miri_%s_distinct" % kind, 0) + (d["hashes"] or 0)
        if d["violation"]:
            self.violation(d["violation"]["message"], detail=d["violation"]["detail"], **replay)
        elif d["samples"]:
            self.samples.append("[miri-%s] %s" % (kind, d["samples"][0]))

    def tools(self):
        import c22
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(build, "release", self.prop, False)
            b = ex.submit(c22.build_cli, HERE, TARGET, clean_env())
            gv, bins = a.result()[0], b.result()
        if bins is None:
            raise NoBuild("the example tools do not build")
        c22.run(self, gv, bins)

    # ------------------------------------------------------------ reporting

    def finish(self):
        listed = known_findings(self.prop)
        for k, v in sorted(self.known.items()):
            if k in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, v))
            else:
                self.violation("%s: %s" % (k, v))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct) + sum(v for k, v in self.counts.items() if k.startswith("miri_") and k.endswith("_distinct")),
               "rule": rules.RULES[self.prop], "samples": self.samples[:12], "observed": dict(sorted(self.counts.items()))}
        cov.update({k: v for k, v in self.notes.items() if v})
        if self.known:
            cov["known_findings"] = self.known
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
             "assumptions": rules.ASSUMPTIONS.get(self.prop, []) + rules.COMMON, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.tmp, ignore_errors=True)
        for x in self.inconclusive[:10]:
            log("inconclusive:", x[:500])
        for x in self.harness_errors[:5]:
            log("harness error:", x[:1500])
        if self.violations:
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, self.seed))
            with open(path, "w") as f:
                json.dump([r for _, r in self.violations[:20]], f, indent=1)
                f.write("\n")
            for m, r in self.violations[:5]:
                log("violated: %s (case %s of %s)" % (m[:800], r.get("case"), r.get("variant")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        if self.evals == 0:
            log("nothing was observed")
            return 2
        if self.harness_errors:
            return 2
        print("%s held: %d evaluations, %d distinct and non-trivial, %.1f s" % (self.prop, self.evals, cov["distinct_nontrivial"], time.time() - self.t0))
        return 0


def redo(s, index):
    s.run(only=index, wall=300)
    d = (s.data or {}).get("digests", [])
    return d[0][1] if d else None


def last_words(text):
    lines = [l for l in text.strip().splitlines() if l.strip() and not re.match(r"case \d+$", l)]
    return " | ".join(lines[-3:])[-600:]


def summary(report):
    m = re.search(r"SUMMARY: (.*)", report)
    return m.group(1) if m else report.strip().splitlines()[0] if report.strip() else ""


def first_frame(text):
    m = re.search(r"#\d+ [^\n]*(/repo/src/[^\n]*)", text)
    return m.group(1) if m else ""


def race_in_crate(report):
    """is one of the two conflicting accesses made by the crate under test (or by std on its behalf)?"""
    stacks = re.findall(r"^  (?:Write|Read|Atomic write|Atomic read|Previous \w+|Previous atomic \w+|\w+)[^\n]* of size[^\n]*\n((?:    #[^\n]*\n)+)", report, re.M)
    hits = 0
    for st in stacks:
        frames = [f for f in st.splitlines() if "#" in f]
        for f in frames:
            if "/repo/src/" in f:
                hits += 1
                break
            if "/rustc/" in f or "/rust-src/" in f or "/library/" in f or "<null>" in f or "libc" in f or "sanitizer" in f:
                continue
            break
    return hits > 0


def asan_env():
    return {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=8000:handle_segv=1:detect_stack_use_after_return=0"}


def miri_build(tmp):
    e = clean_env()
    e["RUSTFLAGS"] = "--cfg gfwx_verif"
    for kind, feats in (("rayon", "rayon,low"), ("sequential", "low")):
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri-" + kind)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        # builds, and runs no case at all
        ok, out = cargo(["+nightly", "miri", "run", "--offline", "--locked", "--features", feats, "--", "C10", "--cases", "0", "--no-files", "--secs", "1"], HARNESS, e)
        if not ok:
            raise NoBuild("miri: " + out[-1500:])
    return True


def known_findings(prop):
    ids = set()
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) (\S+)", line)
            if m and m.group(1) == prop:
                ids.add(m.group(2).rstrip(":"))
    except OSError:
        pass
    return ids


KIND = {"C07": "hostile", "C09": "schedules", "C10": "races", "C19": "profiles", "C22": "tools", "C27": "arguments", "C29": "work"}
# the codec as a whole has the most to vary
QUICK = dict({"C09": 45, "C10": 40}, **{p: 38 for p in "C01 C02 C03 C04 C05 C06 C07 C08 C12 C15 C17 C18 C19 C20 C21 C25".split()})
THOROUGH = {"C10": 420, "C07": 240, "C09": 400}


def replay(path):
    for r in json.load(open(path)):
        print(r["message"])
        if "command" in r:
            print(r["command"])
        print(r.get("detail", "")[:4000])


def main():
    a = sys.argv[1:]
    if a[:1] == ["replay"]:
        return replay(a[1])
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1")) & 0xffffffff
    except ValueError:
        seed = 1
    prop = a[0]
    secs = float(opt("--secs", 0)) or (THOROUGH.get(prop, 480) if tier == "thorough" else QUICK.get(prop, 25))
    c = Check(prop, tier, seed, secs)
    try:
        getattr(c, KIND.get(prop, "functional"))()
    except NoBuild as x:
        log("cannot build:", x)
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
