#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py <property> [--tier quick|thorough] [--seed N]
       check.py --setup
       check.py --replay <file>

exit 0: no violation observed; exit 1: VIOLATION line printed; exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shlex, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
KNOWN = os.path.join(ROOT, "known-findings.txt")
REPO = "/repo"
DEADLINE = time.time() + (float(os.environ.get("VERIF_MAX_SECS", "0")) or 840)
HOST = "x86_64-unknown-linux-gnu"
MIRI_TARGETS = [("miri-32bit", "armv7-unknown-linux-gnueabihf"), ("miri-64bit", "riscv64gc-unknown-linux-gnu")]
QUICK_MIRI = {"C24": 110, "C26": 40}
ASSUME = [
    "the oracles' double-double arithmetic and reference algorithms (harness/src/dd.rs, refm.rs) are right",
    "the compiler that builds the monitors gives the library the semantics its users get",
]


# properties that say that certain programs build, and those programs
OWN_PROGRAMS = {
    "C20": "using its own point or component types",
    "C21": "using its own point or component types",
    "C26": "sharing, sending and copying curves between threads",
    "C27": "copying and comparing curves and errors",
}


def base_env():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                e[k] = v
    except OSError:
        pass
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "MIRIFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("CARGO_PROFILE_DEV_DEBUG", None)
    return e


ENV = base_env()


def left():
    return DEADLINE - time.time()


def run(cmd, env, timeout, cwd=HARNESS):
    """-> (rc, output); rc None on timeout, negative on a signal"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


class Config:
    def __init__(self, name, tdir, rustflags="", extra=(), toolchain=None, sub="debug"):
        self.name, self.tdir, self.flags, self.extra, self.toolchain, self.sub = name, os.path.join(ROOT, tdir), rustflags, list(extra), toolchain, sub
        self.profile = {}

    def env(self):
        e = dict(ENV)
        e["CARGO_TARGET_DIR"] = self.tdir
        if self.flags:
            e["RUSTFLAGS"] = self.flags
        if self.toolchain:
            e["RUSTUP_TOOLCHAIN"] = self.toolchain
        e.update(self.profile)
        return e

    def build(self, bins, probe=True):
        cmd = ["cargo", "build", "--offline", "--quiet"] + self.extra
        for b in bins:
            cmd += ["--bin", b]
        if not probe:
            cmd += ["--no-default-features"]
        return run(cmd, self.env(), left())

    def exe(self, b):
        return os.path.join(self.tdir, self.sub, b)


F64 = Config("f64", "target")
F32 = Config("f32", "target-f32", "--cfg stroke_verif_f32")
ASAN = [
    Config("asan-f64", "target-asan", "-Zsanitizer=address", ["--target", HOST], sub=HOST + "/debug"),
    Config("asan-f32", "target-asan32", "-Zsanitizer=address --cfg stroke_verif_f32", ["--target", HOST], sub=HOST + "/debug"),
]

I686 = Config("native-32bit", "target-i686", "-Znext-solver=no -Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static -Crelocation-model=static -Clinker=clang", ["--target", "i686-unknown-linux-gnu", "-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem"], toolchain="nightly", sub="i686-unknown-linux-gnu/debug")
TSAN = Config("tsan", "target-tsan", "-Zsanitizer=thread -Znext-solver=no", ["--target", HOST, "-Zbuild-std"], toolchain="nightly", sub=HOST + "/debug")
# builds whose answers have to agree with those of the monitors' own (C29)
def variant(name, tdir, f32=False, release=False, flags="", **profile):
    c = Config(name, tdir, " ".join(x for x in [flags, "--cfg stroke_verif_f32" if f32 else ""] if x), ["--release"] if release else [], sub="release" if release else "debug")
    c.profile = {f"CARGO_PROFILE_{'RELEASE' if release else 'DEV'}_{k.upper()}": str(v) for k, v in profile.items()}
    c.f32 = f32
    return c


VARIANTS = [
    variant("release-f64", "target", release=True),
    variant("release-f32", "target-f32", True, release=True),
    variant("unoptimised-f64", "target-o0", opt_level=0),
    variant("native-cpu-f64", "target-cpu", release=True, flags="-Ctarget-cpu=native"),
]
VARIANTS_THOROUGH = [
    variant("unoptimised-f32", "target-o0-f32", True, opt_level=0),
    variant("size-f64", "target-os", release=True, opt_level="s"),
    variant("size-f32", "target-os-f32", True, release=True, opt_level="z"),
    variant("lto-f64", "target-lto", release=True, lto="fat", codegen_units=1),
    variant("native-cpu-f32", "target-cpu-f32", True, release=True, flags="-Ctarget-cpu=native"),
    variant("checked-release-f64", "target-checked", release=True, debug_assertions="true", overflow_checks="true"),
]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.bin = prop.lower()
        self.violations = []  # (config, class, detail, replay dict)
        self.errors = []
        self.runs = []
        self.notes = []
        self.extra = {}
        self.t0 = time.time()
        self.tmp = os.path.join(ROOT, "out")
        os.makedirs(self.tmp, exist_ok=True)

    def violate(self, name, cls, detail, /, **replay):
        self.violations.append((name, cls, detail, replay))

    # ---------------------------------------------------------------- building
    def build(self):
        """-> configs that were built, with the reason recorded for those that were not"""
        bins = [self.bin]
        res = {}
        with cf.ThreadPoolExecutor(2) as ex:
            fs = {c: ex.submit(c.build, bins) for c in (F64, F32)}
            res = {c: f.result() for c, f in fs.items()}
        ok = [c for c in (F64, F32) if res[c][0] == 0]
        bad = [c for c in (F64, F32) if res[c][0] != 0]
        if not bad:
            return ok
        if any(res[c][0] is None for c in bad):
            self.errors.append("build timed out")
            return []
        # does the user-side point type stand in the way, or anything else?
        own = OWN_PROGRAMS.get(self.prop)
        plain = ["c01"] if own else [self.bin]
        if self.prop in ("C26", "C27"):
            # the program may fail to build over the user-side point type only
            with cf.ThreadPoolExecutor(2) as ex:
                fs = {c: ex.submit(c.build, bins, False) for c in bad}
                again = {c: f.result() for c, f in fs.items()}
            for c in [c for c in bad if again[c][0] == 0]:
                self.notes.append(f"{c.name}: built without the user-side point type (see C21)")
                ok.append(c)
                bad.remove(c)
        with cf.ThreadPoolExecutor(2) as ex:
            fs = {c: ex.submit(c.build, plain, False) for c in bad}
            res2 = {c: f.result() for c, f in fs.items()}
        good2 = [c for c in bad if res2[c][0] == 0]
        for c in good2:
            if own:
                self.violate(c.name, "programs", f"a program {own} no longer builds against the library: " + errors_of(res[c][1]), build=True, log=res[c][1][-6000:])
            else:
                self.notes.append(f"{c.name}: built without the user-side point type (see C21)")
                ok.append(c)
        broken = [c for c in bad if res2[c][0] != 0]
        if F64 in broken:
            self.errors.append("the monitors do not build against /repo: " + errors_of(res2[F64][1]))
            return []
        if F32 in broken:
            if self.prop == "C24":
                self.violate("f32", "configuration", "the 32-bit configuration of the library does not build: " + errors_of(res2[F32][1]), build=True, log=res2[F32][1][-6000:])
            else:
                self.notes.append("f32: the 32-bit configuration does not build (see C24)")
        return ok

    # ---------------------------------------------------------------- running
    def collect(self, name, out, rc, log, replay):
        """read the result file of one monitor process"""
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                pass
            os.remove(out)
        if d is not None:
            self.runs.append((name, d))
            for v in d["violations"]:
                self.violate(name, v["class"], v["detail"], case=v["case"], **replay)
            if d["n_violations"] == 0 and d["errors"]:
                self.errors += [f"{name}: {e}" for e in d["errors"]]
            return d
        if rc is not None and (rc < 0 or rc >= 128) and rc not in (-signal.SIGKILL, 137, -signal.SIGTERM, 143):
            self.violate(name, "crash", f"the process executing the library died with {rc}: {log[-1500:]}", **replay)
        else:
            self.errors.append(f"{name}: monitor ended with {rc} and no result: {log[-1500:]}")
        return None

    def native(self, cfg, extra=(), label=None, env=None):
        out = os.path.join(self.tmp, f"{self.bin}-{cfg.name}-{os.getpid()}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [cfg.exe(self.bin), "--tier", self.tier, "--seed", str(self.seed), "--out", out] + list(extra)
        e = cfg.env()
        e.update(env or {})
        rc, log = run(cmd, e, left())
        report = re.search(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer", log)
        if report:
            self.violate(cfg.name, "asan" if "Address" in report.group(0) else "data-race", log[report.start():][:3000], config=cfg.name, seed=self.seed)
        if rc is None:
            self.errors.append(f"{cfg.name}: the monitor did not finish in time")
            return
        if not report:
            self.collect(label or cfg.name, out, rc, log, dict(config=cfg.name, seed=self.seed))

    def miri(self):
        """the same workload under Miri, several processes per target"""
        cases, per = (QUICK_MIRI[self.prop], 4) if self.tier == "quick" else (100000, 4)
        budget = 200 if self.tier == "quick" else max(60, int(left() - 60) // 2)

        def one(name, target, i, n):
            e = dict(ENV)
            e["RUSTUP_TOOLCHAIN"] = "nightly"
            e["RUSTFLAGS"] = "-Znext-solver=no"
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
            e["CARGO_TARGET_DIR"] = os.path.join(ROOT, "target-" + name)
            out = os.path.join(self.tmp, f"{self.bin}-{name}-{i}-{os.getpid()}.json")
            seed = self.seed * 1000 + i
            cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--target", target] + self.miri_features.get(name, []) + ["--bin", self.bin, "--", "--tier", self.tier, "--seed", str(seed), "--cases", str(n), "--max-secs", str(budget), "--out", out]
            rc, log = run(cmd, e, left())
            return name, target, seed, out, rc, log

        self.miri_features = {}
        with cf.ThreadPoolExecutor(8) as ex:
            # the first process of each target builds
            firsts = [f.result() for f in [ex.submit(one, n, t, 0, 1) for n, t in MIRI_TARGETS]]
            targets = []
            for (name, target, seed, out, rc, log) in firsts:
                if rc == 0 or os.path.exists(out) or "Undefined Behavior" in log:
                    targets.append((name, target))
                elif re.search(r"^error(\[E\d+\])?:.*", log, re.M) and rc is not None:
                    # does only the user's point type not build?
                    self.miri_features[name] = ["--no-default-features"]
                    r = one(name, target, 0, 1)
                    if r[4] == 0 or os.path.exists(r[3]):
                        targets.append((name, target))
                    else:
                        self.violate(name, "configuration", f"the library cannot be built and run for {target}: {errors_of(r[5])}", build=True, log=r[5][-6000:])
                else:
                    self.errors.append(f"{name}: Miri could not be started: {log[-800:]}")
            rs = [f.result() for f in [ex.submit(one, n, t, i, cases) for i in range(per) for n, t in targets]]
        for name, target, seed, out, rc, log in rs:
            rep = dict(config=name, target=target, seed=seed)
            if "Undefined Behavior" in log:
                self.violate(name, "undefined-behaviour", log[log.index("Undefined Behavior"):][:3000], **rep)
            elif rc is None:
                self.errors.append(f"{name}: the monitor did not finish in time")
            elif rc not in (0, 1, 3) and not os.path.exists(out):
                m = re.search(r"^error: .*", log, re.M)
                self.violate(name, "abnormal", f"interpretation on {target} ended abnormally: {m.group(0) if m else log[-800:]}", **rep)
            else:
                self.collect(name, out, rc, log, rep)

    def tsan(self):
        """the threads of C26 under ThreadSanitizer, with an instrumented standard library"""
        rc, log = TSAN.build([self.bin])
        if rc != 0:
            self.notes.append("no ThreadSanitizer run (the instrumented build failed): " + errors_of(log))
            return
        n = 8000 if self.tier == "quick" else 1000000
        self.native(TSAN, ["--cases", str(n), "--max-secs", str(max(30, min(200, int(left() / 2))) if self.tier == "quick" else max(60, int(left() / 3)))], env={"TSAN_OPTIONS": "halt_on_error=1"})

    def freestanding(self, c, hosted_by, cls, what):
        """the answers of a program without std and allocator against those of a hosted one"""
        cwd = os.path.join(ROOT, "bare")
        cmd = ["cargo", "build", "--offline", "--quiet"] + c.extra
        rc, log = run(cmd, c.env(), left(), cwd=cwd)
        if rc is None:
            self.errors.append(f"{c.name}: build of the freestanding program timed out")
            return
        if rc != 0:
            e = c.env()
            e["CARGO_TARGET_DIR"] += "-none"
            if run(cmd + ["--no-default-features"], e, left(), cwd=cwd)[0] != 0:
                self.notes.append(f"{c.name}: this tool chain builds no freestanding program")
            else:
                self.violate(c.name, cls, f"{what} no longer builds and links with the library, a hosted one does: " + errors_of(log), build=True, log=log[-6000:])
            return
        e = c.env()
        e["VERIF_BARE"] = "1"
        rc1, hosted = run([hosted_by.exe(self.bin)], e, min(120, left()))
        try:
            rc2, free = run([c.exe("bare")], c.env(), min(120, left()))
        except OSError as x:
            self.notes.append(f"{c.name}: the freestanding program cannot be started here: {x}")
            return
        h, f = hosted.splitlines(), free.splitlines()
        if rc1 is None or rc2 is None:
            self.errors.append(f"{c.name}: the freestanding workload did not end in time")
        elif rc1 != 0 or not h:
            self.violate(c.name, cls, f"the hosted run of the workload ended with {rc1}: {hosted[-600:]}", build=True, log=hosted[-3000:])
        else:
            bad = [f"{a} (hosted) {b} (here)" for a, b in zip(h, f) if a != b]
            if rc2 != 0 or bad or len(h) != len(f):
                self.violate(c.name, cls, f"{what} gets other answers than a hosted one: {bad[:4]}, exit {rc2}, {len(f)} of {len(h)} answers", build=True, log=hosted + "\n----\n" + free)
            self.extra.setdefault("freestanding_answers_compared", {})[c.name] = len(h)

    def bare(self):
        if self.prop == "C28":
            for c in (F64, F32):
                if os.path.exists(c.exe(self.bin)):
                    self.freestanding(c, c, "freestanding", "a program without std and without an allocator")
        if os.path.exists(F32.exe(self.bin)):
            # the 32-bit program and the 32-bit configuration hosted on a 64-bit machine use the same scalar: bit for bit
            self.freestanding(I686, F32, "target", "a 32-bit program (without std and without an allocator)")

    def profiles(self, base):
        """the answers of each build against those of the monitors' own build, case by case"""
        vs = [v for v in VARIANTS + (VARIANTS_THOROUGH if self.tier == "thorough" else []) if (F32 if v.f32 else F64) in base]
        feats = any("user-side point type" in n for n in self.notes)
        with cf.ThreadPoolExecutor(4) as ex:
            built = list(ex.map(lambda v: v.build([self.bin], not feats), vs))
        for v, (rc, log) in zip(vs, built):
            ref = F32 if v.f32 else F64
            if rc != 0:
                if rc is None:
                    self.errors.append(f"{v.name}: build timed out")
                else:
                    self.violate(v.name, "build", "the library does not build in this way, it does for the other runs: " + errors_of(log), build=True, log=log[-6000:])
                continue
            dig = os.path.join(self.tmp, f"{self.bin}-{v.name}-{os.getpid()}.digests")
            self.native(v, ["--digests", dig])
            mine, other = self.digests.get(ref.name, b""), b""
            if os.path.exists(dig):
                other = open(dig, "rb").read()
                os.remove(dig)
            if not mine or len(mine) != len(other):
                if not self.violations:
                    self.errors.append(f"{v.name}: no digests to compare")
                continue
            cmpd = same_in = 0
            bad = []
            for i in range(0, len(mine), 16):
                if mine[i : i + 8] == other[i : i + 8]:
                    same_in += 1
                    if mine[i + 8 : i + 16] != other[i + 8 : i + 16]:
                        bad.append(i // 16)
                cmpd += 1
            self.extra.setdefault("cases_compared_with_another_build", {})[v.name] = {"compared": same_in, "different": len(bad)}
            if same_in < 0.99 * cmpd:
                self.errors.append(f"{v.name}: only {same_in} of {cmpd} cases had the same inputs")
            for case in bad[:5]:
                a, b = ([l for l in run([c.exe(self.bin), "--tier", self.tier, "--seed", str(self.seed), "--replay", str(case)], c.env(), min(60, left()))[1].splitlines() if "answer" in l or "input" in l] for c in (ref, v))
                diff = [f"{x.strip()} ({ref.name}), {y.strip()} ({v.name})" for x, y in zip(a, b) if x != y]
                what = next((l.strip() for l in a if "input" in l), "")
                self.violate(v.name, "differs", f"{len(bad)} of {same_in} cases are answered differently; case {case}: {diff[:3]} {what}"[:3000], config=v.name, seed=self.seed, case=case, other_build=ref.name)

    def explore(self):
        cfgs = self.build()
        self.digests = {}
        for c in cfgs:
            if self.prop == "C29":
                dig = os.path.join(self.tmp, f"{self.bin}-{c.name}-{os.getpid()}.digests")
                self.native(c, ["--digests", dig])
                if os.path.exists(dig):
                    self.digests[c.name] = open(dig, "rb").read()
                    os.remove(dig)
            else:
                self.native(c)
        if self.prop == "C29" and cfgs:
            self.profiles(cfgs)
        if self.prop in ("C24", "C28") and F32 in cfgs:
            self.bare()
        if self.prop in QUICK_MIRI and cfgs and not self.violations:
            if self.prop == "C26":
                self.tsan()
            self.miri()
        if self.tier == "thorough" and self.prop in ("C23", "C24") and cfgs and left() > 120 and not self.violations:
            for c in ASAN:
                rc, log = c.build([self.bin])
                if rc != 0:
                    self.errors.append(f"{c.name}: build failed: {errors_of(log)}")
                    continue
                self.native(c, ["--max-secs", str(max(30, int(left() / 3)))])

    # ---------------------------------------------------------------- reporting
    def finish(self):
        known, reported = known_findings(self.prop), []
        seen_known = set()
        for v in self.violations:
            k = next((k for k in known if re.search(k["match"], f"{v[1]}: {v[2]}")), None)
            if k:
                seen_known.add(k["text"])
            else:
                reported.append(v)
        # a listed finding is announced whether or not this run's inputs reached it
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k['text']}" + ("" if k["text"] in seen_known else " (not reached in this run)"))
        self.evidence(len(reported))
        if reported:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            config, cls, detail, replay = reported[0]
            path = os.path.join(ROOT, "replays", f"{self.prop}-{config}-{replay.get('case', 0)}.json")
            replay.update(property=self.prop, tier=self.tier, **{"class": cls}, detail=detail, others=[{"config": c, "class": k, "detail": d, "replay": r} for c, k, d, r in reported[1:20]])
            replay.setdefault("config", config)
            json.dump(replay, open(path, "w"), indent=1)
            for c, k, d, r in reported[:5]:
                print(f"  [{c}] {k}: {d[:800]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.errors:
            for e in self.errors[:6]:
                print(f"ERROR {self.prop}: {e}", file=sys.stderr)
            return 2
        n = sum(d["evaluations"] for _, d in self.runs)
        print(f"{self.prop}: no violation in {n} judged observations ({', '.join(sorted({x for x, _ in self.runs}))})")
        return 0

    def evidence(self, nv):
        ev, calls, samples, per = {}, {}, [], {}
        for name, d in self.runs:
            for k, v in d["events"].items():
                ev[k] = ev.get(k, 0) + v
            for k, v in d["library_calls"].items():
                calls[k] = calls.get(k, 0) + v
            p = per.setdefault(name, {"runs": 0, "cases": 0, "evaluations": 0, "distinct_nontrivial": 0})
            p["runs"] += 1
            for k in ("cases", "evaluations", "distinct_nontrivial"):
                p[k] += d[k]
            samples += [{"config": name, "case": s["case"], "input": s["what"]} for s in d["samples"][:3]]
        cov = {
            "evaluations": sum(d["evaluations"] for _, d in self.runs),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for _, d in self.runs),
            "rule": (self.runs[0][1]["rule"] + "; evaluations are oracle decisions, counted in every configuration; an input counts as distinct once per configuration and run") if self.runs else "nothing ran",
            "samples": samples[:12] or ["nothing ran"],
            "cases": sum(d["cases"] for _, d in self.runs),
            "library_calls_observed": calls,
            "events": ev,
            "configurations": per,
        }
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        if self.errors:
            cov["errors"] = self.errors[:5]
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 2), "violations": nv}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", f".{self.prop}.tmp")
        json.dump(doc, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", f"{self.prop}.json"))


def errors_of(log):
    ls = [l for l in log.splitlines() if l.startswith("error") or l.lstrip().startswith("-->")]
    return " | ".join(x.strip() for x in ls[:6]) or log[-400:]


def known_findings(prop):
    """lines `known: property=<id> match=/<regex>/ <what fails>`; `fixed:` lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "text": m.group(3)})
    return out


def replay(path):
    d = json.load(open(path))
    if d.get("build"):
        print(d["log"])
        return 1
    cfg = {c.name: c for c in [F64, F32, TSAN] + ASAN + VARIANTS + VARIANTS_THOROUGH}.get(d["config"])
    b = d["property"].lower()
    if cfg is None:
        print("replay by hand: cargo miri run --target", d.get("target"), "--bin", b, "-- --seed", d["seed"], "--replay", d.get("case", 0))
        return 1
    rc, log = cfg.build([b])
    if rc != 0:
        print(log)
        return 2
    if d.get("other_build"):
        # the answers of both builds; the difference is the violation
        outs = []
        for c in ({"f64": F64, "f32": F32}[d["other_build"]], cfg):
            if c.build([b])[0] != 0:
                return 2
            outs.append(run([c.exe(b), "--tier", d["tier"], "--seed", str(d["seed"]), "--replay", str(d["case"])], c.env(), left())[1].splitlines())
        bad = [(x, y) for x, y in zip(*outs) if x != y]
        for x, y in bad:
            print(f"{d['other_build']}: {x.strip()}\n{cfg.name}: {y.strip()}")
        return 1 if bad else 0
    rc, log = run([cfg.exe(b), "--tier", d["tier"], "--seed", str(d["seed"]), "--replay", str(d.get("case", 0))], cfg.env(), left())
    print(log)
    return rc


def setup():
    """nothing is carried over to the checks, so this only shows that the tool chain can build the monitors"""
    for c in (F64, F32):
        rc, log = c.build(["c01", "c24"])
        if rc != 0:
            print(log)
            return 1
    print("monitors build")
    return 0


def main(a):
    if a[:1] == ["--setup"]:
        return setup()
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop, tier, seed = a[0], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        i += 2
    if tier == "thorough":
        global DEADLINE
        DEADLINE = time.time() + float(os.environ.get("VERIF_MAX_SECS", "0") or 14400)
    c = Check(prop, tier, seed)
    c.explore()
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        # a defect of this runner is never a verdict about the library
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
