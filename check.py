#!/usr/bin/env python3
"""check.py ID|setup [--tier quick|thorough] [--replay FILE]

Decides one property of jettison with generated inputs: builds the harness
against /repo's working tree, runs shards of it, writes evidence/ID.json.

exit 0: the property held on everything explored
exit 1: VIOLATION property=ID replay=FILE
exit 2: the check itself failed (build error, harness error, a worker killed)
"""
import argparse, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

GOROOT = "/opt/veriftools/go1.23.12"
OPTIONAL = ("386", "asan", "fuzz")  # modes that are left out where they cannot be built or run
FUZZ = ["-handle_%s=0" % x for x in "segv bus abrt ill fpe int term xfsz usr1 usr2".split()] + ["-timeout=0", "-rss_limit_mb=0", "-detect_leaks=0", "-artifact_prefix=./"]
RUNS = {"C02": 12000}  # targets with a new type in every run
LOCK = threading.Lock()
WORKERS = min(8, os.cpu_count() or 4)
FATAL = re.compile(r"^(fatal error: .*|runtime: .*|unexpected fault address.*|panic: .*|checkptr: .*|.*\[signal SIG\w+.*|WARNING: DATA RACE|==\d+==ERROR: AddressSanitizer: .*|SIG\w+: .*)$", re.M)
NOMEM = re.compile(r"out of memory|out-of-memory|AddressSanitizer failed to|cannot allocate memory|failed to create new OS thread|resource temporarily unavailable", re.I)


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def goenv(tmp):
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false",
             GOWORK="off", GOENV="off", CGO_ENABLED="1", TZ="UTC", GO111MODULE="on")
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    cache = e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    try:
        os.makedirs(cache, exist_ok=True)
        with tempfile.NamedTemporaryFile(dir=cache):
            pass
    except OSError:
        e["GOCACHE"] = os.path.join(tmp, "gocache")
    for k in ("GOGC", "GOMEMLIMIT", "GODEBUG", "GORACE", "GOEXPERIMENT", "GOMAXPROCS", "GOTRACEBACK"):
        e.pop(k, None)
    return e


class Build:
    """Builds test binaries, once per mode and zoo."""

    def __init__(self, tmp):
        self.tmp, self.env, self.done = tmp, goenv(tmp), {}
        # go.mod and go.sum are copied: the committed ones never change
        self.mod = os.path.join(tmp, "go.mod")
        src = open(os.path.join(HERE, "harness/go.mod")).read()
        open(self.mod, "w").write(src.replace("=> /repo", "=> " + REPO))
        shutil.copy(os.path.join(HERE, "harness/go.sum"), os.path.join(tmp, "go.sum"))

    def get(self, mode, zoo):
        """The test binary, or None if the mode is optional and not available here."""
        if (mode, zoo) not in self.done:
            self.done[mode, zoo] = self.build(mode, zoo)
            if mode in ("386", "asan") and self.done[mode, zoo] and not self.works(self.done[mode, zoo]):
                self.done[mode, zoo] = None
        return self.done[mode, zoo]

    def works(self, bin):
        """Whether the sandbox can run the binary at all."""
        try:
            p = subprocess.run([bin, "-test.run", "^$"], cwd=self.tmp, env=dict(self.env, VERIF_OUT=self.tmp), capture_output=True, timeout=120)
            return p.returncode == 0
        except (OSError, subprocess.TimeoutExpired):
            return False

    def fuzzer(self):
        """The program of libFuzzer: the harness as a library, the code under test with counters and traced comparisons."""
        out, h = os.path.join(self.tmp, "fuzzer"), os.path.join(HERE, "harness")
        ov = os.path.join(self.tmp, "fuzzer.json")
        json.dump({"Replace": {os.path.join(h, "fuzzlib", f[:-8] + ".go"): os.path.join(h, "checks", f)
                               for f in os.listdir(os.path.join(h, "checks")) if f.endswith("_test.go")}}, open(ov, "w"))
        for cmd in (["go", "build", "-modfile", self.mod, "-overlay", ov, "-tags", "libfuzzer", "-buildmode", "c-archive",
                     "-gcflags=github.com/wI2L/jettison=-d=libfuzzer", "-o", out + ".a", "./fuzzmain"],
                    ["clang", "-fsanitize=fuzzer", "-o", out, out + ".a"]):
            try:
                p = subprocess.run(cmd, cwd=h, env=self.env, capture_output=True, text=True)
            except OSError as e:
                print("NOTE: no fuzzer: %s" % e)
                return None
            if p.returncode:
                print("NOTE: no fuzzer: %s" % (p.stdout + p.stderr)[-1500:])
                return None
        return out

    def build(self, mode, zoo):
        if mode == "fuzz":
            return self.fuzzer()
        out = os.path.join(self.tmp, "checks-%s-%d.test" % (mode, zoo))
        cmd = ["go", "test", "-c", "-modfile", self.mod, "-o", out]
        if mode == "race":
            cmd += ["-race"]
        if mode == "checkptr":
            cmd += ["-gcflags=github.com/wI2L/jettison=-d=checkptr"]
        env = self.env
        if mode == "386":
            env = dict(env, GOARCH="386", CGO_ENABLED="0")
        if mode == "asan":
            cmd += ["-asan"]
        if zoo != 1:
            g = os.path.join(self.tmp, "zoo%d.go" % zoo)
            subprocess.run([sys.executable, "zoo/gen.py", str(zoo), g], cwd=os.path.join(HERE, "harness"), check=True)
            ov = os.path.join(self.tmp, "zoo%d.json" % zoo)
            json.dump({"Replace": {os.path.join(HERE, "harness/zoo/zoo.go"): g}}, open(ov, "w"))
            cmd += ["-overlay", ov]
        cmd += ["./checks"]
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
        if p.returncode and mode in OPTIONAL:
            print("NOTE: no %s: %s" % (mode, (p.stdout + p.stderr)[-1500:]))
            return None
        if p.returncode:
            die("build failed\n" + p.stdout + p.stderr)
        return out


def benchparse(build):
    """Builds the benchparse tool of the repository."""
    out = os.path.join(build.tmp, "benchparse")
    d = os.path.join(REPO, "tools/benchparse")
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=d, env=build.env, capture_output=True, text=True)
    if p.returncode:
        die("build of benchparse failed\n" + p.stdout + p.stderr)
    return out


def seed_of(base, prop, rnd, shard):
    h = hashlib.sha256(("%s/%s/%d/%d" % (base, prop, rnd, shard)).encode()).digest()
    return int.from_bytes(h[:5], "big") + 1


class Shard:
    def __init__(self, run, rnd, idx, mode, zoo, cases, test):
        self.run, self.rnd, self.idx, self.mode, self.zoo, self.cases, self.test = run, rnd, idx, mode, zoo, cases, test
        self.seed = seed_of(run.seed, run.prop, rnd, idx)
        self.dir = os.path.join(run.tmp, "r%d-s%d-%s-%s" % (rnd, idx, mode, test))
        self.kind, self.msg, self.stats, self.hashes, self.started = None, "", None, set(), False
        self.input, self.corpus = None, None  # of the fuzzer: an input to run again, its directory

    def spec(self):
        return {k: getattr(self, k) for k in ("rnd", "idx", "mode", "zoo", "cases", "test", "seed")}

    def fuzzargs(self, env):
        """The arguments of libFuzzer. cases: seconds."""
        env["VERIF_TARGET"] = self.test
        if self.input:
            return FUZZ + [self.input]
        d = os.path.join(self.run.tmp, "fuzz-" + self.test)  # shared by the processes and rounds
        c = os.path.join(d, "corpus")
        with LOCK:
            if not os.path.isdir(c):
                os.makedirs(c)
                subprocess.run([self.run.build.get("fuzz", 1)], env=dict(env, VERIF_SEEDS=c), cwd=d, capture_output=True, timeout=300)
        self.corpus = c
        return FUZZ + ["-dict=" + os.path.join(d, "dict"), "-max_total_time=%d" % self.cases, "-runs=%d" % RUNS.get(self.test, -1), "-seed=%d" % (self.seed & 0x7fffffff), "-reload=1",
                       "-use_value_profile=%d" % (self.idx % 4 != 3), "-max_len=%d" % (40, 136, 520, 2056)[self.idx % 4], c]

    def fuzzed(self, log):
        """What the fuzzer did."""
        m = re.findall(rb"^#(\d+)\s.*cov: (\d+) ft: (\d+) corp: (\d+)", log, re.M)
        n, cov, ft, corp = (int(x) for x in m[-1]) if m else (0, 0, 0, 0)
        l = sorted(os.listdir(self.corpus)) if self.corpus else []
        new = [f for f in l if not f.startswith("seed")]
        self.stats = {"Evals": n, "Skipped": 0, "Samples": [], "Counters": {"fuzz executions": n, "fuzz inputs that reach something new": corp}}
        if self.idx == 0:
            self.hashes = {int(f[:16], 16) for f in new if re.match(r"[0-9a-f]{16}", f)}
            self.stats["Samples"] = ["fuzz input %r" % open(os.path.join(self.corpus, f), "rb").read()[:300] for f in new[:1]]

    def execute(self, extra=None, cwd=None):
        os.makedirs(self.dir, exist_ok=True)
        e = dict(self.run.build.env)
        e.update(VERIF_OUT=self.dir, VERIF_SHARD=str(self.idx), VERIF_SHARDS=str(self.run.nshards), VERIF_SHARDSEED=str(self.seed),
                 VERIF_ROUND=str(self.rnd), VERIF_CASES=str(self.cases), VERIF_TIER=self.run.tier, VERIF_SRC=REPO, VERIF_HARNESS=os.path.join(HERE, "harness"), VERIF_MODE=self.mode, VERIF_SEED=str(self.run.seed))
        e["TZ"] = ("UTC", "America/New_York", "Asia/Kathmandu", "Australia/Lord_Howe")[self.idx % 4]
        e.update(self.run.conf.get("env", {}))
        if self.run.benchparse:
            e["VERIF_BENCHPARSE"] = self.run.benchparse
        if self.mode == "race":
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        e.update(extra or {})
        log = os.path.join(self.dir, "log")
        args = ["-test.run", "^" + self.test + "$", "-test.timeout=0"]
        if self.mode == "fuzz":
            args = self.fuzzargs(e)
        try:
            with open(log, "wb") as f:
                p = subprocess.run([self.run.build.get(self.mode, self.zoo)] + args,
                                   cwd=cwd or self.dir, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=self.run.limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            self.kind, self.msg = "error", "worker exceeds %d s" % self.run.limit
            return
        out = open(log, "rb").read()[-400000:].decode("utf8", "replace")
        full = open(log, "rb").read()
        rd = lambda n: (open(os.path.join(self.dir, n), "rb").read().decode("utf8", "replace")
                        if os.path.exists(os.path.join(self.dir, n)) else None)
        try:
            self.stats = json.load(open(os.path.join(self.dir, "stats.json")))
            b = open(os.path.join(self.dir, "hashes.bin"), "rb").read()
            self.hashes = set(struct.unpack("<%dQ" % (len(b) // 8), b))
        except (OSError, ValueError):
            pass
        viol, harn, hang = rd("violation.txt"), rd("harness.txt"), rd("hang.txt")
        if self.mode == "fuzz":
            self.fuzzed(full)
        if rc == 0 and not viol and not harn and self.stats is not None:
            return
        if harn and not viol:
            self.kind, self.msg = "error", "harness: " + harn
        elif viol:
            self.kind, self.msg = "violation", viol
        elif hang and rc == 7:
            self.kind, self.msg = "violation", hang + "\ncase: " + (rd("trace.txt") or "?")
            if not rd("trace.txt"):
                self.kind = "fatal"
        elif rc == 66 or b"WARNING: DATA RACE" in full:
            i = full.find(b"WARNING: DATA RACE")
            self.kind, self.msg = "violation", "the race detector reports:\n" + full[i:i + 6000].decode("utf8", "replace")
        elif rc in (-9, 137):
            self.kind, self.msg = "error", "worker killed"
        else:
            head = full[:200000].decode("utf8", "replace")
            m = FATAL.search(head)
            if m and not NOMEM.search(head[m.start():m.start() + 2000]):
                self.kind, self.msg = "fatal", "the process crashes: " + head[m.start():m.start() + 5000]
            else:
                self.kind, self.msg = "error", "worker ended with %s\n%s" % (rc, out[-3000:])


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.conf = prop, tier, PROPS[prop]
        self.stop, self.missing = False, set()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="jverif-" + prop + "-")
        self.build = Build(self.tmp)
        self.benchparse = benchparse(self.build) if self.conf.get("benchparse") else ""
        self.nshards = self.conf.get("shards", WORKERS)
        self.limit = 800 if tier == "quick" else 3000
        self.cap = float(os.environ.get("VERIF_CAP", "600"))  # seconds after which a thorough run starts no new round

    def shards(self, rnd):
        c = self.conf
        zoo = 1 if self.tier == "quick" or not c.get("zoo") else 1 + rnd % 6
        k = 1 if self.tier == "quick" else c.get("thorough_factor", 1)
        l = []
        for part in c["parts"]:
            if part.get("tier", self.tier) != self.tier:
                continue
            for i in range(part.get("shards", self.nshards)):
                mode = part.get("mode", "plain")
                l.append(Shard(self, rnd, i, mode, 1 if mode == "fuzz" else zoo, part["cases"] * k, part.get("test", "Test" + self.prop)))
        l.sort(key=lambda s: s.mode != "fuzz")  # the longest first
        return l

    def one(self, s):
        if self.stop:  # another shard has failed
            return
        s.started = True
        s.execute()
        if s.kind:
            self.stop = True

    def main(self):
        rounds = 1 if self.tier == "quick" else self.conf.get("rounds", 12)
        done, bad, capped = [], [], False
        for r in range(rounds):
            if r and time.time() - self.t0 > self.cap:
                capped = True
                break
            l = self.shards(r)
            for s in l:
                if not self.build.get(s.mode, s.zoo):
                    self.missing.add(s.mode)
            l = [s for s in l if self.build.get(s.mode, s.zoo)]
            with ThreadPoolExecutor(self.conf.get("workers", WORKERS)) as ex:
                list(ex.map(lambda s: self.one(s), l))
            done += [s for s in l if s.started]
            bad = [s for s in l if s.kind]
            if bad:
                break
            for s in l:
                shutil.rmtree(s.dir, ignore_errors=True)
        # find the case of a crash
        for s in bad:
            if s.kind == "fatal":
                first = s.msg
                s.execute({"VERIF_TRACE": "1"})
                t = os.path.join(s.dir, "trace.txt")
                case = open(t, "rb").read().decode("utf8", "replace") if os.path.exists(t) else "?"
                if s.kind == "violation":
                    pass
                elif s.kind == "fatal":
                    s.kind, s.msg = "violation", s.msg + "\ncase: " + case
                else:
                    s.kind, s.msg = "violation", first + "\n(not reproduced in a second run)"
                break
        viol = [s for s in bad if s.kind == "violation"]
        errs = [s for s in bad if s.kind == "error"]
        self.evidence(done, len(viol), capped)
        for line in known(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line), flush=True)
        if viol:
            s = viol[0]
            path = self.replay_file(s)
            print(s.msg[:6000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        if errs:
            print("ERROR: %s\n%s" % (errs[0].spec(), errs[0].msg[:6000]), flush=True)
            return 2
        n = sum(s.stats["Evals"] for s in done)
        print("OK property=%s %d evaluations, %.1f s" % (self.prop, n, time.time() - self.t0), flush=True)
        return 0

    def evidence(self, done, viol, capped):
        ok = [s for s in done if s.stats]
        ev = sum(s.stats["Evals"] for s in ok)
        cnt, samples, hs = {}, [], set()
        for s in ok:
            for k, v in s.stats["Counters"].items():
                cnt[k] = cnt.get(k, 0) + v
            hs |= s.hashes
        for i in range(3):
            for s in ok[:8]:
                if len(s.stats["Samples"] or []) > i and len(samples) < 8:
                    samples.append(s.stats["Samples"][i])
        cov = {"evaluations": ev, "distinct_nontrivial": len(hs), "rule": self.conf["rule"], "samples": samples or ["none"],
               "skipped": sum(s.stats["Skipped"] for s in ok), "classes": dict(sorted(cnt.items())),
               "shards": len(done), "rounds": 1 + max([s.rnd for s in done], default=0), "modes": sorted({s.mode for s in done}), "modes_not_available": sorted(self.missing),
               "type_zoos": sorted({s.zoo for s in done}), "stopped_at_time_cap": capped}
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
             "assumptions": self.conf.get("assumptions", []) + ["the reference encoder, itself compared with encoding/json of Go 1.23.12 where the two overlap"],
             "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        p = os.path.join(HERE, "evidence")
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def replay_file(self, s):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, "%s-seed%d-r%d-s%d" % (self.prop, self.seed, s.rnd, s.idx))
        ff = None
        td = os.path.join(s.dir, "testdata", "rapid")
        if os.path.isdir(td):
            l = [os.path.join(r, f) for r, _, fs in os.walk(td) for f in fs if f.endswith(".fail")]
            if l:
                ff = base + ".fail"
                shutil.copy(max(l, key=os.path.getmtime), ff)
        if os.path.exists(os.path.join(s.dir, "input.fuzz")):
            ff = base + ".fuzz"
            shutil.copy(os.path.join(s.dir, "input.fuzz"), ff)
        with open(base + ".json", "w") as f:
            json.dump({"property": self.prop, "run_seed": self.seed, "shard": s.spec(), "failfile": ff, "description": s.msg,
                       "how": "python3 check.py %s --replay %s" % (self.prop, base + ".json")}, f, indent=1)
        return base + ".json"

    def replay(self, path):
        d = json.load(open(path))
        s = d["shard"]
        self.seed = d.get("run_seed", self.seed)
        sh = Shard(self, s["rnd"], s["idx"], s["mode"], s["zoo"], s["cases"], s["test"])
        sh.seed = s["seed"]
        if s["mode"] == "fuzz" and d.get("failfile"):
            sh.input = d.pop("failfile")
        sh.execute({"VERIF_FAILFILE": d["failfile"]} if d.get("failfile") else {})
        if sh.kind in ("violation", "fatal"):
            print(sh.msg[:6000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if sh.kind:
            print("ERROR: " + sh.msg[:6000])
            return 2
        print("OK: the case does not fail")
        return 0


def known(prop):
    """Known findings of a property: lines 'finding: property=ID text'."""
    l = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\w+) (.*)", line)
            if m and m.group(1) == prop:
                l.append(m.group(2).strip())
    except OSError:
        pass
    return l


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.prop == "setup":  # warm the build cache
        tmp = tempfile.mkdtemp(prefix="jverif-setup-")
        try:
            b = Build(tmp)
            for mode in ("plain", "race", "checkptr", "386", "asan", "fuzz"):
                b.get(mode, 1)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("OK setup")
        return
    if a.prop not in PROPS:
        die("unknown property " + a.prop)
    run = Run(a.prop, a.tier)
    try:
        rc = run.replay(a.replay) if a.replay else run.main()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(run.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
