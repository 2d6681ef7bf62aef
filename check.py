#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on /repo's working tree:
 1. gcx extracts the functions the property depends on from /repo's current source, with the contracts of specs/
 2. verus discharges every obligation, function by function
 3. the harness runs the real code on a bounded set of inputs (always labelled bounded), and looks for a
    failing input when an obligation fails
Exit 0: held; 1: VIOLATION; 2: no answer (nothing could be built).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import config

REPO = "/repo"
WORK = os.path.join(VERIF, "work")
SPECS = os.path.join(VERIF, "specs")
GCX = os.path.join(VERIF, "gcx", "target", "release", "gcx")
TARGET = os.path.join(WORK, "target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
DEADLINE = time.time() + 3000
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")

VERIFICATION_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "assert",
    "possible arithmetic", "possible division", "decreases not satisfied", "unable to prove", "loop ensures not satisfied",
    "recommendation", "could not prove", "split precondition failure", "split assertion failure", "split postcondition failure",
    "constructed value may fail", "failed this postcondition", "index out of bounds", "unreachable", "possible",
)


def log(*a):
    print(*a, flush=True)


def cargo(dirname, target, what):
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(VERIF, dirname),
                       env=dict(ENV, CARGO_TARGET_DIR=target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return "building %s failed:\n%s" % (what, p.stdout[-4000:])
    return None


# ------------------------------------------------------------------ proof

def run_gcx(cfg, prop, lost, out, mp, probe=False):
    cmd = [GCX, "--repo", REPO, "--specs", SPECS, "--modules", ",".join(cfg["modules"]), "--roots", ",".join(cfg["roots"]),
           "--libs", ",".join(cfg["libs"]), "--tags", prop, "--lost", ",".join(sorted(lost)), "--out", out, "--map", mp]
    if probe:
        cmd += ["--probe", "exit"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


def run_verus(gen, rlimit, extra=()):
    cmd = ["verus", *extra, gen, "--num-threads", "8", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4", "--rlimit", str(rlimit)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(gen), timeout=max(5, min(420, DEADLINE - time.time())), env=ENV)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return dict(timeout=True, errors=[], results=None, funcs=[], wall=time.time() - t, raw="timeout")
    errors = []
    raw = []
    for line in err.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            raw.append(line)
            continue
        if d.get("level") != "error":
            continue
        raw.append(d.get("rendered", ""))
        if d["message"].startswith("aborting due to"):
            continue
        lines = [s["line_start"] for s in d["spans"] if s["file_name"].endswith("gen.rs")]
        prim = [s["line_start"] for s in d["spans"] if s["is_primary"] and s["file_name"].endswith("gen.rs")]
        errors.append(dict(message=d["message"], lines=lines, primary=prim[0] if prim else None, rendered=d.get("rendered", "")))
    try:
        j = json.loads(out)
    except ValueError:
        j = {}
    res = j.get("verification-results")
    funcs = []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            funcs.append(dict(module=m["module"], name=f["function"], micros=f["time-micros"], ok=f["success"], mode=f.get("mode:") or f.get("mode")))
    return dict(timeout=False, errors=errors, results=res, funcs=funcs, wall=time.time() - t, raw="\n".join(raw), j=j)


def is_verification_error(e):
    m = e["message"].lower()
    return any(k in m for k in VERIFICATION_ERRORS)


def is_rlimit(e):
    m = e["message"].lower()
    return "rlimit" in m or "resource limit" in m or "took too long" in m or "canceled" in m


def owner(functions, line):
    for f in functions:
        if line is not None and f["start"] <= line <= f["end"]:
            return f
    return None


def joined_loops(text, functions):
    """no line moves: the attribute goes in front of the function's own line"""
    ls = text.split("\n")
    for f in {f["key"]: f for f in functions}.values():
        part = ls[f["start"] - 1:f["end"]]
        for i in range(f["start"] - 1, f["end"]):
            m = re.match(r"\s*(pub\s*(\([^)]*\))?\s*)?fn\b", ls[i])
            if m:
                if "loop_isolation" not in "\n".join(part):
                    ls[i] = "#[verifier::loop_isolation(false)] " + ls[i]
                break
    return "\n".join(ls)


def module_of(key):
    return key.rsplit("::", 1)[0] if "::" in key else key


def owned(cfg, f):
    return any(f["key"].startswith(o + "::") for o in cfg["own"]) and not any(f["key"].startswith(o) for o in cfg.get("notown", []))


def load_shape():
    try:
        return json.load(open(os.path.join(SPECS, "shape.json")))
    except (OSError, ValueError):
        return {}


def prove(prop, tier):
    cfg = config.PROOF.get(prop)
    r = dict(ran=False, failures=[], lost={}, functions=[], verified=0, errors=0, solver_ms=0, funcs=[], problems=[], notes=[], probe=None, cmd="")
    if cfg is None:
        r["notes"].append("no proof for this property: bounded stand-in only")
        return r
    d = os.path.join(WORK, "gen", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    gen, mp = os.path.join(d, "gen.rs"), os.path.join(d, "map.json")
    shape = load_shape()
    lost = {}   # key (or key!) -> reason
    foreign = {}
    for rnd in range(8):
        ok, out = run_gcx(cfg, prop, lost.keys(), gen, mp)
        if not ok:
            r["notes"].append("the extractor does not accept the current source: " + out[-800:])
            r["lost_all"] = True
            return r
        m = json.load(open(mp))
        fs = m["functions"]
        byk = {f["key"]: f for f in fs}
        v = run_verus(gen, cfg.get("rlimit", 60))
        r["cmd"] = "gcx + verus gen.rs (see check.py)"
        if v["timeout"]:
            r["notes"].append("verus ran out of time")
            r["lost_all"] = True
            return r
        new = {}
        fails = []
        whole = []
        for e in v["errors"]:
            f = owner(fs, e["primary"])
            if f is None:
                f = next((x for x in (owner(fs, l) for l in e["lines"]) if x), None)
            if f is None:
                whole.append(e)
                continue
            k = f["key"]
            if is_rlimit(e):
                new[k] = "the solver ran out of its resource limit"
            elif not is_verification_error(e):
                kk = k if not f["lost"] else k + "!"
                new[kk] = "the verifier does not accept its current text: " + e["message"]
            else:
                base = shape.get(k)
                unc = [c for c in f["calls"] if c in byk and not byk[c]["contract"] and c not in shape]
                if f["lost_anchors"]:
                    new[k] = "its body was rewritten, annotations no longer fit: " + ", ".join(f["lost_anchors"])
                elif base and (base["loops"] != f["loops"] or base["closures"] != f["closures"]):
                    new[k] = "its body was rewritten (loops %d -> %d, closures %d -> %d)" % (base["loops"], f["loops"], base["closures"], f["closures"])
                elif base and f["loops"] and f["locals"] > base["locals"]:
                    new[k] = "its body was rewritten (a loop now carries a further variable, which the invariants do not know)"
                elif unc:
                    new[k] = "it now relies on functions without contract: " + ", ".join(unc)
                elif not f["contract"] and k not in shape:
                    new[k] = "a function without contract"
                elif any(c + "!" in lost for c in f["calls"]) or any(c in lost and not owned(cfg, byk.get(c, f)) for c in f["calls"]):
                    new[k] = "it relies on a function that lost its contract"
                elif not owned(cfg, f):
                    # the property owning that function decides; here its contract is taken as given
                    new[k] = "obligation failed in a function owned by another property"
                    foreign[k] = e["rendered"]
                else:
                    fails.append((f, e))
        # looking for further errors after a definite one may exhaust the solver: the definite one stands
        for f, _ in fails:
            if new.get(f["key"], "").startswith("the solver ran out"):
                del new[f["key"]]
        if whole and not new and not fails:
            bad = [e for e in whole if not is_rlimit(e)]
            r["notes"].append("the generated file is not accepted: " + "; ".join(e["message"] for e in whole)[:800])
            r["raw"] = v["raw"]
            if bad or whole:
                r["lost_all"] = True
                return r
        fresh = {k: x for k, x in new.items() if k not in lost}
        if fresh:
            # a first pass with syntax errors says nothing about the obligations: redo without the lost ones
            lost.update(fresh)
            continue
        break
    # a function is accepted when some run of the solver discharges all of it
    for n in (17, 42):
        if not fails or time.time() > DEADLINE:
            break
        src = gen
        if n == 42:
            # the second time, what is known before a loop is known in it: a local may have moved out of the loop
            src = os.path.join(d, "whole", "gen.rs")
            os.makedirs(os.path.dirname(src), exist_ok=True)
            open(src, "w").write(joined_loops(open(gen).read(), [f for f, _ in fails]))
        w = run_verus(src, 2 * cfg.get("rlimit", 60), ("--smt-option", "smt.random_seed=%d" % n, "--smt-option", "sat.random_seed=%d" % n))
        if w["timeout"] or not w["results"]:
            continue
        still = {o["key"] for e in w["errors"] for o in [owner(fs, e["primary"]) or next((x for x in (owner(fs, l) for l in e["lines"]) if x), None)] if o}
        ok = sorted({f["key"] for f, _ in fails if f["key"] not in still})
        if ok:
            r["notes"].append("discharged with solver seed %d: %s" % (n, ", ".join(ok)))
            fails = [(f, e) for f, e in fails if f["key"] in still]
            v["results"] = dict(v["results"], verified=v["results"]["verified"] + len(ok), errors=max(0, v["results"]["errors"] - len(ok)))
    r.update(ran=True, functions=fs, problems=m["problems"], lost=lost, foreign=foreign, raw=v["raw"])
    r["failures"] = [dict(function=f["key"], file=f["file"], line=f["line"], message=e["message"], rendered=e["rendered"]) for f, e in fails]
    r["verified"] = v["results"]["verified"] if v["results"] else 0
    r["errors"] = v["results"]["errors"] if v["results"] else 0
    r["funcs"] = v["funcs"]
    r["solver_ms"] = sum(f["micros"] for f in v["funcs"]) // 1000
    r["wall"] = v["wall"]
    if not v["results"] or (whole and not fails):
        r["notes"].append("whole-file errors: " + "; ".join(e["message"] for e in whole)[:500])
        if not v["results"]:
            r["lost_all"] = True
    # vacuity: with assert(false) at its end, every contracted function must fail
    if not r["failures"] and not r.get("lost_all") and (tier == "thorough" or cfg.get("probe", True)):
        pg, pm = os.path.join(d, "probe", "gen.rs"), os.path.join(d, "probe", "map.json")
        os.makedirs(os.path.dirname(pg), exist_ok=True)
        ok, _ = run_gcx(cfg, prop, lost.keys(), pg, pm, probe=True)
        if ok:
            pv = run_verus(pg, 10)
            pf = json.load(open(pm))["functions"]
            src = open(pg).read().split("\n")
            want = [f["key"] for f in pf if f["contract"] and not f["lost"] and not f["trusted"]
                    and any("assert(false)" in l or "assert (false)" in l for l in src[f["start"] - 1:f["end"]])]
            hit = {o["key"] for e in pv["errors"] for o in [owner(pf, e["primary"])] if o}
            if not pv["timeout"]:
                r["probe"] = dict(probed=len(want), vacuous=[k for k in want if k not in hit])
    return r


# ------------------------------------------------------------------ bounded stand-in

def stale(target):
    """cargo goes by mtime; go by content: forget what was built from other text of /repo or of the harness"""
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "core"), os.path.join(REPO, "command"), os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "target")
            for n in sorted(fs):
                p = os.path.join(d, n)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    mark = os.path.join(target, "source.sha256")
    try:
        if open(mark).read() == h.hexdigest():
            return
    except OSError:
        pass
    fp = os.path.join(target, "release", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith(("gc-", "gch-", "gc_")):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    open(mark, "w").write(h.hexdigest())


class Harness:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.problem = None
        self.scratch = None
        self.result = dict(evaluations=0, distinct_nontrivial=0, samples=[], failures=[])

    def build(self):
        stale(TARGET)
        self.problem = cargo("harness", TARGET, "the harness against /repo")
        if self.problem:
            return False
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="gch", dir=base)
        os.chmod(self.scratch, 0o755)
        self.bin = os.path.join(self.scratch, "bin")
        os.mkdir(self.bin)
        for n in os.listdir(os.path.join(TARGET, "release")):
            p = os.path.join(TARGET, "release", n)
            if (n == "gch" or n.startswith("gc-")) and os.path.isfile(p) and os.access(p, os.X_OK):
                shutil.copy(p, self.bin)
        self.run_dir = os.path.join(self.scratch, "run")
        os.mkdir(self.run_dir)
        self.who = {}
        if os.geteuid() == 0:
            # the code under test writes and deletes files: give it an unprivileged user and a directory of its own
            try:
                os.chown(self.run_dir, 65534, 65534)
                who = dict(user=65534, group=65534, extra_groups=[])
                subprocess.run([os.path.join(self.bin, "gch")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **who)
                self.who = who
            except (OSError, PermissionError, subprocess.SubprocessError):
                pass
        return True

    def run(self, secs, seed, threads=8, cases=None):
        out = os.path.join(self.run_dir, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [os.path.join(self.bin, "gch"), "run", self.prop, "--seed", str(seed), "--secs", str(secs), "--tier", self.tier,
               "--threads", str(threads), "--scratch", os.path.join(self.run_dir, "s"), "--out", out]
        if cases:
            cmd += ["--cases", str(cases)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 150, cwd=self.run_dir, **self.who)
        except subprocess.TimeoutExpired:
            self.problem = "the harness did not end in time"
            return
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            # died without a report: a stack overflow or an abort inside the code under test, or out of memory
            self.problem = "the harness died: rc=%s %s" % (p.returncode, p.stdout[-500:])
            return
        d["seed"] = seed
        self.result["evaluations"] += d["evaluations"]
        self.result["distinct_nontrivial"] += d["distinct_nontrivial"]
        self.result["samples"] = (self.result["samples"] + d["samples"])[:3]
        for f in d["failures"]:
            f["seed"] = seed
        self.result["failures"] += d["failures"]

    def close(self):
        if self.scratch and self.scratch.startswith(("/dev/shm/gch", tempfile.gettempdir() + "/gch")):
            shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def trusted_base(r):
    t = ["verus 0.2026.09.13 and its Z3", "gcx, the extractor: what it drops or rewrites is listed in DESIGN.md",
         "specs/prelude.rs: the contracts marked external_body on the std collections, iterator adapters and formatting it stands for"]
    t += ["trusted contract (body not verified): " + f["key"] for f in r["functions"] if f["trusted"]]
    return t


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    global DEADLINE
    DEADLINE = t0 + (560 if tier == "quick" else 3000)   # a check gets 900 s in all
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    shutil.rmtree(os.path.join(VERIF, "replays", prop), ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "replays", prop))

    h = Harness(prop, tier, seed)
    secs = 15 if tier == "quick" else 240
    box = {}

    def side():
        try:
            if h.build():
                h.run(secs, seed, threads=6 if prop in config.PROOF else 8)
                if tier == "thorough" and not h.result["failures"]:
                    h.run(secs, seed + 1000)
        except Exception as ex:  # noqa
            h.problem = "harness: %r" % ex

    th = threading.Thread(target=side)
    th.start()
    gp = None
    if prop in config.PROOF:
        gp = cargo("gcx", os.path.join(VERIF, "gcx", "target"), "gcx")
    if gp:
        r = dict(ran=False, failures=[], lost={}, functions=[], verified=0, errors=0, solver_ms=0, funcs=[], problems=[], notes=[gp], probe=None, lost_all=True, cmd="")
    else:
        r = prove(prop, tier)
    th.join()
    # an obligation failed: look harder for an input that shows it
    if r["failures"] and not h.result["failures"] and not (h.problem and not h.scratch):
        for k in range(2):
            h.run(40, seed + 7 + k)
            if h.result["failures"]:
                break
    h.close()

    violations = []
    kf = known_findings(prop)
    seen_known = set()
    for f in h.result["failures"]:
        text = f["input"] + " " + f["observed"]
        k = next((d for (pat, d) in kf if re.search(pat, text)), None)
        if k:
            seen_known.add(k)
            continue
        violations.append(("input", f))
        break
    if r["failures"] and not violations:
        violations.append(("obligation", r["failures"]))
    for d in sorted(d for _, d in kf):
        log("KNOWN-FINDING: property=%s %s" % (prop, d))

    # ---- report
    fn_contract = [f for f in r["functions"] if f["contract"] and not f["trusted"] and not f["lost"]]
    lostfns = sorted(r["lost"].items())
    log("property %s, tier %s, seed %d" % (prop, tier, seed))
    if r["ran"]:
        log("proof: %d obligation groups discharged, %d not; %d functions of /repo under contract; solver %.1f s" % (r["verified"], r["errors"], len(fn_contract), r["solver_ms"] / 1000))
    for n in r["notes"]:
        log("note: " + n)
    for p in r["problems"]:
        log("note: " + p)
    for k, why in lostfns:
        log("not proved on this tree, left to the bounded stand-in: %s (%s)" % (k, why.split("\n")[0][:300]))
    log("bounded stand-in: %d cases, %d distinct and non-trivial%s" % (h.result["evaluations"], h.result["distinct_nontrivial"], "" if not h.problem else "; problem: " + h.problem[:1500]))
    if r.get("probe"):
        log("vacuity probe: %d functions, vacuous: %s" % (r["probe"]["probed"], r["probe"]["vacuous"] or "none"))

    complete = r["ran"] and not r.get("lost_all") and not r["lost"] and not r["failures"] and r["errors"] == 0 and not r["problems"] and not (r.get("probe") or {}).get("vacuous")
    obligations = r["verified"] + r["errors"] + len(r["lost"])
    cov = dict(
        obligations=obligations, discharged=r["verified"],
        checker_cmd="python3 check.py %s %s  (gcx --repo /repo ... && verus --rlimit .. work/gen/%s/gen.rs)" % (prop, tier, prop),
        trusted_base=trusted_base(r),
        back_end="verus 0.2026.09.13.671956e / Z3", solver_ms=r["solver_ms"],
        functions_under_contract=[f["key"] for f in fn_contract],
        functions_not_proved=[dict(function=k, reason=w[:300]) for k, w in lostfns],
        per_function=[dict(function=f["name"], ms=round(f["micros"] / 1000, 1), ok=f["ok"]) for f in r["funcs"] if not f["name"].startswith("gen::prelude")][:400],
        proof_complete=bool(complete),
        vacuity_probe=r.get("probe"),
        bounded=dict(label="bounded stand-in, never counted as proved", evaluations=h.result["evaluations"], distinct_nontrivial=h.result["distinct_nontrivial"],
                     rule="harness/src (driver %s): all graphs of up to 3 vertices where a graph is the input, then seeded random inputs; trivial inputs are not counted" % prop,
                     samples=h.result["samples"], problem=h.problem),
        evaluations=h.result["evaluations"], distinct_nontrivial=h.result["distinct_nontrivial"],
        rule="cases of the bounded stand-in; a case is non-trivial when its input is larger than the degenerate ones", samples=h.result["samples"],
        notes=r["notes"] + r["problems"],
    )
    level = config_level(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions(prop, r), wall_s=round(time.time() - t0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for kind, v in violations:
        path = os.path.join(VERIF, "replays", prop, "replay.json")
        if kind == "input":
            d = dict(property=prop, input=v["input"], observed=v["observed"], seed=v["seed"], index=v["index"],
                     failed_obligations=[dict(function=x["function"], where="%s:%s" % (x["file"], x["line"]), obligation=x["message"]) for x in r["failures"]],
                     replay="cd /verif/harness && CARGO_TARGET_DIR=/verif/work/target cargo build --release --offline && /verif/work/target/release/gch replay %s --seed %d --index %d --tier %s" % (prop, v["seed"], v["index"], tier),
                     verifier_output=[x["rendered"] for x in r["failures"]])
            json.dump(d, open(path, "w"), indent=1)
            log("failing input: %s\nobserved: %s" % (v["input"][:2000], v["observed"][:2000]))
            for x in r["failures"]:
                log("failed obligation: %s (%s:%s): %s" % (x["function"], x["file"], x["line"], x["message"]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            d = dict(property=prop, failed_obligations=[dict(function=x["function"], where="%s:%s" % (x["file"], x["line"]), obligation=x["message"]) for x in v],
                     verifier_output=[x["rendered"] for x in v],
                     note="no failing input was found within %d bounded cases" % h.result["evaluations"])
            json.dump(d, open(path, "w"), indent=1)
            for x in v:
                log("failed obligation: %s (%s:%s): %s\n%s" % (x["function"], x["file"], x["line"], x["message"], x["rendered"][:1500]))
            log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    if violations:
        return 1
    if not r["ran"] and h.problem:
        log("no answer: " + h.problem)
        return 2
    log("OK property=%s %s" % (prop, "proved" if complete else "held on everything explored (proof incomplete on this tree)" if r["ran"] else "held on everything explored (bounded)"))
    return 0


def config_level(prop):
    return "proof" if prop in config.PROOF else "exploration"


def assumptions(prop, r):
    a = list(getattr(config, "ASSUME", {}).get(prop, []))
    if r["ran"]:
        a += ["contracts of specs/prelude.rs on std types are assumed (marked external_body there)",
              "usize is 64 bits", "memory is not exhausted"]
    return a


if __name__ == "__main__":
    sys.exit(main())
