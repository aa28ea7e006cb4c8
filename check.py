#!/usr/bin/env python3
"""Decides one property of /verif/properties.jsonl by symbolic execution of /repo's code.

    python3 check.py <property>            tier from VERIF_TIER (quick, thorough)

Every harness of the property (harness/src/props/<property>.rs) is compiled from /repo's current
source and executed symbolically by one of two engines: Kani (CBMC model of the compiled code, SAT), or
symx (this directory's executor of the LLVM IR that rustc emits, z3).  The solver decides all of its
assertions over all values of the symbolic inputs.  A counterexample is replayed natively (dev and
release builds of /repo with the real chrono) before it is reported.  Exit 0: everything held.
Exit 1: VIOLATION line printed.  Any other exit: no verdict.
"""
import glob, json, os, re, signal, subprocess, sys, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, ".build")
PROPS = os.path.join(V, "harness", "src", "props")
EVID = os.path.join(V, "evidence")
BUDGET = {"quick": 840, "thorough": 6 * 3600}
HARNESS_TIMEOUT = {"quick": 600, "thorough": 3000}
T0 = time.time()

ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME") or "/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
NATIVE_ENV = dict(ENV, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

CRATES = {
    "model": (os.path.join(V, "harness"), "qlcheck", os.path.join(BUILD, "kani-model")),
    "real": (os.path.join(V, "replay"), "qlreplay", os.path.join(BUILD, "kani-real")),
}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------------------------------
# Harness table: parsed from the harness sources, so that it cannot get out of step with them.

class Harness:
    def __init__(self, mod, name, unwind, opts):
        self.mod, self.name, self.unwind, self.opts = mod, name, unwind, opts
        self.rejects = "rejects" in opts
        self.tier = opts.get("tier", "quick")
        self.crate = opts.get("crate", "model")
        self.timeout = int(opts["timeout"]) if "timeout" in opts else None
        self.finding = opts.get("finding")
        self.bounds = opts.get("bounds")
        self.engine = opts.get("engine", "kani")
        self.witnesses = []
        self.id = "props::%s::proofs::%s" % (mod, name)


def harnesses(prop):
    mod = prop.lower()
    path = os.path.join(PROPS, mod + ".rs")
    src = open(path).read()
    out, opts = [], {}
    inside = False
    engine = "symx" if re.search(r"^//@ engine=symx", src, re.M) else "kani"
    for line in src.splitlines():
        if line.startswith("harnesses! {"):
            inside = True
            continue
        if not inside:
            continue
        m = re.match(r"    //@ (.*)$", line)
        if m:
            for w in re.findall(r'(\w+)(?:=("[^"]*"|\S+))?', m.group(1)):
                opts[w[0]] = w[1].strip('"')
            continue
        m = re.match(r"    (\w+)\((\d+)\)", line)
        if m:
            opts.setdefault("engine", engine)
            out.append(Harness(mod, m.group(1), int(m.group(2)), opts))
            opts = {}
        if out:
            out[-1].witnesses += re.findall(r'witness!\(.*, "([^"]*)"\);', line)
    return out


# --------------------------------------------------------------------------------------------------
# symx

SYMX_T = os.path.join(BUILD, "symx")


def build_symx():
    """The LLVM IR of the harnesses and of the code they reach, from /repo's current source"""
    for f in glob.glob(os.path.join(SYMX_T, "release", "deps", "qlcheck-*.ll")):
        os.remove(f)
    env = dict(NATIVE_ENV, RUSTFLAGS="--cfg symx")
    r = subprocess.run(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib",
                        "--target-dir", SYMX_T, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C",
                        "no-vectorize-slp"],
                       cwd=CRATES["model"][0], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    f = glob.glob(os.path.join(SYMX_T, "release", "deps", "qlcheck-*.ll"))
    if not f:
        # cargo found nothing to do: force the last step
        for x in glob.glob(os.path.join(SYMX_T, "release", ".fingerprint", "qlcheck-*")):
            subprocess.run(["rm", "-rf", x])
        r = subprocess.run(r.args, cwd=CRATES["model"][0], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        f = glob.glob(os.path.join(SYMX_T, "release", "deps", "qlcheck-*.ll"))
    if not f:
        return None, "could not compile the harnesses for symx:\n" + r.stdout[-3000:]
    return f[0], None


def run_symx(hs, tier, deadline, ev, problems, known, on_fail):
    """Runs the harnesses with symx, eight at a time"""
    ll, err = build_symx()
    if err:
        problems.append(err)
        return
    log("LLVM IR built")
    procs = []
    stop = threading.Event()

    def one(h):
        left = deadline - time.time() - 5
        if left < 5 or stop.is_set():
            return h, None, "out of time"
        limit = min(left, h.timeout or HARNESS_TIMEOUT[tier])
        cmd = ["python3-vt", os.path.join(V, "symx", "sx.py"), ll, h.name, "--timeout", "%d" % limit]
        for o in ("merge", "nomerge", "refine", "ptimeout"):
            if o in h.opts:
                cmd += ["--" + o, h.opts[o]]
        if h.rejects:
            cmd.append("--rejects")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             start_new_session=True)
        procs.append(p)
        try:
            out, errs = p.communicate(timeout=limit + 30)
            return h, json.loads(out.strip().splitlines()[-1]), None
        except subprocess.TimeoutExpired:
            kill(p)
            return h, None, "time limit"
        except (ValueError, IndexError):
            return h, None, "executor failed: " + errs[-800:]

    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one, h) for h in hs]
        for f in as_completed(futs):
            if stop.is_set():
                continue
            h, r, err = f.result()
            if r is None:
                problems.append("%s: no verdict (%s)" % (h.name, err))
                log("  %-40s %s" % (h.name, err))
                continue
            log("  %-40s %6.1fs %s%s" % (h.name, r["wall_s"], "; ".join(r["problems"]),
                                        "  VIOLATED " + r["violation"]["what"] if r["violation"] else ""))
            for k in r["functions"]:
                if "rust_quantlib" in k:
                    ev["functions"].add(k)
            ev["harnesses"].append({
                "harness": h.name, "engine": "symx", "status": "Success" if not r["violation"] and not r["problems"] else "Failure",
                "seconds": r["wall_s"], "solver_seconds": r["solver_s"], "queries": r["queries"], "paths": r["paths"],
                "merges": r["merges"], "instructions": r["steps"], "checks": r["queries"], "discharged": r["queries"],
                "witnesses": sum(bool(x) for x in r["covers"].values())})
            if r["violation"]:
                v = r["violation"]
                if h.finding:
                    known.append(h)
                    continue
                if on_fail(h, v):
                    stop.set()
                    for p in procs:
                        if p.poll() is None:
                            kill(p)
                continue
            for x in r["problems"]:
                problems.append("%s: %s" % (h.name, x))
            if r["problems"] or h.finding:
                continue
            miss = [w for w in h.witnesses if not r["covers"].get(w)]
            if miss:
                problems.append("%s: witness not reachable: %s" % (h.name, "; ".join(miss)))
            if not h.witnesses:
                problems.append("%s: no witness" % h.name)


# --------------------------------------------------------------------------------------------------
# Kani

def kani_cmd(crate, timeout, extra):
    return ["cargo", "kani", "--target-dir", CRATES[crate][2], "-Z", "stubbing", "-Z", "unstable-options",
            "--no-memory-safety-checks", "--no-assertion-reach-checks",
            "--harness-timeout", "%ds" % timeout] + extra


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


IGNORED = ("unsupported_construct",)


def interesting(h, desc):
    """Whether a failing check of a harness can be a violation of the property."""
    if desc.startswith("PROP:") or "chrono model:" in desc:
        return True
    if h.rejects:
        return False
    return True


def run_kani(crate, hs, jobs, timeout, deadline, on_fail):
    """Runs the harnesses in parallel; returns (results, failed, error).  `on_fail(h, descs)` returns
    True to stop early."""
    if not hs:
        return [], [], None
    out = os.path.join(BUILD, "kani-%s.json" % crate)
    if os.path.exists(out):
        os.remove(out)
    by_id = {h.id: h for h in hs}
    cmd = kani_cmd(crate, timeout, ["-j", str(jobs), "--output-format=terse", "--exact", "--export-json", out])
    for h in hs:
        cmd += ["--harness", h.id]
    p = subprocess.Popen(cmd, cwd=CRATES[crate][0], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    timer = threading.Timer(max(1, deadline - time.time()), kill, [p])
    timer.start()
    current, threads, tail = None, {}, []
    fails = {}
    stop = False
    finished = set()
    try:
        for line in p.stdout:
            line = line.rstrip("\n")
            tail.append(line)
            if len(tail) > 400:
                del tail[:200]
            m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
            if m:
                threads[m.group(1)] = m.group(2)
                if m.group(1) is None:
                    current = m.group(2)
                continue
            m = re.match(r"Thread (\d+):\s*$", line)
            if m:
                current = threads.get(m.group(1))
                continue
            m = re.match(r"Failed Checks: (.*)", line)
            if m and current in by_id:
                fails.setdefault(current, []).append(m.group(1))
                continue
            if line.startswith("CBMC timed out") and current in by_id:
                fails.setdefault(current, []).append("TIMEOUT")
            elif line.startswith("CBMC failed") and current in by_id:
                fails.setdefault(current, []).append("CBMCFAILED")
            if line.startswith("Verification Time") and current in by_id:
                finished.add(current)
                h = by_id[current]
                descs = fails.get(current, [])
                real = [d for d in descs if interesting(h, d) and d not in ("TIMEOUT", "CBMCFAILED")]
                log("  %-40s %s%s" % (h.name, line.split(":")[1].strip(), "  " + "; ".join(real) if real else ""))
                if real and on_fail(h, real):
                    stop = True
                    break
    finally:
        timer.cancel()
        kill(p)
    if stop:
        return [], fails, "stopped"
    if not os.path.exists(out):
        return [], fails, "no output from Kani:\n" + "\n".join(tail[-60:])
    return json.load(open(out))["verification_results"]["results"], fails, None


def playback(h, deadline, unwind=None):
    """Concrete draws of every counterexample of a harness: [(description, [hex, ...])]"""
    extra = ["-Z", "concrete-playback", "--concrete-playback=print", "--harness", h.id, "--exact"]
    if unwind:
        extra += ["--unwind", str(unwind)]
    crate = "real" if h.crate == "real" else "model"
    left = int(deadline - time.time())
    if left < 5:
        return [], "out of time"
    cmd = kani_cmd(crate, left, extra)
    p = subprocess.Popen(cmd, cwd=CRATES[crate][0], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        text, _ = p.communicate(timeout=left)
    except subprocess.TimeoutExpired:
        kill(p)
        return [], "out of time"
    found = []
    for blk in text.split("Concrete playback unit test for")[1:]:
        m = re.search(r"Check for `(\w+)`: \"(.*)\"\n\n#\[test\]", blk, re.S)
        desc = (m.group(1), m.group(2)) if m else ("?", "?")
        m = re.search(r"vec!\[\n(.*?)\n    \];", blk, re.S)
        vals = []
        if m:
            for v in re.findall(r"^\s*vec!\[([^\]]*)\],?$", m.group(1), re.M):
                vals.append("".join("%02x" % int(x) for x in v.split(",") if x.strip()))
        found.append((desc[0], desc[1], vals))
    failed = re.findall(r"Failed Checks: (.*)", text)
    return found, failed


# --------------------------------------------------------------------------------------------------
# Native replay

_built = None


def build_replay():
    global _built
    if _built is not None:
        return _built
    bins = []
    for prof, flag in (("dev", []), ("release", ["--release"])):
        tgt = os.path.join(BUILD, "replay")
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", tgt] + flag,
                           cwd=CRATES["real"][0], env=NATIVE_ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log("native replay build failed:\n" + r.stdout[-3000:])
            _built = []
            return _built
        bins.append((prof, os.path.join(tgt, "debug" if prof == "dev" else "release", "replay")))
    _built = bins
    return bins


def replay(h, vals):
    """Runs a counterexample natively; returns [(profile, outcome)]"""
    res = []
    for prof, b in build_replay():
        try:
            r = subprocess.run([b, h.name, ",".join(vals)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=20)
            lines = r.stdout.strip().splitlines()
            res.append((prof, lines[-1] if lines else "PANIC exit %d" % r.returncode))
        except subprocess.TimeoutExpired:
            res.append((prof, "HANG no result after 20 s"))
    return res


def reproduces(h, outcome):
    k = outcome.split()[0]
    if k == "VIOLATED":
        return True
    if k in ("PANIC", "HANG"):
        return not h.rejects
    return False


def confirm(prop, h, deadline, unwind=None):
    """Second pass on a failing harness: counterexample values, native replay.  Returns the replay
    file if the violation reproduces."""
    log("counterexample of", h.name)
    found, failed = playback(h, deadline, unwind)
    log("  second pass:", "%d candidate(s)" % len(found), failed if isinstance(failed, str) else "")
    return try_replay(prop, h, found)


def try_replay(prop, h, found):
    tried = []
    # assertions first; Kani prints equal inputs once, so the input of a witness may be that of a failure
    for kind, desc, vals in sorted(found, key=lambda f: (f[0] == "cover", not f[1].startswith("PROP"))):
        outs = replay(h, vals)
        tried.append((desc, vals, outs))
        log("  replay", ",".join(vals), "->", outs)
        if any(reproduces(h, o) for _, o in outs):
            path = os.path.join(V, ".build", "replays", "%s-%s.json" % (prop, h.name))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": prop, "harness": h.name, "check": desc, "draws_hex": vals,
                       "outcomes": dict(outs),
                       "rerun": "cd /verif/replay && cargo run --bin replay -- %s %s" % (h.name, ",".join(vals))},
                      open(path, "w"), indent=1)
            return path, desc, outs
    return None


# --------------------------------------------------------------------------------------------------

def collect(results, crate, ev):
    for r in results:
        e = {"harness": r["harness_id"].split("::")[-1], "chrono": crate, "status": r["status"],
             "seconds": r["duration_ms"] / 1000.0, "checks": 0, "witnesses": 0}
        for c in r.get("checks", []):
            f = (c.get("location") or {}).get("file", "")
            if c.get("category") == "cover":
                e["witnesses"] += c["status"] == "Satisfied"
            else:
                e["checks"] += 1
                e["discharged"] = e.get("discharged", 0) + (c["status"] in ("Success", "Unreachable"))
            if "/repo/src" in f:
                ev["functions"].add(re.sub(r"<.*?>", "", c.get("function", "")))
        ev["harnesses"].append(e)


def main():
    prop = sys.argv[1]
    only = sys.argv[2:] 
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = T0 + BUDGET[tier]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    findings = json.load(open(os.path.join(V, "known_findings.json")))
    hs = [h for h in harnesses(prop) if h.tier == "quick" or tier == "thorough"]
    if only:
        hs = [h for h in hs if any(o in h.name for o in only)]
    timeout = HARNESS_TIMEOUT[tier]
    log("property %s, tier %s: %d harnesses" % (prop, tier, len(hs)))
    ev = {"functions": set(), "harnesses": []}
    problems = []
    violation = []
    known = []

    def on_fail(h, descs):
        if h.finding:
            return False
        if all("unwinding assertion" in d for d in descs):
            return False
        c = confirm(prop, h, deadline)
        if c:
            violation.append((h, c))
            return True
        problems.append("%s: counterexample does not reproduce natively (%s)" % (h.name, "; ".join(descs)))
        return False

    def on_symx(h, v):
        c = try_replay(prop, h, [(v["kind"], ("PROP: " if v["kind"] == "prop" else "") + v["what"], v["draws"])])
        if c:
            violation.append((h, c))
            return True
        problems.append("%s: counterexample does not reproduce natively (%s)" % (h.name, v["what"]))
        return False

    sx = [h for h in hs if h.engine == "symx"]
    hs = [h for h in hs if h.engine != "symx"]
    if sx:
        run_symx(sx, tier, deadline, ev, problems, known, on_symx)

    plan = [("model", [h for h in hs if h.crate in ("model", "both")]),
            ("real", [h for h in hs if h.crate in ("real", "both")])]
    for crate, sel in plan:
        if violation:
            break
        results, fails, err = run_kani(crate, sel, 8, timeout, deadline, on_fail)
        if violation:
            break
        if err and crate == "model" and not fails and "could not compile" in err:
            # the changed code needs something of chrono that the model does not have: use the real one
            log("chrono model does not fit, using the real chrono\n" + err[-1500:])
            results, fails, err = run_kani("real", sel, 8, timeout, deadline, on_fail)
            if violation:
                break
        if err:
            problems.append(err)
            continue
        collect(results, crate, ev)
        seen = set()
        for r in results:
            h = next(x for x in sel if x.id == r["harness_id"])
            seen.add(h.id)
            checks = r.get("checks", [])
            if not checks:
                problems.append("%s: no verdict (%s)" % (h.name, "; ".join(fails.get(h.id, ["?"]))))
                continue
            bad = [c for c in checks if c.get("category") != "cover"
                   and c["status"] not in ("Success", "Unreachable")]
            cov = [c for c in checks if c.get("category") == "cover"]
            unsat = [c["description"] for c in cov if c["status"] != "Satisfied"]
            unwinding = [c for c in bad if "unwinding assertion" in c["description"]]
            undet = [c for c in bad if c["status"] != "Failure"]
            real = [c for c in bad if interesting(h, c["description"]) and c["status"] == "Failure"
                    and c not in unwinding]
            if h.finding:
                if any(c["description"].startswith("PROP:") for c in real):
                    known.append(h)
                continue
            if unwinding:
                # a loop that runs longer than the harness expects: retry with more iterations
                log("retry with a larger bound:", h.name)
                ok = False
                for u in (h.unwind * 3 + 4,):
                    sub = Harness(h.mod, h.name, u, h.opts)
                    found, failed = playback(sub, min(deadline, time.time() + timeout), u)
                    if isinstance(failed, str):
                        problems.append("%s: unwinding bound exceeded, no verdict" % h.name)
                        break
                    rest = [d for d in failed if interesting(h, d)]
                    if not rest:
                        ok = True
                        break
                    c = confirm(prop, sub, deadline, u)
                    if c:
                        violation.append((h, c))
                        break
                    problems.append("%s: %s" % (h.name, "; ".join(rest)))
                if violation:
                    break
                continue
            if undet:
                problems.append("%s: undetermined checks" % h.name)
            if unsat:
                problems.append("%s: witness not reachable: %s" % (h.name, "; ".join(unsat)))
            if not cov:
                problems.append("%s: no witness" % h.name)
        missing = [h.name for h in sel if h.id not in seen]
        if missing:
            problems.append("no result for " + ", ".join(missing))

    wall = time.time() - T0
    nchecks = sum(e["checks"] for e in ev["harnesses"])
    ndone = sum(e.get("discharged", 0) for e in ev["harnesses"])
    src = open(os.path.join(PROPS, prop.lower() + ".rs")).read()
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(wall, 2),
        "coverage": {
            "explanation": "Bounded symbolic execution of /repo's current source (Kani/CBMC, or symx on LLVM IR with z3): "
                           "every listed harness draws its inputs as symbolic variables and the solver decides each "
                           "assertion (the property's, and all panics and overflows of the code) for all values "
                           "within the bounds written in the harness; the witnesses show that the assumptions are "
                           "satisfiable.  For Kani `checks` counts CBMC assertions, for symx solver queries.  Seeds "
                           "play no role.",
            "harnesses": ev["harnesses"],
            "obligations": nchecks, "discharged": ndone,
            "witnesses_reached": sum(e["witnesses"] for e in ev["harnesses"]),
            "solver_seconds_total": round(sum(e["seconds"] for e in ev["harnesses"]), 2),
            "functions_encoded": sorted(ev["functions"]),
            "unwind_bounds": {h.name: h.unwind for h in hs},
            "bounds": {h.name: h.bounds for h in hs + sx if h.bounds},
            "harness_source_sha256": hashlib.sha256(src.encode()).hexdigest(),
            "problems": problems,
            "violation": violation[0][1][0] if violation else None,
            "known_findings": [h.finding for h in known],
        },
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for h in known:
        t = next((k for k in findings if k.get("id") == h.finding), {})
        print("KNOWN-FINDING: property=%s %s" % (prop, t.get("what", h.finding)))
    if violation:
        h, (path, desc, outs) = violation[0]
        log("violated: %s [%s] %s" % (h.name, desc, outs))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if problems:
        for x in problems:
            log("no verdict:", x)
        sys.exit(2)
    log("held: %d harnesses, %d checks, %.1f s" % (len(ev["harnesses"]), nchecks, wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
