#!/usr/bin/env python3
"""Decides one property: builds the engine and the harness IR from /repo's current tree, explores every
harness job symbolically, replays counterexamples and sampled paths against the native build, writes evidence."""
import os, sys, json, time, subprocess, shutil, hashlib, collections, glob, signal, threading, re, resource
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vf"))
import props

REPO = "/repo"
T0 = time.time()
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + ENV.get("PATH", "")
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL"):
    ENV.pop(k, None)
BUILD = os.path.join(ROOT, ".build")
SX = os.path.join(ROOT, "engine/target/release/sx")


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, env=ENV, cwd=None, **kw):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace")


def build_engine():
    rc, out = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "engine"), timeout=900)
    if rc != 0:
        print(out[-4000:])
        die("engine build failed")


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness/src")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "harness/Cargo.toml"), os.path.join(ROOT, "harness/Cargo.lock")):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


FLAVOURS = {
    # debug assertions and overflow checks as in the test profile
    "dbg": ["--config", "profile.release.debug-assertions=true", "--config", "profile.release.overflow-checks=true"],
    # as users ship it
    "rel": ["--config", "profile.release.debug-assertions=false", "--config", "profile.release.overflow-checks=false"],
}


class Build:
    """IR and native builds of the harness, per flavour, in a directory keyed by the source contents"""

    def __init__(self):
        self.key = tree_hash()
        self.res = {}
        self.lock = threading.Lock()

    def _paths(self, kind, fl):
        return os.path.join(BUILD, "%s-%s" % (kind, fl)), os.path.join(BUILD, "%s-%s.key" % (kind, fl))

    def _do(self, kind, fl):
        tgt, keyf = self._paths(kind, fl)
        os.makedirs(BUILD, exist_ok=True)
        fresh = os.path.exists(keyf) and open(keyf).read() == self.key
        if kind == "ir":
            out = os.path.join(BUILD, "ir-%s.ll" % fl)
            if fresh and os.path.exists(out):
                return out, ""
            if os.path.exists(keyf):
                os.remove(keyf)
            for f in glob.glob(tgt + "/release/deps/ir-*.ll"):
                os.remove(f)
            # a source tree with older time stamps must not be taken for the one compiled before
            shutil.rmtree(os.path.join(tgt, "release/.fingerprint"), ignore_errors=True) if not fresh else None
            cmd = ["cargo", "rustc", "--offline", "--release", "--bin", "ir", "--target-dir", tgt] + FLAVOURS[fl] + [
                "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "symbol-mangling-version=v0",
                "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"]
            rc, txt = run(cmd, cwd=os.path.join(ROOT, "harness"), timeout=600)
            lls = glob.glob(tgt + "/release/deps/ir-*.ll")
            if len(lls) != 1:
                return None, txt
            os.replace(lls[0], out)
        else:
            out = os.path.join(tgt, "native/native")
            if fresh and os.path.exists(out):
                return out, ""
            if os.path.exists(keyf):
                os.remove(keyf)
            shutil.rmtree(os.path.join(tgt, "native/.fingerprint"), ignore_errors=True)
            if os.path.exists(out):
                os.remove(out)
            fl_args = [x.replace("profile.release", "profile.native") for x in FLAVOURS[fl]]
            cmd = ["cargo", "build", "--offline", "--profile", "native", "--bin", "native", "--target-dir", tgt] + fl_args
            rc, txt = run(cmd, cwd=os.path.join(ROOT, "harness"), timeout=600)
            if rc != 0 or not os.path.exists(out):
                return None, txt
        open(keyf, "w").write(self.key)
        return out, ""

    def start(self, kinds):
        self.th = {}
        for k in kinds:
            t = threading.Thread(target=lambda k=k: self.res.__setitem__(k, self._do(*k)))
            self.th[k] = t
            t.start()

    def get(self, kind, fl):
        self.th[(kind, fl)].join()
        p, txt = self.res[(kind, fl)]
        if p is None:
            print(txt[-6000:])
            die("building the harness against /repo failed (%s, %s)" % (kind, fl))
        return p


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True, timeout=30)
        r = p.stdout.split("\n")
        return r if len(r) >= len(names) else names
    except Exception:
        return names


def write_input(path, job, inputs, head=""):
    with open(path, "w") as f:
        f.write("# entry %s params %s flavour %s\n" % (job["entry"], " ".join(map(str, job["params"])), job["flavour"]))
        for l in head.splitlines():
            f.write("# %s\n" % l)
        for n, h in inputs:
            f.write("%s %s\n" % (n, h))


def native(b, job, path, timeout=20):
    exe = b.get("native", job["flavour"])
    d = os.path.join(BUILD, "scratch-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    rc, out = run([exe, job["entry"], path] + [str(p) for p in job["params"]], timeout=timeout, cwd=d,
                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = props.PROPS[prop]
    jobs = [dict(j) for j in cfg["quick"]]
    if tier == "thorough":
        jobs += [dict(j) for j in cfg.get("thorough", [])]
    only = os.environ.get("VF_ONLY")
    if only:
        jobs = [j for j in jobs if j["entry"] == only]
    total = float(os.environ.get("VF_BUDGET", 780 if tier == "quick" else 6 * 3600))
    for j in jobs:
        j.setdefault("flavour", "dbg")
    build_engine()
    log("engine ready")
    b = Build()
    fls = sorted({j["flavour"] for j in jobs})
    b.start([(k, f) for f in fls for k in ("ir", "native")])
    known = load_known(prop)
    ev = dict(jobs=[], functions=set(), viol=[], known=[], samples=[], errors=[], validated=0, mismatches=[], incomplete=[])
    T = collections.Counter()
    checks = collections.defaultdict(lambda: [0, 0])
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, prop + ".replay-*")):
        os.remove(f)
    nviol = 0
    for ji, job in enumerate(jobs):
        ll = b.get("ir", job["flavour"])
        left = total - (time.time() - T0)
        if left < 5:
            ev["incomplete"].append("%s %s: not started, time budget used up" % (job["entry"], job["params"]))
            continue
        dl = int(min(job.get("deadline", 300 if tier == "quick" else 3600), left - 3))
        d = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t = time.time()
        cmd = [SX, "--ll", ll, "--entry", job["entry"], "--jobs", str(job.get("procs", 8)), "--dir", d, "--deadline", str(dl),
               "--rlimit", str(job.get("rlimit", 60_000_000)), "--samples", str(job.get("samples", 6))]
        for p in job["params"]:
            cmd += ["--param", str(p)]
        if "steps" in job:
            cmd += ["--steps", str(job["steps"])]
        cmd += job.get("flags", [])
        rc, out = run(cmd, timeout=dl + 120)
        R = []
        for f in sorted(glob.glob(d + "/r*.json")):
            try:
                R.append(json.load(open(f)))
            except ValueError:
                ev["errors"].append("%s: unreadable result" % job["entry"])
        shutil.rmtree(d, ignore_errors=True)
        if rc != 0:
            ev["errors"].append("%s %s: engine ended with %s: %s" % (job["entry"], job["params"], rc, out[-500:]))
        S = collections.Counter()
        errs, viols, samples = collections.Counter(), [], []
        reach = collections.Counter()
        for r in R:
            for k, v in r.items():
                if isinstance(v, int):
                    S[k] = max(S[k], v) if "max" in k else S[k] + v
            for e in r["errors"]:
                errs[re.sub(r"0x[0-9a-f]+", "0x?", e)[:300]] += 1
            viols += r["violations"]
            samples += r["samples"]
            ev["functions"].update(r["functions"])
            for k, (a, c) in r["check_ids"].items():
                checks[job["entry"] + ":" + k][0] += a
                checks[job["entry"] + ":" + k][1] += c
            for k, v in r["reach"].items():
                reach[k] += v
        for k, v in S.items():
            T[k] = max(T[k], v) if "max" in k else T[k] + v
        complete = not errs and rc == 0 and bool(R)
        if errs:
            for e, c in errs.most_common(3):
                ev["incomplete"].append("%s %s: %s (x%d)" % (job["entry"], job["params"], e, c))
        log("%s %s [%s]: %d paths, %d solver queries (%.1fs solver), %d instructions, %d violations%s, %.1fs" % (
            job["entry"], job["params"], job["flavour"], S["paths"], S["queries"], S["solver_ns"] / 1e9, S["instrs"], len(viols),
            "" if complete else " INCOMPLETE " + str(errs.most_common(2)), time.time() - t))
        ev["jobs"].append(dict(entry=job["entry"], params=job["params"], what=job.get("what", ""), flavour=job["flavour"],
                               paths=S["paths"], solver_queries=S["queries"], unsat=S["unsat"], sat=S["sat"], solver_s=round(S["solver_ns"] / 1e9, 3),
                               instructions=S["instrs"], longest_path_condition=S["max_pc"], exhaustive_within_bounds=complete,
                               reached={k: v for k, v in sorted(reach.items())}, wall_s=round(time.time() - t, 1)))
        # ---- counterexamples: replay against the real code
        seen = set()
        unconfirmed = []
        for v in viols:
            sig = (v["check"], v["kind"], re.sub(r"0x[0-9a-f]+", "", v["msg"])[:160])
            if sig in seen and len(seen) < 50:
                continue
            if time.time() - T0 > total + 60:
                break
            k = match_known(known, job, v, checks_text(cfg, job, v))
            if k is not None:
                if k not in ev["known"]:
                    ev["known"].append(k)
                seen.add(sig)
                continue
            path = os.path.join(evdir, "%s.replay-%d.txt" % (prop, nviol))
            txt = "%s: %s\n%s\nstack: %s\nrun: engine/target/release/sx --ll .build/ir-%s.ll --entry %s %s --input THIS_FILE --jobs 1 --dir DIR   or the native binary: native %s THIS_FILE %s" % (
                v["kind"], v["msg"], checks_text(cfg, job, v), " < ".join(demangle(v["stack"][:12])), job["flavour"], job["entry"],
                " ".join("--param %s" % p for p in job["params"]), job["entry"], " ".join(map(str, job["params"])))
            write_input(path, job, v["inputs"], txt)
            ok, how = confirm(b, job, v, path, ll)
            if ok:
                seen.add(sig)
                with open(path, "a") as f:
                    f.write("# confirmed: %s\n" % how)
                nviol += 1
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                print("   %s %s | %s: %s | %s" % (job["entry"], job["params"], v["kind"], v["msg"][:200], checks_text(cfg, job, v)), flush=True)
                print("   " + how, flush=True)
                ev["viol"].append(dict(entry=job["entry"], params=job["params"], kind=v["kind"], msg=v["msg"], replay=path, confirmed=how))
                if nviol >= 3:
                    break
            else:
                if v["kind"] != "hang":  # a long run that ends: it is in the incomplete list already
                    unconfirmed.append((sig, how))
                os.remove(path)
                if len(unconfirmed) > 6:
                    break
        for sig, how in unconfirmed:
            if sig not in seen:
                ev["mismatches"].append("%s %s: counterexample %s not reproduced (%s)" % (job["entry"], job["params"], sig, how))
        # ---- sampled paths: same observations natively
        if not viols and not job.get("no_native"):
            n = 0
            for s in samples:
                if n >= job.get("validate", 4) or time.time() - T0 > total:
                    break
                n += 1
                path = os.path.join(BUILD, "sample-%d.txt" % os.getpid())
                write_input(path, job, s["inputs"])
                nrc, nout = native(b, job, path)
                os.remove(path)
                obs = [int(x[4:]) for x in nout.splitlines() if x.startswith("OBS ")]
                if nrc == 0 and obs == s["obs"] and nout.rstrip().endswith("END"):
                    ev["validated"] += 1
                else:
                    ev["mismatches"].append("%s %s: native run of a sampled path differs (exit %s, %s)" % (job["entry"], job["params"], nrc, " / ".join(nout.strip().splitlines()[-4:])[:300]))
        for s in samples[:1]:
            if len(ev["samples"]) < 8:
                ev["samples"].append(dict(entry=job["entry"], params=job["params"], inputs=s["inputs"][:24], observations=s["obs"][:24],
                                          path_constraints=s["constraints"], steps=s["steps"]))
        if complete and not viols:
            for r in job.get("reach", [1]):
                if not reach.get(str(r)):
                    ev["mismatches"].append("%s %s: point %s was never reached: nothing was checked there" % (job["entry"], job["params"], r))
        if nviol >= 3:
            break
    for k in ev["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    for m in ev["mismatches"]:
        print("MISMATCH", m, flush=True)
    for m in ev["incomplete"]:
        print("INCOMPLETE", m, flush=True)
    fn = sorted(set(demangle(sorted(ev["functions"]))))
    gr = [f for f in fn if "granne" in f]
    out = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=T["forks"] + len(ev["jobs"]), transitions=T["instrs"], traces_validated_against_impl=ev["validated"],
            samples=ev["samples"],
            paths_completed=T["paths"], solver_queries=T["queries"], queries_unsat=T["unsat"], queries_sat=T["sat"], queries_unknown=T["unknown"],
            queries_answered_from_cache=T["cache_hits"] + T["model_hits"], solver_seconds=round(T["solver_ns"] / 1e9, 2),
            slowest_query_ms=round(T["solver_max_ns"] / 1e6, 2), floating_point_queries=T["fp_queries"],
            assertions_evaluated=T["checks"], assertions_needing_a_query=T["checks"] - T["checks_const"],
            assertions={k + (" " + cfg["checks"].get(k, cfg["checks"].get(int(k.split(":")[1]), "")) if cfg.get("checks") else ""): {"evaluated": a, "discharged_by_query": c} for k, (a, c) in sorted(checks.items())},
            bounds=cfg["bounds"], outside_the_bounds=cfg.get("outside", ""), jobs=ev["jobs"],
            granne_functions_encoded=gr, other_functions_encoded=len(fn) - len(gr),
            exhaustive=bool(ev["jobs"]) and all(j["exhaustive_within_bounds"] for j in ev["jobs"]) and len(ev["jobs"]) == len(jobs),
            incomplete=ev["incomplete"], mismatches=ev["mismatches"], known_findings=[k["what"] for k in ev["known"]],
            violations_found=ev["viol"]),
        assumptions=props.COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
        wall_s=round(time.time() - T0, 1), violations=nviol)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    log("%s %s: %d jobs, %d paths, %d queries, %d native validations, %d violations" % (prop, tier, len(ev["jobs"]), T["paths"], T["queries"], ev["validated"], nviol))
    if nviol:
        sys.exit(1)
    if ev["errors"] and not any(j["paths"] for j in ev["jobs"]):
        for e in ev["errors"]:
            print("ERROR", e)
        sys.exit(2)
    for e in ev["errors"]:
        print("NOTE", e)
    if ev["mismatches"]:
        sys.exit(2)
    sys.exit(0)


def checks_text(cfg, job, v):
    m = re.match(r"check[^0-9]*(\d+)", v["check"])
    c = cfg.get("checks", {})
    if m:
        i = int(m.group(1))
        return "check %d: %s" % (i, c.get("%s:%d" % (job["entry"], i), c.get(i, "")))
    return v["check"]


def confirm(b, job, v, path, ll):
    """does the counterexample fail for real?"""
    how = ""
    if not job.get("no_native"):
        rc, out = native(b, job, path, timeout=20)
        tail = " / ".join(out.strip().splitlines()[-3:])[:300]
        how = "native run: exit %s, %s" % (rc, tail)
        if rc == -9:
            return True, "native run does not terminate within 20 s"
        if rc in (3, 4) or rc < 0 or rc in (134, 139):
            return True, how
    if v["kind"] in ("memory", "misaligned", "deadlock", "race", "abort", "unreachable", "ub", "assume") or job.get("no_native"):
        # undefined behaviour and schedules do not show natively: concrete re-execution of the real code's IR
        d = os.path.join(BUILD, "rep-%d" % os.getpid())
        cmd = [SX, "--ll", ll, "--entry", job["entry"], "--jobs", "1", "--dir", d, "--deadline", "60", "--input", path]
        for p in job["params"]:
            cmd += ["--param", str(p)]
        rc, out = run(cmd + job.get("flags", []), timeout=90)
        try:
            r = json.load(open(d + "/r0.json"))
        except Exception:
            r = {"violations": []}
        shutil.rmtree(d, ignore_errors=True)
        for x in r["violations"]:
            if x["kind"] == v["kind"]:
                return True, "concrete re-execution in the interpreter on this input: %s (%s)" % (x["msg"][:200], how)
        return False, "concrete re-execution: no %s; %s" % (v["kind"], how)
    return False, how


def load_known(prop):
    r = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "finding":
                    r.append(d)
    return r


def match_known(known, job, v, txt):
    for k in known:
        if k["entry"] == job["entry"] and k["kind"] == v["kind"] and (k.get("check") is None or str(k["check"]) == str(v["check"])) and (
                not k.get("msg") or k["msg"] in v["msg"]) and ("params" not in k or k["params"] == job["params"]):
            if "stack" in k and not any(k["stack"] in s for s in demangle(v["stack"])):
                continue
            if "inputs" in k and not all([n, h] in [list(x) for x in v["inputs"]] for n, h in k["inputs"]):
                continue
            return k
    return None


if __name__ == "__main__":
    main()
