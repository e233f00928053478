#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  check.py <ID>            quick tier (or VERIF_TIER)
  check.py <ID> thorough   thorough tier
  check.py --record        re-records the shapes of the extracted functions (proofs/baseline.json)
  check.py --setup         builds the harness crate once
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vp"))
REPO = "/repo"
from registry import PROPS, KANI
import verusrun
from extract import Unit, Repo, AttachError

PROBED = os.path.join(VERIF, "proofs", "probed.json")
BASELINE = os.path.join(VERIF, "proofs", "baseline.json")
WORKROOT = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")


def cargo_env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        k, _, v = kv.decode(errors="replace").partition("=")
        if k and k not in ("PWD", "OLDPWD", "_", "SHLVL"):
            e[k] = v
    for k in ("TDCCH_APPROX_THRESHOLD", "TDCCH_APPROX", "TRAFFIC_MAX_QUERY_TIME"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def build_bins(bins, log, profile="dev"):
    """-> (ok, message)"""
    if not bins:
        return True, ""
    cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    open(log, "w").write(p.stdout)
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if l.startswith("error")]
        return False, "; ".join(errs[:4]) or p.stdout[-400:]
    return True, ""


def exe_of(b):
    """"c05" is the debug build, "c05:plain" the one without debug assertions"""
    n, _, profile = b.partition(":")
    return os.path.join(HARNESS, "target", profile or "debug", n)


def run_bin(b, tier, seed, extra_env=None, timeout=600):
    env = cargo_env()
    env.update({"VERIF_TIER": tier, "VERIF_SEED": str(seed)})
    env.update(extra_env or {})
    exe = exe_of(b)
    t0 = time.time()
    p = subprocess.Popen([exe], cwd=WORKROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = "timeout"
    return rc, out, time.time() - t0


def harness_outcome(b, tier, seed):
    """-> dict(ok, cases, groups, samples, failure)"""
    tmo = 540 if tier == "quick" else 3000
    rc, out, wall = run_bin(b, tier, seed, timeout=tmo)
    r = {"bin": b, "rc": rc, "wall_s": round(wall, 2), "cases": 0, "groups": "", "samples": [l[7:] for l in out.splitlines() if l.startswith("SAMPLE ")], "failure": None, "ok": False,
         "known": [l for l in out.splitlines() if l.startswith("KNOWN ")]}
    m = re.search(r"^OK cases=(\d+) groups=(.*)$", out, re.M)
    if rc == 0 and m:
        r.update(ok=True, cases=int(m.group(1)), groups=m.group(2))
        return r
    if rc == 1 and "FAILED case=" in out:
        g = lambda k: (re.search(r"^%s ?(.*)$" % k, out, re.M) or [None, ""])[1]
        r["failure"] = {"case": g("FAILED"), "input": g("INPUT"), "error": g("ERROR")}
        return r
    # hang, abort or crash: run again with a trace to name the input
    m = re.search(r"^HANG case=(\d+)", out, re.M)
    what = "does not terminate" if m else ("killed by signal %s" % -rc if isinstance(rc, int) and rc < 0 else "ended with status %s" % rc)
    if rc == "timeout":
        # the whole suite took too long without a single case hanging: not a verdict
        r["failure"] = None
        r["reason"] = "suite ran out of time"
        return r
    env = {"VP_TRACE": "1"}
    if m:
        env["VP_ONLY"] = m.group(1)
    rc2, out2, _ = run_bin(b, tier, seed, env, timeout=tmo)
    last = [l for l in out2.splitlines() if l.startswith("CASE ")]
    if rc2 == 0:
        # not reproducible with the same seed: no verdict
        r["reason"] = "%s, not reproduced on a second run" % what
        return r
    r["failure"] = {"case": " ".join(last[-1].split(" ", 2)[:2]) if last else "?", "input": last[-1][:20000] if last else "?", "error": what}
    return r


def run_kani(name, work):
    k = KANI[name]
    out = {"harness": name, "status": "unavailable", "checks": 0, "wall_s": 0, "bound": k["bound"], "reason": ""}
    t0 = time.time()
    try:
        src = "\n".join(l for l in open(os.path.join(REPO, k["file"])).read().split("\n") if not l.startswith("//!"))
        for a, b in k.get("subst", []):
            src = src.replace(a, b)
        f = os.path.join(work, name + ".rs")
        open(f, "w").write(src + "\n" + open(os.path.join(VERIF, "kani", name + ".rs")).read())
        d = os.path.join(work, "kani_" + name)
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(["kani", f] + k.get("args", []), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400, env=dict(os.environ, RUSTFLAGS="--edition=2021"))
    except subprocess.TimeoutExpired:
        out["reason"] = "timeout"
        return out
    except OSError as e:
        out["reason"] = str(e)
        return out
    out["wall_s"] = round(time.time() - t0, 2)
    t = p.stdout
    n = sum(int(x) for x in re.findall(r"\*\* \d+ of (\d+) failed", t))
    out["checks"] = n
    if re.search(r"Complete - (\d+) successfully verified harnesses, 0 failures", t) and n > 0 and "0 of 1 cover" not in t:
        out["status"] = "proved"
    elif "VERIFICATION:- FAILED" in t and "unwinding" not in "".join(re.findall(r"^Failed Checks:.*$", t, re.M)) and "unsupported" not in "".join(re.findall(r"^Failed Checks:.*$", t, re.M)):
        out["status"] = "failed"
        out["failed"] = re.findall(r"^Failed Checks:.*$", t, re.M)
        out["tail"] = t[-3000:]
    else:
        out["reason"] = "; ".join(re.findall(r"^error.*$", t, re.M)[:3]) or t[-300:]
    return out


def load_baseline():
    try:
        return json.load(open(BASELINE))
    except OSError:
        return {}


def record():
    bl = {}
    for u in sorted({u for p in PROPS.values() for u in p.get("units", [])}):
        x = Unit(os.path.join(VERIF, "proofs", u + ".rs"), Repo(REPO), {})
        x.build()
        bl[u] = x.shapes
    json.dump(bl, open(BASELINE, "w"), indent=1, sort_keys=True)
    open(BASELINE, "a").write("\n")


def probe():
    """runs the reachability probes of units whose text is not recorded as probed"""
    old = load_probed()
    new = {}
    work = tempfile.mkdtemp(dir=WORKROOT)
    for u in sorted({u for p in PROPS.values() for u in p.get("units", [])}):
        h = verusrun.text_hash(Unit(os.path.join(VERIF, "proofs", u + ".rs"), Repo(REPO), load_baseline().get(u, {})).build())
        if old.get(u, {}).get("hash") == h:
            new[u] = old[u]
            continue
        m = verusrun.vacuity(u, os.path.join(VERIF, "proofs", u + ".rs"), REPO, work, load_baseline().get(u, {}))
        print(u, m["n"], "probes", "missing: %s" % m["missing"] if m["missing"] else "ok")
        if not m["missing"]:
            new[u] = {"hash": h, "probes": m["n"]}
    shutil.rmtree(work)
    json.dump(new, open(PROBED, "w"), indent=1, sort_keys=True)
    open(PROBED, "a").write("\n")


def load_probed():
    try:
        return json.load(open(PROBED))
    except OSError:
        return {}


def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(l)
    except OSError:
        pass
    return out


def main():
    os.makedirs(WORKROOT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if sys.argv[1] == "--probe":
        return probe()
    if sys.argv[1] == "--record":
        return record()
    if sys.argv[1] == "--setup":
        bins = sorted({b for p in PROPS.values() for b in p.get("bins", [])})
        ok, msg = build_bins([b for b in bins if ":" not in b], os.path.join(WORKROOT, "setup.log"))
        if ok:
            ok, msg = build_bins([b.partition(":")[0] for b in bins if b.endswith(":plain")], os.path.join(WORKROOT, "setup.log"), "plain")
        print("setup:", "ok" if ok else msg)
        sys.exit(0 if ok else 1)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = PROPS[pid]
    work = os.path.join(WORKROOT, "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(pid, prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(pid, prop, tier, seed, work):
    t0 = time.time()
    baseline = load_baseline()
    results, kres, build = {}, {}, {}

    def unit_thread(u):
        try:
            results[u] = verusrun.run_unit(u, VERIF, REPO, work, baseline.get(u, {}), probes="always" if tier == "thorough" else True, probed=load_probed(), rlimits=prop.get("rlimits", (None, 60)))
        except Exception as e:  # never an alarm
            results[u] = {"unit": u, "status": "unavailable", "reason": "driver: %r" % e, "obligations": 0, "discharged": 0, "functions": [], "failed": [], "smt_ms": 0, "changed": [], "rewrites": [],
                          "trusted": [], "cmd": "", "wall_s": 0}

    def kani_thread(k):
        kres[k] = run_kani(k, work)

    def build_thread():
        build["ok"], build["msg"] = build_bins([b for b in prop.get("bins", []) if ":" not in b], os.path.join(work, "build.log"))
        plain = [b.partition(":")[0] for b in prop.get("bins", []) if b.endswith(":plain")]
        if build["ok"] and plain:
            build["ok"], build["msg"] = build_bins(plain, os.path.join(work, "build.log"), "plain")

    ths = [threading.Thread(target=build_thread)] + [threading.Thread(target=unit_thread, args=(u,)) for u in prop.get("units", [])]
    ths += [threading.Thread(target=kani_thread, args=(k,)) for k in prop.get("kani", [])]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    hres = []
    if build["ok"]:
        for b in prop.get("bins", []):
            h = harness_outcome(b, tier, seed)
            hres.append(h)
            if h["failure"]:
                break
    # ---- verdict
    violations = []
    concrete = next((h for h in hres if h["failure"]), None)
    vfail = [r for r in results.values() if r["status"] == "failed"]
    kfail = [k for k in kres.values() if k["status"] == "failed"]
    proof_lost = [r for r in results.values() if r["status"] == "unavailable"]
    if concrete:
        violations.append(("input", concrete))
    else:
        # a failed obligation counts only if the function still has the recorded structure: otherwise the
        # annotations (invariants at loops, ghost code) may simply not fit the rewritten code
        semantic = [r for r in vfail if not r.get("structure_changed")]
        if semantic:
            violations.append(("obligation", semantic))
        elif kfail:
            violations.append(("kani", kfail))
    print("property %s (%s tier, seed %d)" % (pid, tier, seed))
    for r in results.values():
        print("  verus unit %-22s %-11s %d/%d obligations, %d functions, %.1f ms solver, %.1f s%s" % (
            r["unit"], r["status"], r["discharged"], r["obligations"], len(r["functions"]), r["smt_ms"], r["wall_s"], ("; " + r["reason"]) if r["reason"] else ""))
        for e in r["failed"][:6]:
            print("     failed obligation: %s in %s" % (e["message"], e["function"]))
    for k in kres.values():
        print("  kani harness %-20s %-11s %d checks (bounded: %s) %.1f s %s" % (k["harness"], k["status"], k["checks"], k["bound"], k["wall_s"], k["reason"]))
    if not build["ok"]:
        print("  executable contracts: not built (%s)" % build["msg"])
    for h in hres:
        print("  executable contracts %-10s %s, %d cases %s (%.1f s)" % (h["bin"], "hold" if h["ok"] else (h["failure"] or h.get("reason")), h["cases"], h["groups"], h["wall_s"]))
    rc = 0
    decided = any(r["status"] in ("proved", "failed") for r in results.values()) or any(h["ok"] for h in hres)
    if violations:
        rc = 1
        replay = os.path.join(EVID, "%s.replay.json" % pid)
        kind, what = violations[0]
        doc = {"property": pid, "kind": kind, "seed": seed, "tier": tier, "repo_head": subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()}
        doc["failed_obligations"] = [{"unit": r["unit"], "message": e["message"], "function": e["function"], "verifier_output": e["rendered"]} for r in vfail for e in r["failed"][:10]]
        if kind == "input":
            m = re.search(r"\d+", concrete["failure"]["case"])
            doc["failing_input"] = concrete["failure"]
            doc["replay_cmd"] = "VERIF_SEED=%d VERIF_TIER=%s VP_TRACE=1 %s %s" % (seed, tier, ("VP_ONLY=" + m.group(0)) if m else "", exe_of(concrete["bin"]))
        elif kind == "kani":
            doc["kani"] = what
        json.dump(doc, open(replay, "w"), indent=1)
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if kind == "input" else " no-failing-input-found"))
    elif not decided:
        print("no verdict: neither the proof nor the executable contracts could be run")
        rc = 2
    for l in known_findings():
        if l.startswith("KNOWN-FINDING: property=%s " % pid):
            print(l)
    obligations = sum(r["obligations"] for r in results.values())
    discharged = sum(r["discharged"] for r in results.values())
    trusted = sorted({t for r in results.values() for t in r["trusted"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(re.sub(r"/\S*/(\w+\.rs)", r"\1", r["cmd"]) for r in results.values() if r["cmd"]) or "none",
            "trusted_base": trusted + prop.get("trusted", []),
            "functions_under_contract": sorted({f for r in results.values() for f in r["functions"]}),
            "proof_status": {r["unit"]: {"status": r["status"], "reason": r["reason"], "solver_ms": r["smt_ms"], "reachability_probes": r.get("probes", 0), "backend": "Verus (Z3)"} for r in results.values()},
            "source_changed_since_baseline": sorted({c for r in results.values() for c in r["changed"]}),
            "extraction_rewrites": sorted({x for r in results.values() for x in r["rewrites"]}),
            "kani_bounded": [{k: v for k, v in x.items() if k != "tail"} for x in kres.values()],
            "evaluations": sum(h["cases"] for h in hres),
            "bounded_groups": {h["bin"]: h["groups"] for h in hres},
            "samples": [s for h in hres for s in h["samples"]][:8],
            "bounded_standins": prop.get("bounded", []),
            "explanation": prop["note"],
        },
        "assumptions": prop.get("assumptions", []) + ["proof not applied this run: %s (%s)" % (r["unit"], r["reason"]) for r in proof_lost],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    return rc


if __name__ == "__main__":
    main()
