"""Runs Verus on a unit extracted from /repo's current source and classifies the outcome."""
import hashlib
import json, os, re, subprocess, time
from extract import Unit, Repo, AttachError
from rustlex import LexError

VERUS = os.environ.get("VERUS", "verus")
HARD = ("assertion failed", "postcondition not satisfied", "precondition not satisfied", "possible arithmetic", "invariant not satisfied",
        "possible division by zero", "decreases not satisfied", "possible bit shift", "unable to prove", "recommendation not met", "loop invariant")


def invoke(path, extra=(), timeout=400):
    t0 = time.time()
    cmd = [VERUS, path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "30", "--num-threads", "4"] + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"timeout": True, "cmd": cmd, "wall": time.time() - t0, "diags": [], "json": None}
    js = None
    try:
        js = json.loads(p.stdout)
    except Exception:
        m = p.stdout.find("{")
        if m >= 0:
            try:
                js = json.loads(p.stdout[m:])
            except Exception:
                pass
    diags = []
    for ln in p.stderr.splitlines():
        ln = ln.strip()
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
            except Exception:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                diags.append({"code": (d.get("code") or {}).get("code"), "message": d["message"], "lines": [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")] or [s["line_start"] for s in d.get("spans", [])],
                              "alllines": [s["line_start"] for s in d.get("spans", [])],
                              "rendered": d.get("rendered") or d["message"]})
    return {"timeout": False, "cmd": cmd, "wall": time.time() - t0, "rc": p.returncode, "diags": diags, "json": js, "stderr": p.stderr[-4000:] if not diags and p.returncode else ""}


def fn_at(text_lines, line):
    cur = None
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        s = text_lines[i]
        if s.startswith("// BEGIN "):
            return s[9:].rsplit(" (source", 1)[0]
        if s.startswith("// END "):
            return None
    return cur


def run_unit(name, verif, repo_root, work, baseline, probes=True, rlimits=(None, 60), seeds=(0,), probed=None):
    """-> dict(status=proved|failed|unavailable, ...)"""
    path = os.path.join(verif, "proofs", name + ".rs")
    res = {"unit": name, "status": None, "reason": "", "obligations": 0, "discharged": 0, "functions": [], "failed": [], "smt_ms": 0, "changed": [], "rewrites": [], "wall_s": 0.0,
           "trusted": [], "cmd": ""}
    t0 = time.time()
    try:
        u = Unit(path, Repo(repo_root), baseline)
        text = u.build()
    except (AttachError, LexError, IndexError, KeyError, OSError) as e:
        res.update(status="unavailable", reason="the contracts do not attach to the current source: %s" % e)
        return res
    res["functions"], res["changed"], res["structure_changed"] = u.fns, u.changed, u.structure_changed
    res["rewrites"] = u.rewrite_log
    res["shapes"] = u.shapes
    f = os.path.join(work, name + ".rs")
    open(f, "w").write(text)
    tl = text.split("\n")
    res["trusted"] = trusted_scan(tl)
    attempts = []
    r = None
    for rl in rlimits:
        for sd in seeds:
            extra = []
            if rl:
                extra += ["--rlimit", str(rl)]
            if sd:
                extra += ["-V", "smt-option", "-V", "random_seed=%d" % sd]
            r = invoke(f, extra)
            attempts.append(r)
            if r["json"] and r["json"]["verification-results"].get("success"):
                break
            if r["json"] is None or r["json"]["verification-results"].get("encountered-vir-error"):
                break
        if r["json"] is None or r["json"]["verification-results"].get("encountered-vir-error") or r["json"]["verification-results"].get("success"):
            break
        if not u.changed and rl is None:
            continue
    res["cmd"] = " ".join(r["cmd"])
    res["wall_s"] = round(time.time() - t0, 2)
    js = r["json"]
    if r["timeout"] or js is None:
        res.update(status="unavailable", reason="verifier timeout" if r["timeout"] else "verifier rejected the text: " + "; ".join(d["message"] for d in r["diags"][:3]) + r.get("stderr", "")[-300:])
        return res
    vr = js["verification-results"]
    if vr.get("encountered-vir-error") or "verified" not in vr:
        res.update(status="unavailable", reason="the current source uses something the verifier does not accept: " + "; ".join(d["message"] for d in r["diags"][:3]))
        return res
    rustc = [d for d in r["diags"] if d.get("code")]
    if rustc:  # the text does not compile as Rust: nothing was decided
        res.update(status="unavailable", reason="the verified text does not compile: " + "; ".join(d["message"] for d in rustc[:3]))
        return res
    res["discharged"], res["obligations"] = vr["verified"], vr["verified"] + vr["errors"]
    try:
        for m in js["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in m.get("function-breakdown", []):
                res["smt_ms"] += fb.get("time-micros", 0) / 1000.0
    except Exception:
        pass
    res["smt_ms"] = round(res["smt_ms"], 1)
    if vr["success"] and vr["verified"] > 0:
        res["status"] = "proved"
        res["text_hash"] = text_hash(text)
        if probed and probed.get(name, {}).get("hash") == res["text_hash"] and probes != "always":
            res["probes"] = probed[name]["probes"]  # this very text was probed when it was recorded
        elif probes:
            miss = vacuity(name, path, repo_root, work, baseline)
            res["probes"] = miss["n"]
            if miss["missing"]:
                res.update(status="unavailable", reason="vacuous contract: unreachable start of " + ", ".join(miss["missing"]))
        return res
    soft, hard = [], []
    for d in r["diags"]:
        where = next((x for x in (fn_at(tl, l) for l in d["lines"] + d["alllines"]) if x), None)
        e = {"message": d["message"], "function": where, "rendered": d["rendered"]}
        if "Resource limit" in d["message"] or "rlimit" in d["message"] or "timed out" in d["message"]:
            soft.append(e)
        else:
            hard.append(e)
    res["failed"] = hard + soft
    if not hard:
        res.update(status="unavailable", reason="solver resource limit in " + ", ".join(str(e["function"]) for e in soft))
    else:
        res["status"] = "failed"
    return res


def text_hash(text):
    return hashlib.sha256(re.sub(r"\(source line \d+\)", "", text).encode()).hexdigest()


def vacuity(name, path, repo_root, work, baseline):
    missing, n = [], 0
    for mode in ("start", "loops"):
        u = Unit(path, Repo(repo_root), baseline, mode)
        text = u.build()
        if not u.nprobes:
            continue
        f = os.path.join(work, "%s_probe_%s.rs" % (name, mode))
        # a small resource limit is enough: running out of it means that false was not derived
        text = re.sub(r"#\[verifier::rlimit\(\d+\)\]", "#[verifier::rlimit(4)]", text)
        open(f, "w").write(text)
        tl = text.split("\n")
        r = invoke(f, ["--rlimit", "4"])
        hit = set()
        for d in r["diags"]:
            for l in d["alllines"]:
                if "// PROBE " in tl[l - 1]:
                    hit.add(tl[l - 1].split("// PROBE ")[1].strip())
                if "Resource limit" in d["message"] or "rlimit" in d["message"]:
                    # false could not be derived within the limit either
                    w = fn_at(tl, l)
                    hit.update(p for p in u.probe_names if w and (p == w or p.startswith(w + " loop ")))
        n += u.nprobes
        missing += [p for p in u.probe_names if p not in hit]
    return {"n": n, "missing": missing}


def trusted_scan(tl):
    out = []
    for i, s in enumerate(tl):
        if "/*contract-of " in s:
            continue  # proved in another unit
        if "assume_specification" in s or "external_body" in s or re.search(r"\badmit\(|\bassume\(", s) or "axiom fn" in s:
            nxt = s.strip()
            if "external_body" in s:
                for t in tl[i : i + 5]:
                    if re.search(r"\bfn \w+|struct \w+", t):
                        nxt = "external_body " + t.strip()
                        break
            out.append(nxt[:160])
    return out
