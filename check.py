#!/usr/bin/env python3
"""Decide one property: contracts discharged by Verus on the code extracted from /repo, plus a
search for concrete inputs that contradict the property on the compiled crate itself."""
import json, os, re, subprocess, sys, time, threading, hashlib, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

REPO_TOOLCHAIN = "1.84-x86_64-unknown-linux-gnu"
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf8", "replace"), "timeout"
    except OSError as x:
        return -1, "", str(x)


# ------------------------------------------------------------------ extraction and proof
def build_vx():
    exe = os.path.join(BUILD, "vx", "debug", "vx")
    env = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": os.path.join(BUILD, "vx"), "RUSTFLAGS": "", "CARGO_NET_OFFLINE": "true"}
    rc, out, err = run(["cargo", "build", "--offline", "-q"], 600, env, os.path.join(HERE, "vx"))
    if rc != 0 and not os.path.exists(exe):
        log(err[-4000:])
        return None
    return exe


def extract(vx, unit, tag, trust=(), vac=False):
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    out = os.path.join(gen, f"{unit}_{tag}.rs")
    rep = os.path.join(gen, f"{unit}_{tag}.json")
    env = {"VX_TRUST": ";".join(sorted(trust))}
    if vac:
        env["VX_VACUITY"] = "1"
    rc, _, err = run([vx, REPO, os.path.join(HERE, "contracts"), unit + ".vrs", out, rep], 120, env)
    if rc not in (0, 3):
        return None, None, err
    with open(rep) as f:
        r = json.load(f)
    return out, r, err


def verus(path, extra=(), timeout=600):
    cmd = ["verus", path, "--output-json", "--error-format=json", "--time-expanded", "--triggers-mode", "silent", "--multiple-errors", "20", "--num-threads", "4", *extra]
    env = {"RUSTUP_TOOLCHAIN": ""}
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=os.path.dirname(path))
        out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return None, [], "timeout", cmd
    res = None
    i = out.find("{")
    if i >= 0:
        try:
            res = json.loads(out[i:])
        except ValueError:
            res = None
    diags = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" and d.get("level", "").startswith("error"):
                diags.append(d)
    return res, diags, err, cmd


PROOF_ERR = re.compile(r"postcondition|precondition|assertion|invariant|overflow|underflow|decreases|division by zero|unreachable|recommendation|not satisfied|assert_by|might fail|could not prove|exec_allows_no_decreases|constructed value may fail", re.I)


def where(d, rep):
    """the extracted items a diagnostic points into (primary spans first)"""
    spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
    lines = [s["line_start"] for s in spans]
    hits = []
    for ln in lines:
        for it in rep["items"]:
            if it["kind"] == "fn" and it["line"] <= ln <= it["line_end"] and it not in hits:
                hits.append(it)
    return hits, lines


def prop_at(rep, line):
    cur = ""
    for ln, p in rep["props"]:
        if ln <= line:
            cur = p
    return cur.split()


def body_item(d, rep):
    """the function whose obligation fails: for a precondition failure it is the caller"""
    hits, lines = where(d, rep)
    if not hits:
        return None, lines
    if re.search("precondition", d["message"]):
        prim = [s["line_start"] for s in d["spans"] if s.get("is_primary")]
        for it in hits:
            if any(it["line"] <= ln <= it["line_end"] for ln in prim):
                return it, lines
    return hits[0], lines


def run_unit(vx, unit, tier):
    """-> dict(status, items, failures, lost, obligations, discharged, solver_ms, trusted, edits, cmd)"""
    u = {"unit": unit, "fatal": None, "failures": [], "lost": [], "obligations": 0, "discharged": 0, "smt_ms": 0, "functions": [], "cmd": "", "edits": {}, "vacuous": []}
    trust = {}
    path = rep = res = diags = None
    for rnd in range(12):
        path, rep, err = extract(vx, unit, str(os.getpid()), trust)
        if path is None:
            u["fatal"] = "extraction failed: " + err[-500:]
            return u
        if rep["errors"]:
            u["fatal"] = "lost anchor: " + "; ".join(rep["errors"])
            return u
        res, diags, raw, cmd = verus(path)
        u["cmd"] = " ".join(cmd)
        if raw == "timeout":
            u["fatal"] = "verifier timed out"
            return u
        vr = (res or {}).get("verification-results", {})
        stage2 = res is not None and not vr.get("encountered-vir-error", True) and (vr.get("verified", 0) + vr.get("errors", 0)) > 0
        if stage2:
            rl = [d for d in diags if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower()]
            if vr.get("errors", 0) and (rl or rnd == 0):
                # flaky or too hard: give the solver more room before believing it
                res2, diags2, raw2, cmd2 = verus(path, ("--rlimit", "60"))
                vr2 = (res2 or {}).get("verification-results", {})
                if res2 is not None and vr2.get("errors", 99) <= vr.get("errors", 0):
                    res, diags, vr = res2, diags2, vr2
            break
        # a construct the verifier does not take: drop to the contract for that function
        new = 0
        for d in diags:
            it, _ = body_item(d, rep)
            hits, _ = where(d, rep)
            for it in hits:
                k = it["src"] + " " + it["path"]
                if k not in trust and not it["trusted"]:
                    trust[k] = d["message"]
                    new += 1
        if not new:
            u["fatal"] = "verifier rejected the extracted text: " + "; ".join(d["message"] for d in diags[:3]) + (raw[-300:] if not diags else "")
            return u
    else:
        u["fatal"] = "extraction did not settle"
        return u
    u["edits"] = rep["edits"]
    u["lost"] = [{"fn": it["path"], "src": it["src"], "why": trust.get(it["src"] + " " + it["path"], it["lost"]), "props": it["prop"].split()} for it in rep["items"] if it["kind"] == "fn" and it.get("lost")]
    fb = []
    for m in res["times-ms"]["smt"].get("smt-run-module-times", []):
        fb += m.get("function-breakdown", [])
    u["smt_ms"] = round(sum(f.get("time-micros", 0) for f in fb) / 1000.0, 1)
    vr = res["verification-results"]
    u["obligations"] = vr["verified"] + vr["errors"]
    u["discharged"] = vr["verified"]
    u["queries"] = len(fb)
    u["functions"] = [{"fn": it["path"], "src": it["src"], "trusted": it["trusted"], "lost": bool(it.get("lost")), "props": it["prop"].split(), "sha": hashlib.sha256(it.get("orig", "").encode()).hexdigest()[:12]} for it in rep["items"] if it["kind"] == "fn"]
    text = open(path).read().splitlines()
    for d in diags:
        if d["message"].startswith("aborting"):
            continue
        it, lines = body_item(d, rep)
        ln = lines[0] if lines else 0
        props = it["prop"].split() if it else prop_at(rep, ln)
        clause = " ".join(t["text"].strip() for s in d["spans"] if s.get("is_primary") for t in s.get("text", [])[:3])
        u["failures"].append({"fn": it["path"] if it else f"lemma near generated line {ln}", "src": it["src"] if it else unit + ".vrs", "message": d["message"], "clause": clause[:400], "props": props, "rendered": d.get("rendered", "")[:4000],
                              "code": it.get("orig", "")[:6000] if it else ""})
    if vr["errors"] and not u["failures"]:
        u["fatal"] = "verifier reported errors without diagnostics"
    # assumptions, read off the text the verifier was given
    u["trusted"] = scan_trusted(text)
    # vacuity: with `assert(false)` at the start of every body, every body must fail
    if not u["failures"] and not u["fatal"]:
        vpath, vrep, _ = extract(vx, unit, str(os.getpid()) + "_vac", trust, True)
        if vpath:
            r3, d3, _, _ = verus(vpath)
            bad = set()
            for d in d3:
                it, _ = body_item(d, vrep)
                if it:
                    bad.add((it["src"], it["path"]))
            n = 0
            for it in vrep["items"]:
                if it["kind"] == "fn" and not it["trusted"] and not it.get("lost"):
                    n += 1
                    if (it["src"], it["path"]) not in bad:
                        u["vacuous"].append(it["path"])
            u["vacuity_checked"] = n
            for p in (vpath, vpath[:-3] + ".json"):
                try: os.remove(p)
                except OSError: pass
    for p in (path, path[:-3] + ".json"):
        try: os.replace(p, p.replace("_" + str(os.getpid()), ""))
        except OSError: pass
    return u


def scan_trusted(lines):
    out = []
    for i, l in enumerate(lines):
        t = l.strip()
        if "external_body" in t:
            s = t
            j = i
            while "fn " not in s and "struct " not in s and j + 1 < len(lines):
                j += 1
                s = lines[j].strip()
            m = re.search(r"(fn|struct)\s+([A-Za-z0-9_]+)", s)
            if m:
                out.append(f"{m.group(1)} {m.group(2)}")
        elif t.startswith("pub assume_specification"):
            m = re.search(r"\[([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", t)
            out.append("std " + (m.group(1).strip() if m else t[:80]))
        elif re.match(r"(pub )?(broadcast )?axiom fn", t):
            out.append("axiom " + re.search(r"axiom fn (\w+)", t).group(1))
        elif re.search(r"\bassume\(|\badmit\(", t):
            out.append("ASSUME " + t[:80])
    return sorted(set(out))


# ------------------------------------------------------------------ concrete search
def build_harness(which):
    src = os.path.join(HERE, "harness", which)
    tgt = os.path.join(BUILD, "target-" + which)
    env = {"RUSTUP_TOOLCHAIN": REPO_TOOLCHAIN, "CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "--cfg hudi_verif", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"}
    work = os.path.join(BUILD, "hsrc-" + which)
    os.makedirs(work, exist_ok=True)
    for n in ("src",):
        d = os.path.join(work, n)
        shutil.copytree(os.path.join(src, n), d, dirs_exist_ok=True, copy_function=copy_if_changed)
    t = open(os.path.join(src, "Cargo.toml")).read().replace("/repo", REPO)
    write_if_changed(os.path.join(work, "Cargo.toml"), t)
    lock = os.path.join(work, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy("/opt/vp/Cargo.lock" if os.path.exists("/opt/vp/Cargo.lock") else os.path.join(REPO, "Cargo.lock"), lock)
    rc, out, err = run(["cargo", "build", "--offline", "-q"], 780, env, work)
    if rc != 0:
        return None, err[-6000:]
    return os.path.join(tgt, "debug", "hx-" + which), ""


def copy_if_changed(a, b):
    if not (os.path.exists(b) and open(a, "rb").read() == open(b, "rb").read()):
        shutil.copy(a, b)
    return b


def write_if_changed(p, t):
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, "w") as f:
            f.write(t)


def scratch_dir(pid):
    name = f"hudi-verif-{pid}-{os.getpid()}"
    for base in ("/dev/shm", BUILD):   # memory first: the search writes and removes many small tables
        d = os.path.join(base, name)
        try:
            os.makedirs(d, exist_ok=True)
            if shutil.disk_usage(d).free < (256 << 20):
                raise OSError("too small")
            with open(os.path.join(d, "probe"), "w") as f:
                f.write("x")
            return d
        except OSError:
            shutil.rmtree(d, ignore_errors=True)
    raise OSError("no scratch directory")


def search(exe, pid, seed, tier, budget):
    out = os.path.join(BUILD, f"search-{pid}-{os.getpid()}.json")
    scratch = scratch_dir(pid)
    env = {"TZ": "UTC", "HX_SCRATCH": scratch, "RUST_BACKTRACE": "0"}
    rc, o, e = run([exe, pid, str(seed), tier, str(budget), out], budget + 240, env, scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            r = None
        os.remove(out)
    return rc, r, (o + e)[-3000:]


def known_findings(pid):
    ks = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                ks[m.group(2)] = m.group(3)
    return ks


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    budget = cfg.get("budget", 20) if tier == "quick" else cfg.get("thorough_budget", 240)

    hres = {}

    def do_search():
        exe, err = build_harness(cfg.get("harness", "core"))
        if exe is None:
            hres["err"] = "harness does not build against the current tree: " + err
            log(hres["err"][:1500])
            return
        hres["build_s"] = round(time.time() - T0, 1)
        rc, r, tail = search(exe, pid, seed, tier, budget)
        hres["rc"], hres["r"], hres["tail"], hres["exe"] = rc, r, tail, exe

    th = threading.Thread(target=do_search)
    th.start()
    units = []
    vx = build_vx() if cfg["units"] else None
    if cfg["units"] and vx is None:
        units = [{"unit": n, "fatal": "extractor does not build", "failures": [], "lost": [], "obligations": 0, "discharged": 0, "functions": [], "trusted": [], "edits": {}, "vacuous": [], "smt_ms": 0, "cmd": ""} for n in cfg["units"]]
    else:
        for n in cfg["units"]:
            units.append(run_unit(vx, n, tier))
    th.join()

    mine = [f for u in units for f in u["failures"] if pid in f["props"]]
    deps = [f for u in units for f in u["failures"] if pid not in f["props"]]
    lost = [x for u in units for x in u["lost"] if pid in x["props"]]
    fatal = [f"{u['unit']}: {u['fatal']}" for u in units if u["fatal"]]
    vac = [f"{u['unit']}: {x}" for u in units for x in u["vacuous"]]
    for u in units:
        log(f"[{pid}] unit {u['unit']}: {u['discharged']}/{u['obligations']} discharged, {u['smt_ms']} ms solver, lost {[x['fn'] for x in u['lost']]}, fatal {u['fatal']}")
    for f in mine + deps:
        log(f"[{pid}] FAILED OBLIGATION {f['src']} {f['fn']}: {f['message']}: {f['clause']}")

    r = hres.get("r") or {}
    known = known_findings(pid)
    viol, seen_known = [], {}
    if hres.get("rc") not in (0, None) and not r:
        # the code under test brought the search process down (abort, stack overflow, out of memory)
        log(f"[{pid}] search process ended with {hres.get('rc')}: {hres.get('tail', '')}")
        if hres.get("rc", 0) < 0 and hres.get("rc") != -9:
            viol.append({"key": "crash", "what": f"the search process died with signal {-hres['rc']} inside the code under test", "case": hres.get("tail", "")})
    for v in r.get("violations", []):
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            viol.append(v)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    status = 0
    line = None
    if viol:
        status = 1
        rp = os.path.join(rdir, f"{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "kind": "concrete", "seed": seed, "tier": tier, "violations": viol[:10], "failed_obligations": mine,
                       "replay": f"cd {HERE} && VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {pid}   # re-runs the deterministic case stream; each entry above spells out input, observed and expected"}, f, indent=1)
        line = f"VIOLATION property={pid} replay={rp}"
        for v in viol[:3]:
            log(f"[{pid}] counterexample ({v['key']}): {v['what']}: {str(v.get('case'))[:1500]}")
    elif mine:
        status = 1
        rp = os.path.join(rdir, f"{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "kind": "failed-obligation", "failed_obligations": mine, "search": {k: r.get(k) for k in ("evaluations", "distinct_nontrivial", "rule")}}, f, indent=1)
        line = f"VIOLATION property={pid} replay={rp} no-failing-input-found"

    proved = not (mine or deps or lost or fatal or vac) and bool(units)
    complete = cfg.get("level", "proof") == "proof"
    obligations = sum(u["obligations"] for u in units)
    discharged = sum(u["discharged"] for u in units)
    fns = [f for u in units for f in u["functions"]]
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "obligation_unit": "one verification condition set per function or lemma (all its postconditions, call preconditions, loop invariants, termination, arithmetic and index obligations)",
        "checker_cmd": re.sub(r"_\d+\.rs", ".rs", " && ".join(u["cmd"] for u in units)) or "none",
        "backend": "Verus 0.2026.09.13 / Z3",
        "solver_ms": {u["unit"]: u["smt_ms"] for u in units},
        "functions_under_contract": [f"{f['src']}::{f['fn']}" + (" [contract assumed]" if f["trusted"] else "") + (" [not checked this run]" if f["lost"] else "") for f in fns if pid in f["props"]],
        "functions_relied_on": [f"{f['src']}::{f['fn']}" + (" [contract assumed]" if f["trusted"] else "") + (" [not checked this run]" if f["lost"] else "") for f in fns if pid not in f["props"]],
        "trusted_base": sorted(set(t for u in units for t in u.get("trusted", []))),
        "extraction_edits": {u["unit"]: u["edits"] for u in units},
        "vacuity": {u["unit"]: {"bodies_checked": u.get("vacuity_checked", 0), "vacuous": u["vacuous"]} for u in units},
        "failed_obligations": [f"{f['src']} {f['fn']}: {f['message']}: {f['clause']}" for f in mine + deps],
        "not_proved_this_run": [f"{x['fn']}: {x['why']}" for x in lost] + fatal,
        "bounded_search": {"what": "concrete inputs run on the compiled crate; labelled bounded, not counted as proved", "built": "err" not in hres, "error": hres.get("err", "")[-800:], "violations": len(viol), "known": sorted(seen_known)},
        "evaluations": r.get("evaluations", 0),
        "distinct_nontrivial": r.get("distinct_nontrivial", 0),
        "rule": r.get("rule", "search did not run"),
        "samples": r.get("samples", [])[:5],
        "covers": cfg.get("covers", ""),
        "bounded_parts": cfg.get("bounded", ""),
    }
    level = "proof" if (proved and complete) else ("exploration" if r else "other")
    if complete and not proved:
        cov["explanation"] = "not proved on this tree: see failed_obligations / not_proved_this_run; the bounded search stands in"
    elif not complete:
        cov["explanation"] = cfg.get("bounded", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if status else 0}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if line:
        print(line)
    else:
        print(f"OK property={pid} {discharged}/{obligations} obligations, {cov['evaluations']} concrete cases" + ("" if proved else " (proof incomplete this run: bounded search only)"))
    sys.exit(status)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        print(f"OK-UNDECIDED {e}")
        sys.exit(2)
