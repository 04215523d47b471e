#!/usr/bin/env python3
"""check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)

1. regenerate every Verus unit of the property from /repo's working tree and let the
   verifier discharge all obligations (and, separately, refute `false` at the start of
   every contracted function: no contract is vacuous);
2. run the Kani proof harnesses of the property, if any;
3. build the executable-contract harness against /repo's working tree and search for
   a concrete failing input (bounded, used to exhibit counterexamples and as a labelled
   stand-in for what is not under contract).
exit 0 / exit 1 + VIOLATION line.  See DESIGN.md, "Driver".
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, HERE)
import extract
from props import PROPS

REPO = extract.REPO
BUILD = os.path.join(HERE, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
T0 = time.time()

def env():
    e = dict(os.environ)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    e["VERIF_WS"] = os.path.join(BUILD, "ws")
    e["VERIF_REPO"] = REPO
    e.pop("RUSTFLAGS", None)
    return e

def run(cmd, timeout, cwd=None, extra=None, mem_gb=None):
    e = env()
    if extra: e.update(extra)
    def lim():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e,
                         text=True, errors="replace", start_new_session=True, preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
        return None, out, err

# ------------------------------------------------------------------ Verus
UNDECIDED = re.compile(r"resource limit|rlimit|could not be verified|internal error|timed out|not supported|unsupported", re.I)
FAILED = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                    r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|could not prove termination|"
                    r"unreachable|index out of|requires not satisfied|assertion not satisfied|loop must|recommend", re.I)

def verus(path, rlimit):
    cmd = ["verus", "--output-json", "--time-expanded", "--multiple-errors", "6", "--num-threads", "4",
           "--rlimit", str(rlimit), path]
    rc, out, err = run(cmd, 400, mem_gb=16)
    try:
        d = json.loads(out[out.index("{"):])
    except (ValueError, json.JSONDecodeError):
        d = None
    return cmd, rc, d, err

def errors_of(err):
    """[(message, line, snippet)]"""
    res = []
    blocks = re.split(r"\n(?=error)", "\n" + err)
    for b in blocks:
        m = re.match(r"\n?error(?:\[\w+\])?: (.*)", b)
        if not m or m.group(1).startswith("aborting"): continue
        l = re.search(r"-->\s*\S+?:(\d+):", b)
        res.append((m.group(1).strip(), int(l.group(1)) if l else 0, b.strip()))
    return res

def fn_at(text, line):
    lines = text.split("\n")
    for k in range(min(line, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+([A-Za-z_0-9]+)", lines[k])
        if m and not lines[k].strip().startswith("//"): return m.group(1)
    return "?"

def do_unit(unit, opts):
    r = dict(unit=unit, status="ok", functions=[], obligations=0, discharged=0, failed=[], notes=[], smt_ms=0, rewrites=[], trusted=[])
    try:
        text, info = extract.expand(unit + ".vrs")
        vtext, _ = extract.expand(unit + ".vrs", vacuity=True)
    except extract.Lost as e:
        r["status"] = "undecided"; r["notes"].append(f"extraction: {e}"); return r
    except Exception as e:                       # malformed source for the extractor
        r["status"] = "undecided"; r["notes"].append(f"extraction error: {type(e).__name__}: {e}"); return r
    d = os.path.join(BUILD, "units"); os.makedirs(d, exist_ok=True)
    p, pv = os.path.join(d, unit + ".rs"), os.path.join(d, unit + "_vac.rs")
    open(p, "w").write(text); open(pv, "w").write(vtext)
    r["rewrites"] = info["rewrites"]
    r["functions"] = [f"{f['file']}::{f['path']}" for f in info["functions"] if not f["trusted"]]
    r["types"] = info["types"]
    code = re.sub(r"//[^\n]*", "", text)
    for m in re.finditer(r"\b(assume_specification[^;{]*?(?:\(|\[)[^;]*|assume\s*\([^;]*|admit\s*\(\)|external_body[^{;]*|axiom fn[^{;]*)", code):
        s = " ".join(m.group(1).split())[:160]
        if s not in r["trusted"]: r["trusted"].append(s)
    m = re.search(r"^// rlimit: (\d+)$", open(os.path.join(HERE, "units", unit + ".vrs")).read(), re.M)
    rlim = int(m.group(1)) if m else 30
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(verus, p, rlim); b = ex.submit(verus, pv, rlim)
        cmd, rc, res, err = a.result(); _, vrc, vres, verr = b.result()
    r["cmd"] = " ".join(cmd)
    if res is None or "verification-results" not in res:
        r["status"] = "undecided"; r["notes"].append("verus gave no result: " + err[-1500:]); return r
    vr = res["verification-results"]
    r["obligations"], r["discharged"] = vr.get("verified", 0) + vr.get("errors", 0), vr.get("verified", 0)
    try:
        br = [f for m in res["times-ms"]["smt"]["smt-run-module-times"] for f in m.get("function-breakdown", [])]
        r["smt_ms"] = round(sum(f["time-micros"] for f in br) / 1000, 1)
        r["per_function_ms"] = {f["function"].split("::", 1)[-1]: round(f["time-micros"] / 1000, 1) for f in br if f["mode:"] == "exec"}
    except (KeyError, TypeError):
        pass
    if not vr.get("success"):
        errs = errors_of(err)
        hard = [e for e in errs if FAILED.search(e[0]) and not UNDECIDED.search(e[0])]
        if vr.get("encountered-vir-error") or vr.get("errors", 0) == 0 or not hard:
            r["status"] = "undecided"
            r["notes"].append("verifier could not process or decide the extracted code: " + "; ".join(e[0] for e in errs)[:1500])
            r["log"] = err[-6000:]
        else:
            r["status"] = "failed"
            r["failed"] = [dict(obligation=e[0], function=fn_at(text, e[1]), detail=e[2][:1500]) for e in hard]
            r["log"] = err[-8000:]
        return r
    # vacuity: assert(false) at the start of every contracted function must be refutable nowhere
    vlines = vtext.split("\n")
    vac = {i + 1 for i, l in enumerate(vlines) if "/*VAC*/" in l}
    hit = {e[1] for e in errors_of(verr) if "assertion failed" in e[0]}
    r["vacuity_checked"] = len(vac)
    if vac - hit:
        r["status"] = "undecided"
        r["notes"].append("vacuous contract(s): " + ", ".join(fn_at(vtext, l) for l in sorted(vac - hit)))
        r["discharged"] = 0
    if r["obligations"] == 0:
        r["status"] = "undecided"; r["notes"].append("no obligations generated")
    return r

# ------------------------------------------------------------------ executable contracts
def prepare_ws():
    os.makedirs(BUILD, exist_ok=True)
    rc, out, err = run([sys.executable, os.path.join(HERE, "tools", "mkws.py")], 60)
    if rc != 0: return "workspace layout failed: " + err[-800:]
    return None

def build_bin(binname, feature):
    hd = os.path.join(HERE, "harness")
    before = open(os.path.join(hd, "Cargo.lock")).read()
    rc, out, err = run(["cargo", "build", "--release", "--offline", "--features", feature, "--bin", binname], 600, cwd=hd)
    if open(os.path.join(hd, "Cargo.lock")).read() != before:
        open(os.path.join(hd, "Cargo.lock"), "w").write(before)
    return rc == 0, err

def run_bin(binname, pid, known):
    exe = os.path.join(BUILD, "target", "release", binname)
    cmd = [exe, pid, "--seed", str(SEED), "--tier", TIER]
    lim = 330 if TIER == "quick" else 700
    def once(extra=None):
        rc, out, err = run(cmd, lim, extra=dict(VERIF_KNOWN=known, **(extra or {})), mem_gb=20)
        for l in out.splitlines():
            if l.startswith("HARNESS "):
                try: return rc, json.loads(l[8:]), out, err
                except json.JSONDecodeError: pass
        return rc, None, out, err
    rc, h, out, err = once()
    if h is None and rc is not None:             # died without a verdict: abort, stack overflow, out of memory
        tr = os.path.join(BUILD, f"trace-{pid}")
        if os.path.exists(tr): os.remove(tr)
        rc2, h2, out2, err2 = once(dict(VERIF_TRACE=tr))
        if h2 is None and rc2 is not None:
            case = open(tr, errors="replace").read()[:4000] if os.path.exists(tr) else "?"
            h = dict(property=pid, seed=SEED, evaluations=0, distinct_nontrivial=0, rule="", samples=[], exhaustive=False,
                     failure=f"the process died (exit {rc2}) while running: {case} | {err2[-600:]}")
        else: h = h2
    return h, " ".join(cmd), out

# ------------------------------------------------------------------ Kani
def do_kani(k):
    """k: dict(dir, harness, args). Bounded unless stated; label comes from props.py"""
    d = os.path.join(HERE, k["dir"])
    rc, out, err = run(["cargo", "kani", "--harness", k["harness"], *k.get("args", [])], 500, cwd=d,
                       extra=dict(CARGO_TARGET_DIR=os.path.join(BUILD, "kani-" + k["harness"])), mem_gb=20)
    ok = "VERIFICATION:- SUCCESSFUL" in out
    bad = "VERIFICATION:- FAILED" in out and "unwinding assertion" not in " ".join(re.findall(r"Failed Checks: (.*)", out))
    m = re.search(r"\*\* (\d+) of (\d+) failed", out)
    return dict(harness=k["harness"], bound=k.get("bound", ""), status="ok" if ok else "failed" if bad else "undecided",
                checks=int(m.group(2)) if m else 0, failed=re.findall(r"Failed Checks: (.*)", out)[:8],
                log="" if ok else (out[-4000:] + err[-2000:]))

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev): os.remove(ev)
    known = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (?:key=(\S+) )?(.*)", l.strip())
        if m and m.group(1) == pid: known.append((m.group(2) or "", l.strip()))
    units, kanis = P.get("units", []), P.get("kani", [])
    wserr = prepare_ws()
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build_bin, P["bin"], P["feature"]) if P.get("bin") and not wserr else None
        fu = [ex.submit(do_unit, u if isinstance(u, str) else u[0], {} if isinstance(u, str) else u[1]) for u in units]
        fk = [ex.submit(do_kani, k) for k in kanis if TIER == "thorough" or not k.get("thorough_only")]
        h, hcmd, hout, hnote = None, "", "", wserr
        if fb:
            ok, berr = fb.result()
            if ok: h, hcmd, hout = run_bin(P["bin"], pid, ",".join(k for k, _ in known))
            else: hnote = "harness does not build: " + berr[-3000:]
            if ok and h is None: hnote = "harness gave no verdict (time limit)"
        us, ks = [f.result() for f in fu], [f.result() for f in fk]
    failed = [dict(unit=u["unit"], **f) for u in us for f in u["failed"]]
    failed += [dict(unit="kani", function=k["harness"], obligation="; ".join(k["failed"]), detail=k["log"][-1500:]) for k in ks if k["status"] == "failed"]
    und = [n for u in us if u["status"] == "undecided" for n in u["notes"]] + [f"kani {k['harness']}: no verdict" for k in ks if k["status"] == "undecided"]
    hfail = h.get("failure") if h else None
    viol = 1 if (failed or hfail) else 0
    trusted = sorted({t for u in us for t in u["trusted"]} | set(P.get("trusted", [])))
    cov = dict(
        obligations=sum(u["obligations"] for u in us) + sum(k["checks"] for k in ks),
        discharged=sum(u["discharged"] for u in us) + sum(k["checks"] for k in ks if k["status"] == "ok"),
        checker_cmd="; ".join(u.get("cmd", "") for u in us) or "cargo kani",
        trusted_base=trusted or ["Verus 0.2026.09.13 / Z3, vstd"],
        functions_under_contract=[f for u in us for f in u["functions"]],
        units=[{k: u.get(k) for k in ("unit", "status", "obligations", "discharged", "smt_ms", "vacuity_checked", "per_function_ms", "notes", "rewrites")} for u in us],
        kani=[{k: v for k, v in x.items() if k != "log"} for x in ks],
        undecided=und,
        solver_ms=round(sum(u["smt_ms"] for u in us), 1),
    )
    if h:
        cov.update(evaluations=h["evaluations"], distinct_nontrivial=h["distinct_nontrivial"], rule="bounded search, not counted as proved: " + h["rule"],
                   samples=h["samples"], exhaustive=False, harness_cmd=hcmd)
    else:
        cov["harness"] = hnote or "none"
    doc = dict(property=pid, tier=TIER, seed=SEED, level=P["level"], coverage=cov,
               assumptions=P.get("assumptions", []) + [f"undecided: {n}"[:600] for n in und] + ([f"bounded search unavailable: {hnote[:600]}"] if hnote else []),
               wall_s=round(time.time() - T0, 2), violations=viol)
    json.dump(doc, open(ev, "w"), indent=1)
    for u in us:
        print(f"unit {u['unit']}: {u['status']} {u['discharged']}/{u['obligations']} obligations, {len(u['functions'])} functions, smt {u['smt_ms']} ms" + (" | " + "; ".join(u["notes"])[:300] if u["notes"] else ""))
    for k in ks: print(f"kani {k['harness']}: {k['status']} ({k['checks']} checks)")
    if h: print(f"search {P['bin']} {pid}: {h['evaluations']} cases, {h['distinct_nontrivial']} distinct non-trivial, failure: {hfail}")
    elif hnote: print("search: " + hnote[:1500])
    if viol:
        rp = os.path.join(HERE, "evidence", f"replay-{pid}.json")
        json.dump(dict(property=pid, seed=SEED, tier=TIER, failing_input=hfail, rerun=hcmd, failed_obligations=failed,
                       verifier_output=[u.get("log", "") for u in us if u["failed"]] + [k["log"] for k in ks if k["status"] == "failed"]), open(rp, "w"), indent=1)
        for f in failed: print(f"FAILED OBLIGATION {f['unit']}::{f['function']}: {f['obligation']}")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if hfail else " no-failing-input-found"))
        sys.exit(1)
    for _, l in known: print(l)
    if not h and (und or not (us or ks)):
        print("no answer: proof undecided and search unavailable"); sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
