#!/usr/bin/env python3
"""Runs one property's static analysis and writes its evidence.

The deciding step is the analyser m68sa (a rustc driver) reading /repo's current sources. This script
only builds it, separates known findings from violations and records the numbers it printed."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("M68SA_REPO", "/repo")
EV = os.path.join(HERE, "evidence")

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def build():
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(HERE, "m68sa"))
    if r.returncode: print(r.stdout[-4000:]); die("the analyser does not build")

def sysroot(): return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()

def analyse(pid, tier):
    out = os.path.join(EV, pid + ".raw.json")
    if os.path.exists(out): os.remove(out)
    sr = sysroot()
    env = dict(os.environ, M68SA_CHECK=pid, M68SA_OUT=out, VERIF_TIER=tier, LD_LIBRARY_PATH=sr + "/lib")
    cmd = [os.path.join(HERE, "m68sa/target/release/m68sa"), REPO + "/m68000/src/lib.rs", "--crate-name", "m68000", "--crate-type", "lib",
           "--edition", edition(), "--sysroot", sr, "-Zmir-opt-level=0", "-Coverflow-checks=on", "-Awarnings"]
    env["M68SA_KNOWN"] = "\n".join(k for p, k in known() if p == pid)
    if pid in ("C33", "C34", "C35"): return ffi(pid, env, out, sr)
    r = sh(cmd, env=env)
    if r.returncode or not os.path.exists(out): print(r.stdout[-4000:]); die("the analysis gave no result")
    with open(out) as f: return json.load(f), cmd

def ffi(pid, env, out, sr):
    """The C interface is a crate of its own: cargo compiles its dependencies and hands it to the analyser."""
    tmp = tempfile.mkdtemp(prefix="m68sa-ffi.")
    try:
        env.pop("RUSTUP_TOOLCHAIN", None)
        env.update(RUSTC_WORKSPACE_WRAPPER=os.path.join(HERE, "m68sa/target/release/m68sa"), CARGO_TARGET_DIR=tmp,
                   RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings")
        cmd = ["cargo", "+nightly", "check", "-p", "m68000-ffi", "--lib", "--offline"]
        r = sh(cmd, env=env, cwd=REPO)
        if not os.path.exists(out): print(r.stdout[-4000:]); die("the analysis gave no result")
        with open(out) as f: res = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if pid == "C34": res = abi(res)
    return res, ["RUSTC_WORKSPACE_WRAPPER=m68sa"] + cmd

def abi(desc):
    """The compiler's layouts and signatures against the C headers."""
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import cabi
    obs = cabi.check(REPO, desc)
    finds = [{"prop": "C34", "broken": True, "key": k, "n": 1, "what": w, "witness": "", "site": ""} for k, w, ok in obs if not ok]
    return {"held": sum(1 for o in obs if o[2]), "finds": finds, "jobs": len(obs), "steps": 0, "notes": {}, "functions": ["%s (%s)" % (f["name"], f["site"]) for f in desc["fns"]], "samples": [o[0] for o in obs[:: max(1, len(obs) // 12)]]}

def edition():
    for l in open(REPO + "/m68000/Cargo.toml"):
        if l.strip().startswith("edition"): return l.split('"')[1]
    return "2021"

def known():
    """(property, key) -> description of each recorded, unrepaired finding."""
    k = {}
    for l in open(os.path.join(HERE, "known-findings.txt")):
        if l.startswith("known: "):
            head, desc = l[len("known: "):].split(" :: ", 1)
            prop, key = head.split(" key=", 1)
            k[(prop.split("=")[1], key.strip())] = desc.strip()
    return k

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    build()
    meta = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}.get(pid, {})
    info = json.load(open(os.path.join(HERE, "tools/rules.json"))).get(pid, {})
    res, cmd = analyse(pid, tier)
    kn = known()
    broken = [f for f in res["finds"] if f["broken"] and f["prop"] == pid]
    undecided = [f for f in res["finds"] if not f["broken"]]
    skipped = res.get("skipped", 0)
    if skipped: undecided.append({"prop": "*", "broken": False, "key": "time", "n": skipped, "what": "%d analysis jobs were not run" % skipped, "witness": "", "site": ""})
    hits, viol = {}, []
    for f in broken:
        if (pid, f["key"]) in kn: hits.setdefault(f["key"], []).append(f)
        else: viol.append(f)
    nb = sum(f["n"] for f in broken); nu = sum(f["n"] for f in undecided)
    held = res["held"]
    level = meta.get("level", "other")
    cov = {
        "obligations": held + nb + nu, "discharged": held,
        "refuted": nb, "of_which_known_findings": sum(f["n"] for fs in hits.values() for f in fs), "undecided": nu,
        "checker_cmd": "VERIF_TIER=%s M68SA_CHECK=%s %s" % (tier, pid, " ".join(cmd)),
        "trusted_base": ["rustc's MIR of the analysed crate", "the analyser m68sa (transfer functions, joins, container models)"] + info.get("trusted", []),
        "rule": info.get("rule", ""), "analysed": info.get("analysed", ""),
        "analysis_jobs": res["jobs"], "mir_blocks_interpreted": res["steps"],
        "functions_analysed": len(res["functions"]), "functions": res["functions"], "samples": res["samples"],
        "analyser_notes": dict(list(res["notes"].items())[:50]),
        "undecided_samples": [f["what"] for f in undecided[:30]],
        "explanation": info.get("rule", "") + " " + info.get("analysed", ""),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": info.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    floor = info.get("floor", 1)
    with open(os.path.join(EV, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    os.remove(os.path.join(EV, pid + ".raw.json"))
    for k, fs in hits.items(): print("KNOWN-FINDING: property=%s %s [%d sites, first: %s]" % (pid, kn[(pid, k)], sum(f["n"] for f in fs), fs[0]["what"]))
    print("%s %s: %d obligations, %d discharged, %d refuted, %d undecided, %d analysis jobs, %d functions, %.1fs" % (pid, tier, held + nb + nu, held, nb, nu, res["jobs"], len(res["functions"]), time.time() - t0))
    if viol:
        rp = os.path.join(EV, pid + ".violation.json")
        with open(rp, "w") as f: json.dump(viol, f, indent=1)
        for f in viol[:12]: print("  %s | %s%s%s (%d sites)" % (f["key"], f["what"], (" [" + f["witness"] + "]") if f["witness"] else "", (" @ " + f["site"]) if f["site"] else "", f["n"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if nu or skipped: print("INCOMPLETE: %d obligations undecided, %d jobs skipped: nothing is claimed for those" % (nu, len(skipped) if hasattr(skipped, "__len__") else int(skipped)))
    if held + nb + nu < floor and not skipped and not nu: die("only %d obligations were found, expected at least %d: an anchor of the analysis is missing" % (held + nb + nu, floor))
    sys.exit(0)

main()
