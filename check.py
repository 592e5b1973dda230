#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree.

1. govc generates the proof obligations of every function under contract for the property from
   /repo's current source and discharges them (the deciding step).
2. The replay harness of the property (Go test, overlaid on /repo, run against the real code) looks for a
   concrete failing input. It is the counterexample replay for failed obligations and the bounded
   stand-in for the functions DESIGN.md lists as outside the verifier's reach.
Exit 0: held. Exit 1: VIOLATION line. Evidence goes to evidence/PROPERTY.json.
"""
import shutil, json, os, re, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GOVC_REPO", "/repo")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build():
    out = os.path.join(V, "bin", "govc")
    src = [os.path.join(V, "govc", f) for f in os.listdir(os.path.join(V, "govc"))]
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(f) for f in src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = sh(["go", "build", "-o", tmp, "."], cwd=os.path.join(V, "govc"), env=ENV)
    if r.returncode != 0:
        print(r.stdout)
        sys.exit(3)
    os.replace(tmp, out)
    return out


def gomodsum():
    h = hashlib.sha256()
    for f in ("go.mod", "go.sum"):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def harness(prop, outdir, seed, tier):
    """runs the replay harness; returns (ran, evaluations, fails, samples, note)"""
    base = os.path.join(V, "replay")
    res = {"ran": 0, "evaluations": 0, "distinct": 0, "fails": [], "samples": [], "notes": [], "seconds": 0.0}
    if not os.path.isdir(base):
        return res
    t0 = time.time()
    for dirpath, _, files in sorted(os.walk(base)):
        mine = [f for f in sorted(files) if f.lower().startswith(prop.lower() + "_") and f.endswith("_test.go")]
        if not mine:
            continue
        rel = os.path.relpath(dirpath, base)
        pkgdir = REPO if rel == "root" else os.path.join(REPO, rel)
        helpers = [f for f in sorted(files) if f.startswith("helper") and f.endswith("_test.go")]
        for f in mine:
            ov = {"Replace": {}}
            for h in [f] + helpers:
                src = open(os.path.join(dirpath, h)).read()
                ov["Replace"][os.path.join(pkgdir, "zz_verif_" + h)] = os.path.join(dirpath, h)
            # an external (xdb_test) harness needs only helpers of its own package clause
            def pk(p):
                return re.search(r"(?m)^package (\w+)", open(p).read()).group(1)
            mypk = pk(os.path.join(dirpath, f))
            for h in helpers:
                if pk(os.path.join(dirpath, h)) != mypk:
                    del ov["Replace"][os.path.join(pkgdir, "zz_verif_" + h)]
            ovf = os.path.join(outdir, "overlay_%s_%s.json" % (rel.replace("/", "_"), f))
            json.dump(ov, open(ovf, "w"))
            env = dict(ENV, VERIF_SEED=str(seed), VERIF_TIER=tier)
            for m in ("go.mod", "go.sum"):  # the go command may tidy them: it gets its own
                shutil.copyfile(os.path.join(REPO, m), os.path.join(outdir, m))
            cmd = ["go", "test", "-modfile", os.path.join(outdir, "go.mod"), "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "240s", "-run", "^TestVerif", "-v", "./" + ("" if rel == "root" else rel)]
            if "//verif:race" in open(os.path.join(dirpath, f)).read(200):
                cmd.insert(2, "-race")
                env["CGO_ENABLED"] = "1"
            try:
                r = sh(cmd, cwd=REPO, env=env, timeout=400)
                out, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e:
                out = e.stdout or ""
                out, rc = (out.decode() if isinstance(out, bytes) else out), -1
            got = False
            for ln in out.splitlines():
                i = ln.find("VERIF-FAIL ")
                if i >= 0:
                    res["fails"].append({"harness": rel + "/" + f, "case": ln[i + 11:][:2000]})
                i = ln.find("VERIF-CASES ")
                if i >= 0:
                    a, b = ln[i + 12:].split()[:2]
                    res["evaluations"] += int(a)
                    res["distinct"] += int(b)
                    got = True
                i = ln.find("VERIF-SAMPLE ")
                if i >= 0 and len(res["samples"]) < 8:
                    res["samples"].append(ln[i + 13:][:300])
            if got:
                res["ran"] += 1
            if rc != 0 and not any(x["harness"] == rel + "/" + f for x in res["fails"]):
                m = re.search(r"(?m)^(panic: .*|fatal error: .*|WARNING: DATA RACE.*)$", out)
                if "[build failed]" in out or "[setup failed]" in out:
                    res["notes"].append("harness %s does not build against this tree: %s" % (f, out[-1500:]))
                elif m and "test timed out" not in m.group(1):
                    res["fails"].append({"harness": rel + "/" + f, "case": "the code under test crashed: " + m.group(1) + " :: " + out[-1500:]})
                else:
                    res["notes"].append("harness %s ended with %d: %s" % (f, rc, out[-1500:]))
    res["seconds"] = time.time() - t0
    return res


def findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    outdir = os.path.join(V, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    govc = build()
    resf = os.path.join(outdir, "result.json")
    if os.path.exists(resf):
        os.remove(resf)
    cmd = [govc, "-repo", REPO, "-verif", V, "-out", resf]
    if tier == "thorough":
        cmd += ["-thorough", "-limit", "3000"]
    else:
        cmd += ["-limit", "560"]
    r = sh(cmd + [prop], cwd=V, env=ENV)
    log = r.stdout
    try:
        res = json.load(open(resf))
    except Exception:
        res = {"units": [], "failures": [{"unit": "govc", "class": "engine", "label": "the verifier stopped: " + log[-800:]}], "trusted": [], "backends": {}}
    fails = list(res.get("failures") or [])
    if res.get("load_error"):
        fails.append({"unit": "repository", "class": "engine", "label": "the repository cannot be loaded: " + res["load_error"][:600]})
    units = res.get("units") or []
    obl = sum(u["obligations"] for u in units)
    dis = sum(u["discharged"] for u in units)
    if obl == 0 and not fails:
        fails.append({"unit": "govc", "class": "engine", "label": "no obligations were generated"})
    h = harness(prop, outdir, seed, tier)
    known = findings(prop)
    kept, hkept, seen = [], [], set()
    for f in fails:
        key = "%s|%s" % (f["unit"], f["label"])
        k = [x for x in known if x[0] == key]
        if k:
            seen.add(k[0])
        else:
            kept.append(f)
    for f in h["fails"]:
        k = [x for x in known if x[0] in f["case"] and x[0].startswith("case:")]
        if k:
            seen.add(k[0])
        else:
            hkept.append(f)
    for k in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    violated = bool(kept or hkept)
    thms = json.load(open(os.path.join(V, "tools", "bounded.json"))).get(prop, {}) if os.path.exists(os.path.join(V, "tools", "bounded.json")) else {}
    funcs = ["%s.%s" % (u["package"].replace("github.com/effective-security/xdb", "xdb"), u["target"]) for u in units]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "python3 check.py %s  (bin/govc %s; back ends z3-new, z3, cvc5)" % (prop, prop),
            "trusted_base": ["govc (govc/*.go): the SSA-to-SMT verification condition generator", "golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"] + (res.get("trusted") or []),
            "functions_under_contract": funcs,
            "obligations_by_class": {},
            "discharged_by_back_end": res.get("backends", {}),
            "solver_seconds": res.get("solver_seconds", {}),
            "verifier_seconds": res.get("seconds", 0),
            "failed_obligations": len(fails),
            "bounded_stand_ins": {
                "functions": thms.get("functions", []),
                "label": "bounded, not counted as proved",
                "bound": thms.get("bound", "the cases generated by replay/*/%s_*_test.go for this seed" % prop.lower()),
                "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"], "samples": h["samples"],
                "failing": len(h["fails"]), "notes": h["notes"], "seconds": round(h["seconds"], 2),
            },
        },
        "assumptions": (thms.get("assumptions", []) + sorted({n for u in units for n in (u.get("notes") or [])})),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(kept) + len(hkept),
    }
    cls = {}
    for u in units:
        for c, n in u["by_class"].items():
            cls[c] = cls.get(c, 0) + n
    ev["coverage"]["obligations_by_class"] = cls
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d functions, %d obligations, %d discharged, %d failed; %d replay cases, %d failing; %.1fs" % (
        prop, len(units), obl, dis, len(fails), h["evaluations"], len(h["fails"]), time.time() - t0))
    for n in h["notes"]:
        print("note:", n[:300])
    if not violated:
        return 0
    rep = os.path.join(outdir, "replay.json")
    json.dump({"property": prop, "failed_obligations": kept, "failing_inputs": hkept,
               "verifier_output": log[-6000:], "harness_notes": h["notes"],
               "how": "re-run: python3 %s/check.py %s" % (V, prop)}, open(rep, "w"), indent=1)
    for f in kept[:12]:
        print("FAILED OBLIGATION %s: [%s] %s %s %s" % (f["unit"], f["class"], f["label"], f.get("pos", ""), f.get("status", "")))
    for f in hkept[:6]:
        print("FAILING INPUT %s: %s" % (f["harness"], f["case"][:600]))
    print("VIOLATION property=%s replay=%s%s" % (prop, rep, "" if hkept else " no-failing-input-found"))
    return 1


sys.exit(main())
