#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo.

The deciding step is govc, the deductive verifier in /verif/govc: it regenerates
every obligation of the contracts in /verif/contracts that belong to the
property from /repo's current source and has SMT solvers discharge them. A
bounded concrete search (never counted as proved) evaluates the same contracts
on the compiled code, to replay a failed obligation on a concrete input and to
exercise what the contracts assume of libraries.
"""
sys_dont = __import__("sys"); sys_dont.dont_write_bytecode = True
import json, os, re, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
GO23 = "/opt/veriftools/go1.23.12"

sys.path.insert(0, HERE)
from properties_table import HARNESS, TRUST, PACKAGES  # noqa: E402


def go_env():
    e = dict(os.environ)
    e.update(GOROOT=GO23, GOPATH=os.environ.get("GOPATH") or "/root/go", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", CGO_ENABLED="0", PATH=GO23 + "/bin:/usr/local/bin:" + os.environ.get("PATH", ""))
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    return e


def build_govc():
    out = os.path.join(BUILD, "govc")
    src = os.path.join(HERE, "govc")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    os.makedirs(BUILD, exist_ok=True)
    e = dict(os.environ)
    e.update(GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0", GOTOOLCHAIN="local")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:" + e.get("PATH", "")
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        print("cannot build govc:\n" + r.stderr)
        sys.exit(2)
    os.rename(tmp, out)
    return out


def run_govc(prop, budget):
    govc = build_govc()
    fd, out = tempfile.mkstemp(prefix="govc-", suffix=".json")
    os.close(fd)
    cmd = [govc, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-prop", prop, "-json", out]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=budget)
        txt = r.stdout + r.stderr
        if r.returncode not in (0, 1) or os.path.getsize(out) == 0:
            print("govc ended with status %d:\n%s" % (r.returncode, txt[-4000:]))
            return [{"unit": "govc", "func": "", "obligations": [{"name": "govc/ended", "props": [prop], "desc": "the verifier ended with status %d" % r.returncode, "status": "undecided"}], "paths": 0}], txt
        with open(out) as f:
            return json.load(f) or [], txt
    except subprocess.TimeoutExpired:
        return [{"unit": "govc", "func": "", "obligations": [{"name": "govc/time-limit", "props": [prop], "desc": "the obligations were not decided within %d s" % budget, "status": "undecided"}], "paths": 0}], "time limit"
    finally:
        os.unlink(out)


def run_search(prop, mult, seconds):
    """Concrete search. Returns (failures, known, stats, notes)."""
    fails, known, stats, notes = [], [], [], []
    for key, rx in HARNESS.get(prop, []):
        rel, pkg = PACKAGES[key]
        with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
            repl = {}
            src = os.path.join(HERE, "replay", key)
            for f in sorted(os.listdir(src)):
                if f.endswith(".go"):
                    repl[os.path.join(REPO, rel, f)] = os.path.join(src, f)
            h = open(os.path.join(HERE, "replay", "harness.go.txt")).read().replace("package PACKAGE", "package " + pkg)
            hp = os.path.join(tmp, "h.go")
            open(hp, "w").write(h)
            repl[os.path.join(REPO, rel, "zz_verif_harness_test.go")] = hp
            ov = os.path.join(tmp, "overlay.json")
            json.dump({"Replace": repl}, open(ov, "w"))
            e = go_env()
            e.update(VERIF_PROP=prop, VERIF_MULT=str(mult), VERIF_SECONDS=str(seconds), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), TMPDIR=tmp)
            # Test imports may make indirect dependencies direct: leave /repo/go.mod alone.
            for f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(REPO, f), os.path.join(tmp, f))
            cmd = ["go", "test", "-count=1", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"), "-overlay", ov, "-run", "^(" + rx + ")$", "-timeout", "%ds" % (seconds * (rx.count("|") + 1) * 3 + 60), "-v", "./" + rel]
            try:
                r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True, timeout=seconds * (rx.count("|") + 1) * 3 + 150, errors="replace")
            except subprocess.TimeoutExpired:
                notes.append("concrete search %s/%s: no answer within its time limit" % (key, rx))
                continue
            o = r.stdout + "\n" + r.stderr
            for m in re.finditer(r"^VERIF-FAIL (\S+) (.*?)\nVERIF-END$", o, re.M | re.S):
                fails.append((key, m.group(0)))
            for m in re.finditer(r"^VERIF-KNOWN (\S+) (\S+) (.*?)$", o, re.M):
                known.append((m.group(1), m.group(2), m.group(3)))
            for m in re.finditer(r"^VERIF-STATS (.*)$", o, re.M):
                stats.append(json.loads(m.group(1)))
            if not re.search(r"^VERIF-STATS", o, re.M):
                notes.append("concrete search %s/%s did not run: %s" % (key, rx, o[-1500:]))
    return fails, known, stats, notes


def known_findings(prop):
    r = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3).strip()
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    units, txt = run_govc(prop, 600 if tier == "quick" else 3000)
    obls = [o for u in units for o in (u.get("obligations") or []) if prop in (o.get("props") or [])]
    bad = [o for o in obls if o["status"] != "discharged"]
    if not obls and not sum(u.get("syntactic", 0) for u in units):
        bad = [{"name": prop + "/no-obligations", "desc": "no obligation was generated", "status": "failed"}]
    mult, sec = (1, 20) if tier == "quick" else (20, 200)
    fails, known, stats, notes = run_search(prop, mult, sec)
    if bad and not fails:
        f2, k2, s2, n2 = run_search(prop, 8, 30)
        fails += f2
        stats += s2
        notes += n2
    kf = known_findings(prop)
    seen = set()
    for kid, props, what in known:
        if prop not in props.split(","):
            continue
        if kid in kf:
            if kid not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[kid]))
            seen.add(kid)
        else:
            fails.append((kid, what))
    nunk = len(bad)
    bad = [o for o in bad if o["name"] not in kf or print("KNOWN-FINDING: property=%s %s" % (prop, kf[o["name"]]))]
    viol = 0
    rp = os.path.join(BUILD, "replay")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, prop + ".txt")
    if os.path.exists(path):
        os.unlink(path)
    if fails or bad:
        viol = 1
        with open(path, "w") as f:
            f.write("property %s is violated in %s\n\n" % (prop, REPO))
            for o in bad:
                f.write("failed obligation: %s (%s)\n    %s\n" % (o["name"], o["status"], o.get("desc", "")))
                for n in o.get("note") or []:
                    f.write("    path: %s\n" % n)
                if o.get("model"):
                    f.write("    solver:\n%s\n" % "\n".join("      " + l for l in o["model"].splitlines()))
            for k, m in fails:
                f.write("\nfailing input on the real code (%s):\n%s\n" % (k, m))
            if fails:
                f.write("\nre-run: VERIF_SEED=%d python3 %s %s %s\n" % (seed, os.path.join(HERE, "check.py"), prop, tier))
            f.write("\nverifier output:\n%s\n" % txt[-20000:])
        seen = set()
        for o in bad:
            k = o["name"]
            if k not in seen:
                print("failed obligation %s (%s): %s" % (k, o["status"], o.get("desc", "")[:300]))
            seen.add(k)
        for k, m in fails[:3]:
            print(m[:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if fails else " no-failing-input-found"))
    by = {}
    for u in units:
        for k, v in (u.get("decided_by") or {}).items():
            by[k] = by.get(k, 0) + v
    lib = sorted({l for u in units for l in (u.get("library_contracts") or [])})
    hav = sorted({l for u in units for l in (u.get("unspecified_callees") or [])})
    inl = sorted({l for u in units for l in (u.get("inlined") or [])})
    byc = sorted({l for u in units for l in (u.get("by_contract") or [])})
    asm = sorted({l for u in units for l in (u.get("assumptions") or [])})
    req = sorted({u["unit"] + ": requires " + l for u in units for l in (u.get("requires") or [])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": len([o for o in obls if o["status"] == "discharged"]),
            "checker_cmd": "%s -repo %s -contracts %s -prop %s" % (os.path.join(BUILD, "govc"), REPO, os.path.join(HERE, "contracts"), prop),
            "trusted_base": TRUST["all"] + ["library contract (assumed): " + l for l in lib] + ["no contract, any result and any effect on what it can reach: " + l for l in hav],
            "functions_under_contract": [{"unit": u["unit"], "function": u.get("func", ""), "obligations": len([o for o in (u.get("obligations") or []) if prop in (o.get("props") or [])]),
                                          "paths": u.get("paths", 0), "feasible_exits": u.get("feasible_exits", 0), "loops_with_invariants": u.get("loops_cut", 0),
                                          "discharged_syntactically": u.get("syntactic", 0), "loop_invariants": u.get("invariants") or [], "solver_s": round(u.get("solver_s", 0), 2)} for u in units],
            "functions_inlined_into_their_callers": inl, "functions_used_by_contract": byc,
            "decided_by_back_end": by, "solver_s": round(sum(u.get("solver_s", 0) for u in units), 2),
            "bounded_concrete_search": {"counted_as_proved": False, "runs": stats, "notes": notes},
        },
        "assumptions": TRUST["assumptions"] + asm + req,
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if nunk != len(bad):
        ev["coverage"]["known_findings_among_obligations"] = nunk - len(bad)
    ed = os.path.join(HERE, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d units, concrete evaluations %d, %.1f s" % (prop, len(obls), ev["coverage"]["discharged"], len(units), sum(s["evaluations"] for s in stats), ev["wall_s"]))
    for n in notes:
        print("note: " + n[:600])
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
