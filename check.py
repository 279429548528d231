#!/usr/bin/env python3
"""Decide one property by its contracts.

usage: check.py <property> [quick|thorough]
       check.py --replay <file>

The verifier (govc) generates the obligations of every contract VC_<property>_*
from /repo's current source and discharges them. A failed obligation is replayed
by running the same contract natively against the real code.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")


def goenv():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, check=True).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.decode("utf8", "replace").partition("=")
            if k in ("HOME", "PATH", "GOCACHE", "GOMODCACHE", "GOPATH", "GOROOT", "GOTOOLCHAIN", "GOSUMDB"):
                env[k] = v
    except Exception:
        pass
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env.pop("GOVC_DEBUG", None)
    return env


ENV = goenv()


def engine():
    """Build the verifier from its committed sources unless an up-to-date binary exists."""
    src = os.path.join(VERIF, "govc")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        if f.endswith(".go") or f in ("go.mod", "go.sum"):
            h.update(open(os.path.join(src, f), "rb").read())
    d = os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    b = os.path.join(d, "govc-" + h.hexdigest()[:16])
    if not os.path.exists(b):
        tmp = b + ".%d" % os.getpid()
        p = subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("building the verifier failed:\n" + p.stdout)
            sys.exit(2)
        os.rename(tmp, b)
        for f in os.listdir(d):
            if f.startswith("govc-") and os.path.join(d, f) != b and "." not in f:
                try:
                    os.remove(os.path.join(d, f))
                except OSError:
                    pass
    return b


def selected(pid):
    """Contract files used for a property: its own and the support files of the same and other packages."""
    own, support = [], []
    for dp, dn, fn in os.walk(CONTRACTS):
        for f in sorted(fn):
            if not f.endswith(".go"):
                continue
            p = os.path.join(dp, f)
            m = re.match(r"(c\d\d(?:_c?\d\d)*)(_.*)?\.go$", f)
            if not m:
                support.append(p)
            elif pid.lower()[1:] in re.findall(r"\d\d", m.group(1)):
                own.append(p)
    return own, support


def target(p):
    rel = os.path.relpath(p, CONTRACTS)
    d, b = os.path.split(rel)
    if d == "verifspec":
        return os.path.join("pkg/verifspec", b)
    return os.path.join(d, "zz_verif_" + b)


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) contract=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def search(pid, names, given, budget, seed, runs=1000000, race=False):
    """Run contracts natively against the real code; returns {contract: result} and an error text."""
    own, support = selected(pid)
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        hooks = {"Overlay": {}, "Modules": {}, "Tests": {}}
        hd = os.path.join(tmp, "hooks")
        os.makedirs(hd)
        h = subprocess.run([engine(), "-repo", REPO, "-contracts", CONTRACTS, "-prop", pid, "-hooks", hd], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            hooks = json.load(open(os.path.join(hd, "hooks.json")))
        except Exception:
            return {}, "no native run: " + h.stdout[-1000:]
        ov = {"Replace": dict(hooks["Overlay"])}
        modfile = []
        if hooks["Modules"]:
            mf = os.path.join(tmp, "go.mod")
            shutil.copy(os.path.join(REPO, "go.mod"), mf)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
            with open(mf, "a") as f:
                f.write("".join("\nreplace %s => %s\n" % kv for kv in sorted(hooks["Modules"].items())))
            modfile = ["-modfile", mf]
        pk = {}
        for p in own + support:
            ov["Replace"][os.path.join(REPO, target(p))] = p
            if p in own:
                s = open(p).read()
                d = os.path.dirname(target(p))
                name = re.search(r"^package (\w+)", s, re.M).group(1)
                for c in re.findall(r"^func (VC_\w+)\(\)", s, re.M):
                    if c in names:
                        pk.setdefault((d, name), []).append(c)
        results, errs = {}, []
        spec = "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
        procs = []
        for (d, name), cs in pk.items():
            t = os.path.join(tmp, d.replace("/", "_") + "_test.go")
            hk = hooks["Tests"].get(d, {})
            with open(t, "w") as f:
                f.write("package %s\n\nimport (\n\t\"testing\"\n\n\tverifspecRun \"%s\"\n" % (name, spec))
                f.write("".join("\t%s\n" % i for i in sorted(set(hk.get("Imports") or []))))
                f.write(")\n\nfunc init() {\n" + "".join("\t%s\n" % i for i in hk.get("Stmts") or []) + "}\n")
                f.write("\nfunc TestVerif(t *testing.T) {\n\tverifspecRun.Main(map[string]func(){\n")
                for c in cs:
                    f.write('\t\t"%s": %s,\n' % (c, c))
                f.write("\t})\n}\n")
            ov["Replace"][os.path.join(REPO, d, "zz_verif_main_test.go")] = t
        ovf = os.path.join(tmp, "overlay.json")
        json.dump(ov, open(ovf, "w"))
        for (d, name), cs in pk.items():
            req = {"contracts": cs, "seed": seed, "runs": runs, "budget_ms": int(budget * 1000 / max(1, len(names))), "given": {c: given.get(c, []) for c in cs}}
            rf = os.path.join(tmp, d.replace("/", "_") + ".req")
            of = os.path.join(tmp, d.replace("/", "_") + ".out")
            json.dump(req, open(rf, "w"))
            env = dict(ENV)
            env["VERIF_REQ"], env["VERIF_OUT"] = rf, of
            env["TMPDIR"] = tmp
            cmd = ["go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-run", "^TestVerif$", "-timeout", "%ds" % int(budget + 120)] + modfile
            if race:
                cmd.append("-race")
            cmd.append("./" + d)
            procs.append((of, cs, subprocess.Popen(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        for of, cs, p in procs:
            out = p.communicate()[0]
            if os.path.exists(of):
                for l in open(of):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    if r.get("started"):
                        last = r["contract"]
                        lastr = r
                        results.setdefault(last, {"Failed": "", "Runs": 0, "crashed": True, "Trace": []})
                    else:
                        results[r["contract"]] = r
            for c in cs:
                r = results.get(c)
                if r and r.get("crashed"):
                    r["Failed"] = "the process died: " + " | ".join([l for l in out.strip().split("\n") if not l.startswith("time=")][:12])[:1500]
            if p.returncode != 0 and not any(c in results for c in cs):
                errs.append(out[-3000:])
        return results, "\n".join(errs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        res, err = search(r["property"], {r["contract"]}, {r["contract"]: r.get("given", [])}, 60, r.get("seed", 1))
        print(json.dumps(res, indent=1), err)
        sys.exit(1 if any(x["Failed"] for x in res.values()) else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    eng = engine()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, pid + ".report.json")
    if os.path.exists(rep):
        os.remove(rep)
    thorough = tier == "thorough"
    cmd = [eng, "-repo", REPO, "-contracts", CONTRACTS, "-run", "VC_%s_" % pid, "-prop", pid, "-out", rep,
           "-to", "120" if thorough else "20", "-ct", "1500" if thorough else "240", "-total", "3000" if thorough else "480"]
    if thorough:
        cmd += ["-cross"]
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    err = ""
    try:
        report = json.load(open(rep))
        err = report.get("error", "")
    except Exception:
        report = {"contracts": []}
        err = "the verifier gave no report: " + p.stdout[-4000:]
    cts = report.get("contracts") or []
    if not err and not cts:
        err = "no contract was found for this property"
    known_f = [k for k in known() if k[0] == pid]
    bad = {}    # contract -> list of (obligation, text, model)
    found_known = []
    obl = dis = 0
    bounded_obl = bounded_dis = 0
    by = {}
    solver_ms = 0
    samples = []
    xs = 0
    for c in cts:
        n_c = 0
        for o in c["obligations"] or []:
            n_c += 1
            ok = o["status"] == "unsat"
            solver_ms += o["ms"]
            if ok:
                by[o["solver"]] = by.get(o["solver"], 0) + 1
                if len(samples) < 12 and o["kind"] == "ensures":
                    samples.append("%s: %s @ %s [%s]" % (c["name"], o["name"], o["pos"], o["solver"]))
            if o.get("cross") == "disagree":
                bad.setdefault(c["name"], []).append((o["name"], "back ends disagree", None))
            if o.get("cross") == "unsat":
                xs += 1
            if not ok:
                k = [k for k in known_f if k[1] == c["name"] and k[2] == o["name"]]
                if k:
                    if k[0] not in found_known:
                        found_known.append(k[0])
                    continue
                bad.setdefault(c["name"], []).append((o["name"], "%s at %s: %s %s\ngoal: %s\nmodel: %s" % (o["kind"], o["pos"], o["status"], o.get("output", ""), o.get("goal", ""), o.get("model")), o.get("model")))
            if c["bounded"]:
                bounded_obl += 1
                bounded_dis += ok
            else:
                obl += 1
                dis += ok
        for u in c["undecided"] or []:
            bad.setdefault(c["name"], []).append(("undecided", u, None))
        if c["vacuous"] or n_c == 0:
            bad.setdefault(c["name"], []).append(("not vacuous", "no execution of the contract reaches its end, or it has no obligation", None))
    native = {}
    nerr = ""
    allnames = {c["name"] for c in cts}
    if err:
        own, _ = selected(pid)
        for f in own:
            for c in re.findall(r"^func (VC_\w+)\(\)", open(f).read(), re.M):
                bad.setdefault(c, []).append(("the contract applies to the code", err[:3000], None))
    if bad:
        given = {c: [m for _, _, m in v if m][:6] for c, v in bad.items()}
        native, nerr = search(pid, set(bad), given, 150 if not thorough else 600, seed)
    elif thorough:
        kc = {k[1] for k in known_f}
        native, nerr = search(pid, allnames - kc, {}, 240, seed, runs=20000)
        for c, r in native.items():
            if r["Failed"]:
                bad.setdefault(c, []).append((r["Failed"], "all obligations were discharged, but a native run of the contract fails: the verifier and the code disagree", None))
    viol = []
    for c, v in sorted(bad.items()):
        r = native.get(c, {})
        failed = r.get("Failed", "")
        if failed and any(k[1] == c and k[2] == failed for k in known_f):
            failed = ""
        rp = os.path.join(ev, "replay_%s_%s.json" % (pid, c))
        json.dump({"property": pid, "contract": c, "seed": r.get("Seed", seed), "given": [m for _, _, m in v if m][:6],
                   "failed_obligations": [{"obligation": n, "verifier_output": t} for n, t, _ in v],
                   "native_failure": failed, "failing_input": r.get("Trace") if failed else None, "native_runs": r.get("Runs", 0),
                   "native_error": nerr, "how_to_replay": "python3 %s/check.py --replay %s" % (VERIF, rp)}, open(rp, "w"), indent=1)
        viol.append((c, v, failed, rp, r))
    for k in found_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k[1], k[3]))
    for c, v, failed, rp, r in sorted(viol, key=lambda t: not t[2]):
        print("failed obligation of %s: %s" % (c, "; ".join(sorted({n for n, _, _ in v}))[:600]))
        if failed:
            print("  real code: %s with %s" % (failed[:600], "; ".join(r.get("Trace") or [])[:1200]))
        else:
            print("  verifier: %s" % v[0][1][:800])
            if nerr:
                print("  replay: %s" % nerr[-800:])
    funcs = sorted({f for c in cts for f in c["functions"] or []})
    trusted = sorted({t for c in cts for t in c["trusted"] or []})
    bnd = ["%s: %s" % (c["name"], b) for c in cts for b in c["bounded"] or []]
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "proof"),
        "coverage": {
            "obligations": obl, "discharged": dis, "checker_cmd": " ".join(cmd),
            "trusted_base": ["govc (verification condition generator, /verif/govc)", "golang.org/x/tools/go/ssa lowering", "z3 / cvc5"] + trusted,
            "functions_under_contract": funcs,
            "contracts": [{"name": c["name"], "obligations": len(c["obligations"] or []), "paths": c["paths"], "wall_ms": c["wall_ms"], "loops": c["loops"], "bounded": c["bounded"]} for c in cts],
            "not_inductive": [c["name"] for c in cts if c.get("not_inductive")],
            "discharged_by": by, "solver_ms": solver_ms,
            "path_feasibility_queries": sum(c["feasibility_queries"] for c in cts),
            "bounded_obligations": bounded_obl, "bounded_discharged": bounded_dis, "bounds": bnd,
            "samples": samples, "known_findings_reported": len(found_known),
            "native_runs": sum(r.get("Runs", 0) for r in native.values()),
            "native_contracts": sorted(c for c, r in native.items() if r.get("Runs")),
            "native_blocked": sorted(c for c, r in native.items() if r.get("Blocked")),
            "native_error": nerr[-1000:],
            "second_back_end_agreed": xs,
        },
        "assumptions": ASSUME + ["bounded, not proved: " + b for b in bnd] + trusted,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if evid["level"] != "proof":
        evid["coverage"]["explanation"] = "contracts discharged for the bounds listed under bounds; unbounded obligations are counted under obligations"
    json.dump(evid, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if thorough and nerr:
        print("no native runs: " + nerr[-1500:])
    if viol:
        for c, v, failed, rp, r in sorted(viol, key=lambda t: not t[2])[:1]:
            print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if failed else " no-failing-input-found"))
        sys.exit(1)
    print("%s held: %d/%d obligations discharged (%d/%d bounded) in %.1fs" % (pid, dis, obl, bounded_dis, bounded_obl, time.time() - t0))
    sys.exit(0)


LEVEL = {}
try:
    LEVEL = json.load(open(os.path.join(VERIF, "tools", "levels.json")))
except Exception:
    pass

ASSUME = [
    "slices and strings are at most 2^48 bytes long; append grows to the exact needed size (the contents never depend on capacity)",
    "goroutines run one at a time between blocking operations (data races are not modelled; lock discipline is C35)",
    "memory allocation succeeds",
]

if __name__ == "__main__":
    main()
