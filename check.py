#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: builds the engine and the property's harness from /repo's current
tree, lets the symbolic executor run every harness of the tier over all values of its
symbolic inputs, replays what it finds (and a sample of what it passed) natively against
the same build, writes evidence/<id>.json.

exit 0  the property held for every input within the bounds
exit 1  VIOLATION line(s): a counterexample that the native build reproduces
exit 2  no answer (build failure, limit, unsupported code, engine/native disagreement)
"""
import glob, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENGINE = os.path.join(ROOT, "engine")
HARN = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, "work")
EVID = os.path.join(ROOT, "evidence")
T0 = time.time()


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update(CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", TZ="UTC",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build(binname):
    """engine and harness, side by side; returns (engine, ir, native binary)"""
    os.makedirs(WORK, exist_ok=True)
    eng = subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=ENGINE, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    har = None
    for attempt in range(2):
        har = subprocess.run(
            ["cargo", "rustc", "--offline", "--release", "-q", "--bin", binname, "--",
             "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
             "-C", "relocation-model=static"],
            cwd=HARN, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lls = glob.glob(os.path.join(HARN, "target/release/deps", binname + "-*.ll"))
        if har.returncode != 0 or lls:
            break
        os.utime(os.path.join(HARN, "src/bin", binname + ".rs"))
    eo, _ = eng.communicate()
    if eng.returncode != 0:
        die("the engine does not build\n" + eo[-3000:])
    if har.returncode != 0:
        die("the harness does not build against /repo\n" + har.stdout[-6000:])
    ll = max(lls, key=os.path.getmtime)
    return os.path.join(ENGINE, "target/release/llsym"), ll, os.path.join(HARN, "target/release", binname)


def native(binary, harness, inp, timeout):
    """runs the real build on concrete inputs -> (outcome, text)"""
    cmd = ["bash", "-c", "ulimit -v 6000000; ulimit -c 0; exec \"$@\"", "-", binary, harness, inp]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd="/tmp",
                           env=env())
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    out = r.stdout.decode("utf8", "replace")
    err = r.stderr.decode("utf8", "replace")
    m = re.search(r"^ASSERT (.*)", out, re.M)
    if r.returncode == 1 and m:
        return "assert", m.group(1)
    if r.returncode == 77:
        return "assumed", ""
    if r.returncode == 78:
        return "replay-error", err[-300:]
    if r.returncode < 0 or r.returncode in (101, 134, 139):
        sig = -r.returncode if r.returncode < 0 else r.returncode
        return "crash", "signal/exit %d: %s" % (sig, " ".join(err[-400:].split()))
    m = re.search(r"^TRACE ([0-9a-f]+)", out, re.M)
    if r.returncode == 0 and m:
        return "ok", m.group(1)
    return "unknown", "exit %d %s %s" % (r.returncode, out[-200:], err[-200:])


def harnesses(binname):
    """the harnesses of a property: the comment before each says its bounds, the cover()
    calls in it are the points that have to be reached"""
    hs = []
    com = []
    for l in open(os.path.join(HARN, "src/bin", binname + ".rs")):
        m = re.match(r"    fn (p\d\d_\w+)\(\) \{", l)
        c = re.match(r"    // (.*)", l)
        if m:
            t = " ".join(com)
            h = {"name": m.group(1), "covers": [], "tier": "thorough" if "[thorough" in t else "quick"}
            x = re.search(r"\[thorough (\w+)\]", t)
            if x:
                h["supersedes"] = x.group(1)
            h["bounds"] = re.sub(r"\[thorough[^]]*\] *", "", t) or m.group(1)
            hs.append(h)
        elif hs:
            hs[-1]["covers"] += re.findall(r'\bcover\("([^"]*)"\)', l)
        com = com + [c.group(1).strip()] if c else []
    return hs


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        # every check builds for itself; here only: does the engine build?
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=ENGINE, env=env())
        sys.exit(r.returncode)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in a
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = json.load(open(os.path.join(HARN, "props.json"))).get(prop, {})
    binname = prop.lower()
    hs = [h for h in harnesses(binname) if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if tier == "thorough":
        sup = {h["supersedes"] for h in hs if "supersedes" in h}
        hs = [h for h in hs if h["name"] not in sup]
    only = [x[7:] for x in a if x.startswith("--only=")]
    if only:
        hs = [h for h in hs if h["name"] in only]
    findings = {}
    try:
        for f in json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]:
            if f["property"] == prop:
                findings[f["id"]] = f
    except FileNotFoundError:
        pass

    engine, ll, binary = build(binname)
    tb = time.time() - T0
    out = os.path.join(WORK, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    budget = spec.get("time", {}).get(tier, 600 if tier == "quick" else 7200)
    if tier == "quick":
        budget = int(min(budget, 840 - tb))
    cmd = [engine, ll, "--out", out, "--workers", "8", "--time", str(budget),
           "--steps", str(spec.get("steps", 150_000_000)), "--query-ms", str(60000 if tier == "quick" else 600000),
           "--samples", str(spec.get("samples", 16))]
    for h in hs:
        cmd += ["--harness", h["name"]]
    if verbose:
        cmd.append("-v")
    r = subprocess.run(cmd, stderr=None if verbose else subprocess.PIPE, stdout=subprocess.PIPE, env=env())
    try:
        res = json.load(open(os.path.join(out, "result.json")))
    except Exception:
        die("the engine gave no result (exit %d)\n%s" % (r.returncode, (r.stderr or b"").decode("utf8", "replace")[-3000:]))

    errors, viol, known = [], [], []
    functions, covers = set(), set()
    nsamp = 0
    samples = []
    for h in res["harnesses"]:
        n = h["name"]
        log = os.path.join(out, n + ".log")
        if os.path.exists(log):
            for l in open(log, errors="replace"):
                if l.startswith("fn "):
                    functions.add(l[3:].strip())
                elif l.startswith("cover "):
                    covers.add(l[6:].strip())
        # what the engine says fails
        for v in sorted(glob.glob(os.path.join(out, n + ".v*.in")))[:8]:
            txt = open(v[:-3] + ".txt", errors="replace").read()
            oc, msg = native(binary, n, v, 30)
            if oc in ("assert", "crash", "hang"):
                rd = os.path.join(EVID, "replay", prop)
                os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, os.path.basename(v))
                shutil.copy(v, dst)
                with open(dst[:-3] + ".txt", "w") as f:
                    f.write("engine: %snative (%s): %s\nrun: %s %s %s\n" % (txt, oc, msg, binary, n, dst))
                viol.append((n, dst, txt.splitlines()[0], oc, msg))
            else:
                errors.append("%s: a counterexample does not reproduce natively (%s): %s" % (n, oc, txt.splitlines()[0]))
        # paths that were cut off: natively they may not end either
        for v in sorted(glob.glob(os.path.join(out, n + ".t*.in"))):
            oc, msg = native(binary, n, v, 30)
            if oc in ("assert", "crash", "hang"):
                rd = os.path.join(EVID, "replay", prop)
                os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, os.path.basename(v))
                shutil.copy(v, dst)
                viol.append((n, dst, "path cut off at a limit", oc, msg))
                break
        for v in sorted(glob.glob(os.path.join(out, n + ".k*.in"))):
            txt = open(v[:-3] + ".txt", errors="replace").read().splitlines()
            if txt[0] in [k[0] for k in known]:
                continue
            oc, msg = native(binary, n, v, 30)
            if oc in ("assert", "crash", "hang") and txt[0] in findings:
                known.append((txt[0], n, v, msg))
            else:
                errors.append("%s: finding %s: not listed or not reproduced (%s)" % (n, txt[0], oc))
        if viol and viol[-1][0] == n:
            continue
        if h["violations"]:
            continue
        # no answer
        if h["errors"] or h["limits"] or h["crashed"] or h["unknown"]:
            e = os.path.join(out, n + ".err")
            errors.append("%s: %d unsupported, %d limits, crashed=%s\n%s" % (
                n, h["errors"], h["limits"], h["crashed"], open(e).read()[:1500] if os.path.exists(e) else ""))
        if h["paths"] + h["known"] == 0 or h["assertions"] == 0:
            errors.append("%s: vacuous: %d paths, %d assertions" % (n, h["paths"], h["assertions"]))
    bad_h = {v[0] for v in viol}
    # the encoding against the real build, on a sample of the explored paths
    if not viol:
        for h in res["harnesses"]:
            for s in sorted(glob.glob(os.path.join(out, h["name"] + ".s*.in"))):
                oc, msg = native(binary, h["name"], s, 30)
                exp = open(s[:-3] + ".exp").read().strip()
                nsamp += 1
                samples.append({"harness": h["name"], "inputs": open(s).read().split()[:40], "native": oc, "output_hash": msg})
                if oc != "ok" or msg != exp:
                    errors.append("%s: sampled path disagrees with the native run: %s %s, expected %s" % (h["name"], oc, msg, exp))
    # reachability witnesses
    want = set()
    for h in hs:
        want |= set(h.get("covers", []))
    missing = want - covers
    if missing and not viol:
        errors.append("witness not reached: " + ", ".join(sorted(missing)))

    tot = lambda k: sum(h[k] for h in res["harnesses"])
    repo_fns = sorted(f for f in functions if "spreadsheet_ods" in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "technique": "symbolic execution of the compiled code (LLVM IR of /repo with all dependencies), z3 decides every branch and assertion",
            "solver": "z3 " + res["z3"],
            "harnesses": [dict(name=h["name"], bounds=next(x for x in hs if x["name"] == h["name"])["bounds"],
                               paths=h["paths"], infeasible_or_assumed_away=h["assumed"], assertions=h["assertions"],
                               queries=h["queries"], sat=h["sat"], unsat=h["unsat"], unknown=h["unknown"],
                               cache_hits=h["cache_hits"], solver_s=h["solver_s"], instructions=h["instructions"],
                               max_symbols=h["max_symbols"], wall_s=h["wall_s"]) for h in res["harnesses"]],
            "states": tot("paths"), "transitions": tot("instructions"),
            "meaning": "states: completed symbolic paths, each standing for every input that satisfies its path condition; transitions: instructions executed symbolically",
            "traces_validated_against_impl": nsamp, "samples": samples[:6],
            "assertions_discharged": tot("assertions"), "queries": tot("queries"),
            "unsat": tot("unsat"), "sat": tot("sat"), "solver_s": round(tot("solver_s"), 3),
            "witnesses_reached": sorted(covers),
            "functions_encoded": len(functions),
            "functions_encoded_of_repo": repo_fns[:400],
            "outside_the_claim": spec.get("outside", []),
        },
        "assumptions": spec.get("assumptions", []) + [
            "the LLVM IR rustc emits (opt-level 2, overflow checks on, panic=abort) is what runs; the engine's IR semantics, validated by native replay of sampled paths",
            "allocation succeeds; clock, entropy and cpu features fixed; no files or threads",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(viol),
    }
    if known:
        ev["coverage"]["known_findings"] = [k[0] for k in known]
    if errors:
        ev["coverage"]["errors"] = [e[:500] for e in errors]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for h in res["harnesses"]:
        print("%-28s paths %6d  queries %6d  solver %6.1fs  wall %6.1fs%s" % (
            h["name"], h["paths"], h["queries"], h["solver_s"], h["wall_s"],
            "  VIOLATED" if h["name"] in bad_h else ""))
    print("%s %s: %d paths, %d assertions, %d queries, build %.0fs, wall %.0fs" % (
        prop, tier, tot("paths"), tot("assertions"), tot("queries"), tb, time.time() - T0))
    for k in known:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k[0], findings[k[0]]["what"]))
    if viol:
        for n, dst, m, oc, msg in viol:
            print("  %s: %s [native: %s %s]" % (n, m, oc, msg[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        sys.exit(1)
    if errors:
        die("no answer\n" + "\n".join(errors))
    sys.exit(0)


main()
