#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--keep]

Decide one property: compile /repo's current tree with the property's harness, execute the harness
entries symbolically (symex), replay what the solver found natively, write evidence/<ID>.json.
Exit 0: nothing violated. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
from specs import SPECS, COMMON_ASSUMPTIONS

B = os.environ.get("VERIF_BUILD", VERIF + "/.build")


# libc functions that harness/vfs.rs defines
VFS = "statx open64 read write lseek64 close fsync rename unlink mkdir opendir readdir64 closedir dirfd fcntl __errno_location".split()


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def sh(cmd, env=None, timeout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build(spec, tier):
    cfgs = list(spec.get("cfg", []))
    if tier == "thorough":
        cfgs.append("vh_thorough")
    vcfg = " ".join("--cfg " + c for c in cfgs)
    env = {"VH_CFG": vcfg, "VERIF_BUILD": B}
    r = sh([VERIF + "/tools/build.sh", spec["harness"]], env)
    if r.returncode:
        print(r.stdout[-6000:])
        die("the current tree does not build with the harness")
    if not os.path.exists(B + "/symex/release/symex"):
        r = sh([VERIF + "/symex/build.sh"], env)
        if r.returncode:
            print(r.stdout[-3000:])
            die("symex does not build")
    r = sh([VERIF + "/tools/deps.sh"], env)
    if r.returncode:
        print(r.stdout[-3000:])
        die("deps.sh failed")
    entries = [e["name"] for e in spec["entries"]] + ["vredirect_" + r for r in spec.get("redirect", [])] + (VFS if spec.get("vfs") else [])
    ll = B + "/%s.ll" % spec["harness"]
    menv = dict(env)
    if spec.get("display"):
        menv["VH_DISPLAY"] = "1"
    if spec.get("merge"):
        menv["VH_MERGE"] = "--merge " + ",".join(spec["merge"])
    r = sh([VERIF + "/tools/ir.sh", ll] + entries, menv)
    if r.returncode:
        print(r.stdout[-3000:])
        die("ir.sh failed")
    return ll


def native(entry, inputs, path, timeout=20):
    """Replay an input vector on the natively compiled code."""
    with open(path, "w") as f:
        f.write("\n".join(str(x) for x in inputs) + "\n")
    e = dict(os.environ)
    e["VREPLAY"] = path
    try:
        r = subprocess.run([B + "/target/release/vh", entry], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ("timeout", [], "")
    out = r.stdout.decode("utf8", "replace")
    err = r.stderr.decode("utf8", "replace")
    obs = []
    for l in out.splitlines():
        if l.startswith("O") and l[1:].isdigit():
            obs.append(int(l[1:]))
    if r.returncode == 0 and "DONE" in out:
        return ("done", obs, "")
    if r.returncode == 3:
        m = [l for l in out.splitlines() if l.startswith("CHECK ")]
        return ("check", obs, m[-1][6:] if m else "?")
    if r.returncode == 4:
        return ("assume", obs, "")
    return ("crash", obs, "rc=%d %s" % (r.returncode, " / ".join(err.strip().splitlines()[:3])))


ADD = ["paths", "assumed_away", "instructions", "forks", "checks", "checks_symbolic", "unknown", "limit_paths",
       "merged", "queries", "sat", "unsat", "solver_unknown", "cache_hits", "solver_s"]


def run_entry(ll, spec, ent, tier):
    out = B + "/out/" + ent["name"]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lim = dict(ent.get(tier, {}))
    secs = lim.get("seconds", 300 if tier == "quick" else 1800)
    cmd = [B + "/symex/release/symex", "run", ll, ent["name"], out, "--seconds", str(secs),
           "--cpus", str(os.cpu_count() or 4), "--samples", "4"]
    for k in ("depth", "rlimit", "path-limit"):
        if k in ent:
            cmd += ["--" + k, str(ent[k])]
    if spec.get("merge"):
        cmd += ["--merge", ",".join(spec["merge"])]
    t = time.time()
    try:
        r = sh(cmd, timeout=secs + 240)
    except subprocess.TimeoutExpired:
        die("symex did not stop for " + ent["name"])
    a = {k: 0 for k in ADD}
    a.update(deadline=False, max_path_instructions=0)
    reached, unsup, viol, samples, funcs = set(), {}, {}, [], {}
    n = 0
    for f in glob.glob(out + "/*.json"):
        try:
            d = json.load(open(f))
        except Exception as ex:
            die("bad worker report %s: %s" % (f, ex))
        n += 1
        for k in ADD:
            a[k] += d[k]
        a["deadline"] |= d["deadline"]
        a["max_path_instructions"] = max(a["max_path_instructions"], d["max_path_instructions"])
        reached |= set(d["reached"])
        for k, v in d["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + v
        for v in d["violations"]:
            viol.setdefault(v["key"], []).append(v["inputs"])
        samples += d["samples"]
        for k, c, i in d["functions"]:
            o = funcs.get(k, [0, i])
            funcs[k] = [o[0] + c, i]
    shutil.rmtree(out, ignore_errors=True)
    if r.returncode:
        print(r.stdout[-3000:])
        die("symex failed on %s (exit %d)" % (ent["name"], r.returncode))
    a["solver_s"] = round(a["solver_s"], 2)
    a["wall_s"] = round(time.time() - t, 2)
    a["workers"] = n
    return a, reached, unsup, viol, samples, funcs


def known_findings():
    try:
        return [json.loads(l) for l in open(VERIF + "/known_findings.jsonl") if l.strip()]
    except FileNotFoundError:
        return []


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if pid not in SPECS:
        die("no such property " + pid)
    spec = SPECS[pid]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ll = build(spec, tier)
    t_build = time.time() - T0
    rep = B + "/replay/" + pid
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    findings = [k for k in known_findings() if k["property"] == pid and k.get("status") == "known"]
    total = {k: 0 for k in ADD}
    ev_entries, functions, samples_out, validated = [], {}, [], 0
    violations, problems, notes, seen_known = [], [], [], set()
    deadline = False
    for ent in spec["entries"]:
        if only and ent["name"] != only:
            continue
        if tier == "quick" and ent.get("thorough_only"):
            continue
        a, reached, unsup, viol, samples, funcs = run_entry(ll, spec, ent, tier)
        print("%s: paths %d, forks %d, assumed away %d, checks %d (%d symbolic), queries %d (unsat %d), solver %.1fs, "
              "wall %.1fs%s" % (ent["name"], a["paths"], a["forks"], a["assumed_away"], a["checks"],
                                a["checks_symbolic"], a["queries"], a["unsat"], a["solver_s"], a["wall_s"],
                                " DEADLINE" if a["deadline"] else ""))
        if unsup:
            print("  unsupported: " + json.dumps(unsup)[:1500])
        if a["unknown"] or a["limit_paths"] or a["solver_unknown"]:
            print("  undecided: branches %d, limit paths %d, solver unknown %d" % (a["unknown"], a["limit_paths"], a["solver_unknown"]))
        for k in ADD:
            total[k] += a[k]
        deadline |= a["deadline"]
        for k, v in funcs.items():
            functions[k] = functions.get(k, 0) + v[0]
        # counterexamples: confirm on the native build
        for key, vecs in sorted(viol.items()):
            confirmed = None
            last = None
            kf = [k for k in findings if k["entry"] == ent["name"] and k["key"] == key]
            todo = []
            for inputs in vecs:
                # the iteration order of hash tables varies between native runs
                for _ in range(25):
                    last = native(ent["name"], inputs, rep + "/tmp.txt")
                    ok = last[0] in ("check", "crash", "timeout")
                    if ok or time.time() - T0 > 600:
                        break
                if ok and kf and any(k.get("inputs") is None or k["inputs"] == inputs for k in kf):
                    seen_known.add(kf[0]["id"])
                    continue
                if ok:
                    confirmed = (inputs, last)
                    break
                todo.append(last)
            if confirmed:
                path = rep + "/%s-%d.json" % (ent["name"], len(violations))
                json.dump({"property": pid, "entry": ent["name"], "key": key, "inputs": confirmed[0],
                           "native": confirmed[1][0] + " " + confirmed[1][2],
                           "how": "VREPLAY=<file with one input per line> %s/target/release/vh %s" % (B, ent["name"])},
                          open(path, "w"), indent=1)
                print("  violation: %s -- native: %s %s" % (key, confirmed[1][0], confirmed[1][2]))
                violations.append((key, path))
            elif todo:
                problems.append("%s: the solver's counterexample for '%s' does not reproduce natively (%s)" % (ent["name"], key, last))
        # sampled paths: the executor and the native code must agree
        for s in samples[: 24 if tier == "quick" else 64]:
            r = native(ent["name"], s["inputs"], rep + "/tmp.txt")
            if r[0] == "done" and r[1] == s["observed"]:
                validated += 1
                if len(samples_out) < 4:
                    samples_out.append({"entry": ent["name"], "inputs": s["inputs"][:60], "observed": s["observed"][:20]})
            elif viol:
                pass
            else:
                problems.append("%s: executor and native run disagree on a sampled path: %s vs %s %s inputs %s"
                                % (ent["name"], s["observed"][:20], r[0], (r[1][:20], r[2]), s["inputs"][:80]))
        missing = [i for i in ent.get("reach", [0]) if i not in reached]
        if missing and not viol:
            if a["deadline"]:
                notes.append("%s: deadline before reaching %s" % (ent["name"], missing))
            problems.append("%s: witness points %s were never reached" % (ent["name"], missing))
        if a["paths"] == 0 and not viol:
            problems.append("%s: no path was completed" % ent["name"])
        if unsup:
            notes.append("%s: constructs outside the encoding ended some paths: %s" % (ent["name"], json.dumps(unsup)[:400]))
            if not ent.get("allow_unsupported"):
                problems.append("%s: unsupported constructs %s" % (ent["name"], json.dumps(unsup)[:400]))
        ev_entries.append({"entry": ent["name"], "bounds": ent["bounds"].get(tier, ent["bounds"]["quick"]) if isinstance(ent["bounds"], dict) else ent["bounds"],
                           "complete_within_bounds": not (a["deadline"] or a["limit_paths"] or a["unknown"] or unsup),
                           "witnesses_reached": sorted(reached), **a})
    try:
        os.unlink(rep + "/tmp.txt")
    except OSError:
        pass
    complete = all(e["complete_within_bounds"] for e in ev_entries)
    crate = {k: v for k, v in functions.items() if k.startswith("vh::") or "<vh::" in k or "vh::" in k}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": total["paths"] + total["assumed_away"],
            "transitions": total["forks"],
            "traces_validated_against_impl": validated,
            "samples": samples_out,
            "exhaustive": complete,
            "symbolic_paths_completed": total["paths"],
            "solver_queries": total["queries"], "solver_unsat": total["unsat"], "solver_sat": total["sat"],
            "solver_unknown": total["solver_unknown"], "solver_seconds": round(total["solver_s"], 2),
            "assertions_decided": total["checks"], "assertions_symbolic": total["checks_symbolic"],
            "instructions_executed": total["instructions"],
            "functions_encoded": sorted(k for k in crate if "verif" not in k),
            "functions_encoded_total": len(functions),
            "entries": ev_entries, "notes": notes,
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    for k in findings:
        if k["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d entries, %d paths, %d queries, solver %.1fs, build %.1fs, wall %.1fs, complete=%s, replayed=%d"
          % (pid, tier, len(ev_entries), total["paths"], total["queries"], total["solver_s"], t_build, time.time() - T0, complete, validated))
    for p in problems:
        print("PROBLEM: " + p[:1500])
    if violations:
        for key, path in violations:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if problems:
        sys.exit(2)
    sys.exit(0)


main()
