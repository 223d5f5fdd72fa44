#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by exhaustive exploration.

Compiles the harnesses of the property from the current tree of the repository,
runs the explorer, prints the verdict and writes evidence/ID.json.
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import PLAN, HARNESSES  # noqa: E402

CXX = ["g++", "-std=gnu++14", "-O1", "-g0", "-pthread", "-fno-sanitize-recover", "-D_GLIBCXX_ASSERTIONS"]

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"]


def compile_harness(name, outdir):
    h = HARNESSES[name]
    exe = os.path.join(outdir, name)
    cmd = [x for x in CXX] + h.get("flags", []) + [
        "-I" + os.path.join(HERE, "mc"), "-I" + REPO, "-o", exe, os.path.join(HERE, "harness", h["src"])]
    cmd += SAN if h.get("san") else []
    cmd += ["-Wl,--wrap=exit"] if h.get("e2e") else []
    cmd += h.get("libs", [])
    return exe, cmd


def known_findings():
    f, path = [], os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l)
            if m:
                f.append(m.groups())
    return f


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    plan = PLAN[pid]
    out = os.path.join(HERE, "build", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ncpu = len(os.sched_getaffinity(0))
    budget = float(os.environ.get("VERIF_BUDGET", plan.get("budget", 240) if tier == "quick" else 780))

    runs = plan["runs"] + (plan.get("thorough_runs", []) if tier == "thorough" else [])
    names = []
    for h, sel in runs:
        if h not in names:
            names.append(h)
    procs = {}
    for n in names:
        exe, cmd = compile_harness(n, out)
        procs[n] = (exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    exes, plain = {}, []
    for n, (exe, p) in procs.items():
        log = p.communicate()[0]
        if p.returncode:
            # instantiations that no part of the repository uses are left out and the rest is still explored
            exe, cmd = compile_harness(n, out)
            again = subprocess.run(cmd + ["-DVERIF_PLAIN"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("harness %s does not compile against this tree in full:\n%s" % (n, log[-1500:]))
            if again.returncode:
                print("nor with the plain instantiations only:\n%s" % again.stdout[-3000:])
                continue
            plain.append(n)
        exes[n] = exe
    if not exes:
        print("ERROR: no harness of %s compiles" % pid)
        return 2

    findings = [(k, t) for p, k, t in known_findings() if p == pid]
    fams, violation, knownhits = [], None, {}
    notes = ["harness %s run with the plain instantiations only" % n for n in plain]
    for h, sel in runs:
        if h not in exes:
            notes.append("harness %s not run: it does not compile against this tree" % h)
            continue
        left = budget - (time.time() - t0)
        js = os.path.join(out, h + ".json")
        d = os.path.join(out, h + ".d")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = [exes[h], "--tier", tier, "--workers", str(ncpu), "--out", js, "--dir", d, "--budget", str(max(10, left))]
        if sel:
            cmd += ["--select", sel]
        if HARNESSES[h].get("safety"):
            cmd += ["--safety"]
        for k, _ in findings:
            cmd += ["--known", k]
        print("== %s %s" % (h, sel or "(all families)"), flush=True)
        env = dict(os.environ, LC_ALL="C", LANG="C", VERIF_REPO=REPO, VERIF_SCRATCH=d)
        r = subprocess.run(cmd, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        if r.returncode not in (0, 1) or not os.path.exists(js):
            print("ERROR: the explorer ended with status %s" % r.returncode)
            return 2
        for f in json.load(open(js))["families"]:
            f["harness"] = h
            fams.append(f)
            for k, (n, msg) in f["known"].items():
                knownhits.setdefault(k, [0, msg])
                knownhits[k][0] += n
            if f["found"] and violation is None:
                violation = (h, f, f["found"][0])
        if violation:
            break

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    nviol = sum(len(f["found"]) for f in fams)
    evidence = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(f["states"] for f in fams),
            "transitions": sum(f["edges"] for f in fams),
            "traces_validated_against_impl": sum(min(f["execs"], f["compares"]) for f in fams),
            "comparisons": sum(f["compares"] for f in fams),
            "exhaustive": not any(f["capped"] for f in fams) and not notes,
            "samples": [{"family": f["name"], "case": s} for f in fams for s in f["samples"][:1]],
            "executions": sum(f["execs"] for f in fams),
            "families": [{"name": f["name"], "harness": f["harness"], "rule": f["rule"], "executions": f["execs"], "compared": f["compares"],
                          "distinct_states": f["states"], "choice_edges": f["edges"], "distinct_outcomes": f["outcomes"],
                          "completed": not f["capped"], "unreproduced": f["unreproduced"], "wall_s": round(f["wall"], 2)} for f in fams],
            "notes": notes,
            "known_findings_seen": {k: v[0] for k, v in knownhits.items()},
        },
        "assumptions": plan.get("assumptions", []) + [
            "states: distinct inputs or object states reached (64-bit hashes); transitions: edges of the choice tree; the deciding step is the complete enumeration of that tree, each leaf being an execution of the code of the repository compared with the reference model"],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k, (n, msg) in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s (%d executions, e.g. %s)" % (pid, k, n, msg[:300]))
    tot = evidence["coverage"]
    print("%s %s: %d executions, %d states, %d transitions, %s, %.1f s" % (
        pid, tier, tot["executions"], tot["states"], tot["transitions"], "complete" if tot["exhaustive"] else "CAPPED or reduced", time.time() - t0))
    if violation:
        h, f, x = violation
        path = os.path.join(HERE, "replays", "%s-%s.txt" % (pid, f["name"]))
        exe, cmd = compile_harness(h, "/tmp")
        with open(path, "w") as g:
            g.write("property: %s\nharness: %s\nfamily: %s (%s)\nchoices: %s\nviolation: %s\n\n%s\n\nreplay: %s && %s --family %s --replay %s --tier %s%s\n" % (
                pid, h, f["name"], f["rule"], x["path"], x["msg"], x["text"], " ".join(cmd), exe, f["name"], x["path"], tier,
                (" --safety" if HARNESSES[h].get("safety") else "") + "".join(" --known " + k for k, _ in findings)))
        print("%s: %s" % (f["name"], x["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        shutil.rmtree(out, ignore_errors=True)
        return 1
    shutil.rmtree(out, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
