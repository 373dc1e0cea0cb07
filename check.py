#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]

Decides one property on /repo's current source:
 1. builds the symbolic executor (engine/) if it is missing or older than its sources,
 2. compiles the property's harness with /repo's crate to LLVM IR (and natively, for replays),
 3. executes that IR symbolically; z3 (cvc5 behind it) decides every branch and assertion,
 4. replays every counterexample natively on the real code and reports those that reproduce,
 5. re-runs sampled explored paths natively and compares what they observed,
 6. writes evidence/PROPERTY.json.
Exit 0: held on everything within the bounds. 1: violation (VIOLATION line). 2: no answer.
"""
import glob, hashlib, json, os, shutil, signal, subprocess, sys, time
from collections import Counter, OrderedDict

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J

T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def sources_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        fs = []
        if os.path.isfile(base):
            fs = [base]
        for d, ds, ff in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            fs += [os.path.join(d, f) for f in sorted(ff)]
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build_engine():
    exe = os.path.join(HERE, "engine/target/release/symir")
    stamp = os.path.join(HERE, "engine/target/stamp")
    want = sources_hash([os.path.join(HERE, "engine/src"), os.path.join(HERE, "engine/Cargo.toml"), os.path.join(HERE, "engine/build.rs")])
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    r = sh(["cargo", "+stable", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "engine"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("cannot build the symbolic executor")
        sys.exit(2)
    open(stamp, "w").write(want)
    return exe


def build_harness(prop, out):
    stamp = os.path.join(HERE, "harness/target/stamp")
    want = sources_hash(["/repo/src", "/repo/Cargo.toml", os.path.join(HERE, "harness/src"), os.path.join(HERE, "harness/Cargo.toml")])
    # cargo goes by modification times; a change it could miss is forced here
    if not os.path.exists(stamp) or open(stamp).read() != want:
        for p in glob.glob(os.path.join(HERE, "harness/target/*/*/.fingerprint/*")):
            if os.path.basename(p).startswith(("tedium-", "vh-")):
                shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(os.path.join(HERE, "harness/target/ir/*.ll")):
            os.remove(p)
    r = sh([os.path.join(HERE, "harness/build.sh"), prop.lower(), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print("cannot build the harness")
        sys.exit(2)
    open(stamp, "w").write(want)


def run_group(cmd, timeout):
    """run, killing the whole process group on overrun"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def native(exe, job, inputs, timeout=20, work=None):
    """the harness on concrete values: (result, observations)"""
    vals = " ".join(str(v) for v, _ in inputs)
    arg = vals
    if len(vals) > 100000:
        arg = "@" + os.path.join(work, "inputs.txt")
        open(arg[1:], "w").write(vals)
    p = subprocess.Popen([exe, job, arg], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True, cwd=work)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", []
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith("OBS ")]
    last = out.strip().splitlines()[-1] if out.strip() else ""
    if p.returncode == 0 and last == "END":
        return "end", obs
    if p.returncode == 4:
        return "infeasible", obs
    if last.startswith("CHECK-FAILED"):
        return "check " + last.split()[1], obs
    if last.startswith("PANIC"):
        return "panic " + last[6:], obs
    return "abnormal exit %s" % p.returncode, obs


def confirms(v, res):
    k = v["kind"]
    if k == "check":
        return res.startswith("check ") or res.startswith("panic") or res == "timeout" or res.startswith("abnormal")
    if k == "steps":
        return res == "timeout" or res.startswith("panic") or res.startswith("abnormal")
    return res.startswith("panic") or res.startswith("abnormal") or res.startswith("check ") or res == "timeout"


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = J.PROPS[prop]
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    engine = build_engine()
    build_harness(prop, work)
    tb = time.time() - T0
    jobs = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    limit = spec.get("time", 740) if tier == "quick" else spec.get("thorough_time", 3600)
    out = os.path.join(work, "out")
    os.makedirs(out)
    cmd = [engine, os.path.join(work, "vh.ll"), out, "--time", str(limit), "--procs", str(min(8, os.cpu_count() or 8)),
           "--samples", str(spec.get("samples", 6)), "--steps", str(spec.get("steps", 30_000_000))]
    cmd += spec.get("engine", [])
    cmd += ["--"] + jobs
    rc, log = run_group(cmd, limit + 60)
    open(os.path.join(work, "engine.log"), "w").write(log or "")
    problems = []
    summ = {}
    if rc is None:
        problems.append("the symbolic executor did not end in time")
    else:
        try:
            summ = json.load(open(os.path.join(out, "summary.json")))
        except Exception:
            problems.append("the symbolic executor ended without a summary (exit %s)" % rc)
    if summ and summ["started"] != summ["finished"]:
        problems.append("%d of %d engine processes did not finish" % (summ["started"] - summ["finished"], summ["started"]))
    st = Counter()
    maxsolver = 0.0
    funcs = set()
    per = {}
    viols = []
    errs = []
    samples = []
    for f in sorted(glob.glob(os.path.join(out, "part-*.json"))):
        d = json.load(open(f))
        for k, v in d["stats"].items():
            if k == "solver_max":
                maxsolver = max(maxsolver, v)
            else:
                st[k] += v
        funcs |= set(d["functions"])
        viols += d["violations"]
        errs += d["errors"]
        for j in d["jobs"]:
            x = per.setdefault(j["job"], {"paths": 0, "killed": 0, "viols": 0, "covers": Counter(), "cons_max": 0, "sym_max": 0, "steps": 0})
            for k in ("paths", "killed", "viols", "steps"):
                x[k] += j[k]
            x["covers"] += Counter(j["covers"])
            x["cons_max"] = max(x["cons_max"], j["cons_max"])
            x["sym_max"] = max(x["sym_max"], j["sym_max"])
            for s in j["samples"]:
                samples.append((j["job"], s))
    for e in errs[:5]:
        problems.append("%s: %s" % (jobs[e["job"]], e["msg"]))

    # counterexamples: only those the real code reproduces count
    exe = os.path.join(work, "vh")
    seen = OrderedDict()
    for v in viols:
        key = (jobs[v["job"]].split(":")[0], v["kind"], v["code"], v["loc"] if v["kind"] != "check" else "", tuple(v["known"]))
        seen.setdefault(key, []).append(v)
    confirmed, knownhit, unconfirmed = [], set(), []
    known_list = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop]
    knownids = {k["id"]: k for k in known_list}
    nrep = 0
    for key, vs in seen.items():
        good = None
        for v in vs[:3]:
            res, _ = native(exe, jobs[v["job"]], v["inputs"], work=work)
            nrep += 1
            if confirms(v, res):
                good = (v, res)
                break
        if good is None:
            unconfirmed.append((vs[0], res))
            continue
        v, res = good
        if v["known"] and all(k in knownids for k in v["known"]):
            knownhit |= set(v["known"])
            continue
        path = os.path.join(work, "replay-%d.json" % len(confirmed))
        json.dump({"property": prop, "job": jobs[v["job"]], "what": J.describe(prop, jobs[v["job"]], v), "kind": v["kind"], "code": v["code"],
                   "location": v["loc"], "native": res, "inputs": [x for x, _ in v["inputs"]],
                   "command": "%s %s '%s'" % (exe, jobs[v["job"]], " ".join(str(x) for x, _ in v["inputs"])),
                   "call_stack": v["stack"]}, open(path, "w"), indent=1)
        confirmed.append((v, res, path))
    for v, res in unconfirmed[:5]:
        problems.append("counterexample of %s (%s %s %s) does not reproduce natively: %s; inputs %s" % (jobs[v["job"]], v["kind"], v["code"], v["loc"], res, [x for x, _ in v["inputs"]][:40]))

    # explored paths re-run on the real code
    validated, mismatches = 0, []
    byjob = {}
    for j, s in samples:
        byjob.setdefault(j, []).append(s)
    want = spec.get("validate", 160)
    order = []
    i = 0
    while len(order) < want:
        row = [(j, ss[i]) for j, ss in sorted(byjob.items()) if i < len(ss)]
        if not row:
            break
        order += row
        i += 1
    tv = time.time()
    for j, s in order[:want]:
        if time.time() - tv > 90:
            break
        res, obs = native(exe, jobs[j], s["inputs"], work=work)
        if res != "end" or obs != s["obs"]:
            mismatches.append((jobs[j], res, obs[:8], s["obs"][:8], [x for x, _ in s["inputs"]][:40]))
        else:
            validated += 1
    for m in mismatches[:3]:
        problems.append("a path does not replay natively: %s native %s %s engine %s inputs %s" % m)

    # the run must have reached what it is supposed to examine
    entry_cov = {}
    for j, x in per.items():
        e = jobs[j].split(":")[0]
        entry_cov.setdefault(e, Counter()).update(x["covers"])
    missing = []
    for e, want_c in spec.get("covers", {}).items():
        if any(j.split(":")[0] == e for j in jobs):
            for c in want_c:
                if entry_cov.get(e, {}).get(str(c), 0) == 0:
                    missing.append("%s/%s" % (e, c))
    for j in range(len(jobs)):
        if per.get(j, {}).get("paths", 0) == 0 and per.get(j, {}).get("viols", 0) == 0:
            missing.append("no completed path of " + jobs[j])
    if missing and not confirmed and not problems:
        problems.append("not reached: " + ", ".join(missing[:10]))

    tfun = sorted(f for f in funcs if "tedium" in f)
    sample_out = []
    for j, s in order[:4]:
        sample_out.append({"job": jobs[j], "inputs": [x for x, _ in s["inputs"]][:64], "observed": s["obs"][:16]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": st["forks"] + st["paths"] + st["killed"],
            "transitions": st["steps"],
            "traces_validated_against_impl": validated,
            "samples": sample_out,
            "exhaustive": not problems,
            "explanation": "states: states reached where paths split or end; transitions: IR instructions executed symbolically; paths completed and decided per job below",
            "paths_decided": st["paths"],
            "paths_infeasible_or_outside_assumptions": st["killed"],
            "assertions_checked": st["asserts"],
            "assertions_on_symbolic_values": st["sym_asserts"],
            "solver_queries": st["queries"],
            "solver_sat": st["sat"],
            "solver_unsat": st["unsat"],
            "solver_unknown": st["unknown"],
            "second_solver_queries": st["second"],
            "queries_answered_from_cache_or_model": st["cache_hits"] + st["model_hits"],
            "solver_time_s": round(st["solver_time"], 3),
            "solver_slowest_query_s": round(maxsolver, 3),
            "solver": summ.get("solver", ""),
            "counterexamples_replayed": nrep,
            "functions_encoded": tfun,
            "functions_encoded_total": len(funcs),
            "jobs": [{"job": jobs[j], "paths": x["paths"], "pruned": x["killed"], "most_symbolic_inputs": x["sym_max"], "longest_path_condition": x["cons_max"],
                      "covers": dict(x["covers"])} for j, x in sorted(per.items())],
            "bounds": spec["bounds"],
            "outside_bounds": spec.get("outside", ""),
            "build_s": round(tb, 1),
            "engine_wall_s": summ.get("wall"),
            "problems": problems,
        },
        "assumptions": J.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %d paths decided, %d assertions, %d solver queries (%.1f s), %d paths replayed natively, %.0f s" % (
        prop, tier, len(jobs), st["paths"], st["asserts"], st["queries"], st["solver_time"], validated, time.time() - T0))
    for k in known_list:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        for v, res, path in confirmed:
            print("  %s: %s [%s]" % (jobs[v["job"]], J.describe(prop, jobs[v["job"]], v), res))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][2]))
        return 1
    if problems:
        for p in problems:
            print("NO ANSWER: " + p)
        return 2
    if "--keep" not in a:
        for f in ("vh.ll", "vh"):
            try:
                os.remove(os.path.join(work, f))
            except OSError:
                pass
    return 0


if __name__ == "__main__":
    sys.exit(main())
