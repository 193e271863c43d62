#!/usr/bin/env python3-vt
"""Decides one property: extracts the real functions from /repo, generates
the proof obligations of its contracts, discharges them, replays refuted
ones on the real compiled code and cross-checks by sampling.

usage: check.py PROPERTY [--tier quick|thorough]      check.py --setup
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GCP_REPO", "/repo")
os.environ.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self",
                  OMPI_MCA_rmaps_base_oversubscribe="1")
sys.path.insert(0, os.path.join(VERIF, "engine"))
BUILD = os.path.join(VERIF, "build")

INCLUDES = """-I{v}/contracts -I{r}/include
-isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi
-isystem /usr/include/petsc -isystem /usr/include/trilinos -isystem /usr/include/hdf5/openmpi
-isystem /usr/include/scotch -isystem /usr/include/suitesparse -isystem /usr/include/opencascade
-isystem /usr/include/slepc""".format(v=VERIF, r=REPO).split()
FLAGS = ["-std=gnu++17", "-w"] + INCLUDES
LLVM = "/usr/lib/llvm-18"


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace"), "timeout"


def build_extractor():
    src = os.path.join(VERIF, "engine", "extract.cc")
    tag = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "extract-" + tag)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    os.close(fd)
    rc, o, e = run(["clang++-18", "-std=c++17", "-fno-rtti", "-O0", "-I%s/include" % LLVM, src, "-o", tmp,
                    "-L%s/lib" % LLVM, "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"], 600)
    if rc != 0:
        raise SystemExit("the extractor does not build:\n" + e)
    os.chmod(tmp, 0o755)
    os.replace(tmp, out)
    return out


def extract(tool, name, out):
    src = os.path.join(VERIF, "contracts", name)
    rc, o, e = run([tool, out, REPO + "/," + VERIF + "/", src, "--"] + FLAGS +
                   ["-DVERIFY_SYMBOLIC", "-fno-access-control", "-resource-dir", LLVM + "/lib/clang/18"], 600)
    if rc != 0 or not os.path.exists(out):
        return "extraction of %s failed: %s" % (name, e[-1500:])
    return None


def compile_replay(name, out, defs=()):
    src = os.path.join(VERIF, "contracts", name)
    rc, o, e = run(["g++"] + FLAGS + list(defs) + ["-O0", "-fno-access-control", src, "-o", out,
                    "-Wl,--copy-dt-needed-entries",
                    # what the contracts never reach is left out
                    "-Wl,--unresolved-symbols=ignore-in-object-files", "-ldeal.ii", "-ltbb", "-lmpi", "-lmpi_cxx", "-lstdc++fs"], 800)
    return None if rc == 0 else e[-3000:]


_data = {}


def load(path):
    if path not in _data:
        import interp
        _data[path] = json.load(open(path))
    return _data[path]


def prove_contract(task):
    """worker: all obligations of one contract"""
    path, fid, opts = task
    import interp
    import prover
    import models
    import terms as T
    from values import Unsupported
    t0 = time.time()
    data = load(path)
    P = interp.Prog(data)
    P.opaque = tuple(opts.get("opaque", ()))
    f = P.funs[fid]
    name = f["name"].split("::")[-1]
    res = {"contract": name, "obligations": [], "unsupported": None, "paths": 0, "functions": {},
           "assumed": [], "trusted": [], "loops": 0}
    models.used.clear()
    for k in prover.stats:
        prover.stats[k] = 0
    end = t0 + opts["deadline"]
    it = interp.Interp(P, opts.get("engine", {}))
    it.deadline = end
    try:
        obl = it.run_entry(fid)
    except Unsupported as e:
        res["unsupported"] = str(e)
        obl = []
    except RecursionError as e:
        res["unsupported"] = "recursion"
        obl = []
    except Exception as e:                        # a defect of the engine decides nothing
        import traceback
        res["unsupported"] = "engine: " + traceback.format_exc()[-600:]
        obl = []
    res["paths"] = getattr(it, "npaths", 0)
    res["functions"] = it.funs_used
    res["assumed"] = sorted(it.assumed)
    res["loops"] = sum(it.loops.values())
    res["t_exec"] = time.time() - t0
    nbad = 0
    for o in obl:
        effort = opts["effort"] * (1.0 if nbad < 4 else 0.2)
        try:
            r = prover.prove(o.pc, o.goal, effort, end)
        except RecursionError:
            r = prover.Result("unproven", "recursion")
        except Exception as e:
            import traceback
            r = prover.Result("unproven", "engine: " + traceback.format_exc()[-400:])
        if r.status != "proved":
            nbad += 1
        d = {"name": o.name, "where": o.where, "status": r.status, "by": r.by, "time": round(r.time, 3)}
        if r.status != "proved":
            d["goal"] = T.show(o.goal)[:3000]
            d["pc"] = [T.show(c)[:500] for c in o.pc][:60]
            d["model"] = r.model
        res["obligations"].append(d)
    res["bounds"] = getattr(it, "bounds_ok", 0)
    res["trusted"] = sorted(models.used)
    res["stats"] = dict(prover.stats)
    res["time"] = time.time() - t0
    return res


def run_binary(binary, contract, samples, seed, budget, values=None):
    cmd = [binary, "--contract", contract, "--samples", str(samples), "--seed", str(seed), "--budget", str(budget)]
    if values:
        cmd += ["--values", values]
    rc, o, e = run(cmd, budget * 3 + 60, cwd=os.path.dirname(binary))
    fails, summary = [], None
    for line in o.splitlines():
        line = line.strip()
        if not line.startswith("{"):
            continue
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if "failure" in j:
            fails.append(j)
        elif "accepted" in j:
            summary = j
    return rc, fails, summary, e[-500:]


def main():
    if "--setup" in sys.argv:
        build_extractor()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    cfg = json.load(open(os.path.join(VERIF, "contracts", "registry.json")))[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="gcp-" + prop + "-")
    try:
        return decide(prop, tier, seed, thorough, cfg, work, t0)
    finally:
        if "--keep" in sys.argv:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, thorough, cfg, work, t0):
    files = cfg["files"]
    jsons = {f: os.path.join(work, f + ".json") for f in files}
    bins = {f: os.path.join(work, f + ".bin") for f in files}
    errors = {}
    samples = 4000 if thorough else cfg.get("samples", 400)
    budget = 60.0 if thorough else 12.0
    log = lambda *a: print("[%6.1fs]" % (time.time() - t0), *a, flush=True)

    pool = cf.ThreadPoolExecutor(8)
    tool_f = pool.submit(build_extractor)
    bin_f = {f: pool.submit(compile_replay, f, bins[f]) for f in files}
    tool = tool_f.result()
    ext_f = {f: pool.submit(extract, tool, f, jsons[f]) for f in files}
    tasks = []
    for f in files:
        err = ext_f[f].result()
        if err:
            errors[f] = err
            log(err)
            continue
        data = json.load(open(jsons[f]))
        for fid in data["entries"]:
            n = data["funs"][fid]["name"].split("::")[-1]
            if n.startswith(prop + "_"):
                tasks.append((jsons[f], fid, {
                    "effort": 3.0 if thorough else 1.0, "deadline": 600.0 if thorough else cfg.get("deadline", 300.0),
                    "opaque": cfg.get("opaque", []), "engine": cfg.get("engine", {})}))
    log("extracted", len(tasks), "contracts")
    ctx = mp.get_context("fork")
    results = []
    nw = min(len(tasks), 8)
    apool = ctx.Pool(nw, maxtasksperchild=1) if tasks else None
    ares = [apool.apply_async(prove_contract, (t,)) for t in tasks]

    # the same contracts on the real compiled code
    names_f = {}
    fails, sampled = [], []
    usable = []
    for f in files:
        err = bin_f[f].result()
        if err:
            errors[f + " (replay)"] = err
            log("replay of", f, "does not compile:", err[-800:])
        else:
            usable.append(f)

    def contract_names(f):
        txt = open(os.path.join(VERIF, "contracts", f)).read()
        return sorted(set(re.findall(r"CONTRACT\((%s_\w+)\)" % prop, txt)))
    jobs = []
    for f in usable:
        for n in contract_names(f):
            jobs.append((f, n, pool.submit(run_binary, bins[f], n, samples, seed, budget)))
    where_bin = {n: bins[f] for f, n, _ in jobs}
    for f, n, j in jobs:
        rc, fl, summ, err = j.result()
        if summ:
            sampled.append(summ)
        if fl:
            fails += fl
        elif rc not in (0, 1):
            log("replay of", n, "ended with", rc, err)
    for a in ares:
        results.append(a.get())
    if apool:
        apool.close()

    nob = ndis = 0
    by = {}
    bad, unsup = [], []
    for r in results:
        for o in r["obligations"]:
            nob += 1
            if o["status"] == "proved":
                ndis += 1
                by[o["by"]] = by.get(o["by"], 0) + 1
            else:
                bad.append((r["contract"], o))
        if r["unsupported"]:
            unsup.append((r["contract"], r["unsupported"]))
        log("%-42s paths %4d obligations %4d open %d  %.1fs%s" % (
            r["contract"], r["paths"], len(r["obligations"]),
            sum(o["status"] != "proved" for o in r["obligations"]), r["time"],
            "  BOUNDED: " + r["unsupported"][-300:] if r["unsupported"] else ""))

    # replay of the refuted obligations on the real code
    seen_fail = {x["contract"] for x in fails}
    done = {}
    for c, o in bad:
        if c in seen_fail or c not in where_bin or done.get(c, 0) >= 3:
            continue
        done[c] = done.get(c, 0) + 1
        vals = None
        if o.get("model"):
            vals = os.path.join(work, "values-%s-%d.txt" % (c, done[c]))
            with open(vals, "w") as h:
                for k, v in o["model"].items():
                    if v is not None:
                        h.write("%s\t%.17g\n" % (k, v))
        rc, fl, summ, err = run_binary(where_bin[c], c, samples * 5, seed + 17 * done[c], 10.0, vals)
        if fl:
            fails += fl
            seen_fail.add(c)
            for x in fl:
                x["from"] = "counterexample of: " + o["name"]

    known = known_findings(prop)
    violations = []
    rep_dir = os.path.join(VERIF, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    hit_known = {}

    def is_known(contract, text):
        for k in known:
            if k["contract"] == contract and k["obligation"] in text:
                hit_known[k["what"]] = True
                return True
        return False
    grouped = {}
    for x in fails:
        if is_known(x["contract"], x["failure"]):
            continue
        grouped.setdefault(x["contract"], {"inputs": [], "obligations": []})["inputs"].append(x)
    for c, o in bad:
        if is_known(c, o["name"]):
            continue
        grouped.setdefault(c, {"inputs": [], "obligations": []})["obligations"].append(o)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for c in sorted(grouped):
        g = grouped[c]
        path = os.path.join(rep_dir, "%s-%s.json" % (prop, c))
        with open(path, "w") as h:
            json.dump({"property": prop, "contract": c,
                       "failing_inputs_on_the_real_code": g["inputs"],
                       "failed_obligations": g["obligations"][:20],
                       "replay": "g++ the contract file %s with contracts/main.h and run it with --contract %s --seed %d" % (files, c, seed)},
                      h, indent=1)
        for o in g["obligations"][:3]:
            log("FAILED OBLIGATION %s: %s (%s) %s %s" % (c, o["name"], o["where"], o["status"], o["by"]))
        for x in g["inputs"][:1]:
            log("FAILING INPUT %s: %s  input %s" % (c, x["failure"], json.dumps(x.get("input"))[:600]))
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        if not g["inputs"]:
            line += " no-failing-input-found"
        violations.append(line)

    funs, trusted, assumed, loops, paths, bounds = {}, set(), set(), 0, 0, 0
    stats = {}
    for r in results:
        funs.update(r["functions"])
        trusted |= set(r["trusted"])
        assumed |= set(r["assumed"])
        loops += r["loops"]
        paths += r["paths"]
        bounds += r.get("bounds", 0)
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
    accepted = sum(s["accepted"] for s in sampled)
    base = ["model of %s" % t for t in sorted(trusted)] + BASE
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if nob and not unsup and not errors else "exploration",
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
            "trusted_base": base,
            "discharged_by": by, "paths": paths, "symbolic_loops": loops,
            "index_checks_discharged_inline": bounds,
            "functions_under_contract": ["%s (%s)" % (k, v) for k, v in sorted(funs.items())],
            "contracts": [{"contract": r["contract"], "obligations": len(r["obligations"]),
                           "proved": sum(o["status"] == "proved" for o in r["obligations"]),
                           "paths": r["paths"], "seconds": round(r["time"], 1),
                           "bounded_because": r["unsupported"]} for r in results],
            "solver_seconds": round(stats.get("time", 0.0), 2),
            "oracle_queries": stats.get("quick", 0),
            "cross_check_on_the_compiled_code": {
                "accepted_inputs": accepted,
                "rule": "seeded random inputs and the verifier's counterexamples, counted when they satisfy every requirement of the contract",
                "samples": [s for s in sampled if s.get("accepted")][:5]},
            "bounded_contracts": [{"contract": c, "reason": u} for c, u in unsup],
            "not_built": errors,
        },
        "assumptions": sorted(assumed) + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if ev["level"] == "exploration":
        c = ev["coverage"]
        c.update(evaluations=sum(s["accepted"] + s.get("rejected", 0) for s in sampled), distinct_nontrivial=accepted,
                 rule=c["cross_check_on_the_compiled_code"]["rule"],
                 samples=c["cross_check_on_the_compiled_code"]["samples"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    log("%d obligations, %d discharged %s, %d samples on the compiled code, %d bounded contracts" %
        (nob, ndis, by, accepted, len(unsup)))
    for v in violations:
        print(v)
    if not violations and not nob and not accepted:
        print("nothing was decided:", errors)
        return 2
    return 1 if violations else 0


BASE = [
    "clang 18 front end and the mechanical extraction engine/extract.cc (drops: Assert of debug mode, output, timers)",
    "symbolic evaluator engine/interp.py, library models engine/models.py, prover engine/prover.py",
    "z3 and cvc5",
    "doubles are read as real numbers; NaN and infinity are tracked, rounding and overflow are not",
    "unsigned and int counters are mathematical integers",
]


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


if __name__ == "__main__":
    sys.exit(main())
