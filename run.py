#!/usr/bin/env python3
"""Decides one property:  run.py <ID> [--tier quick|thorough]
Other uses:  run.py --setup            build the engine and every harness
             run.py --dev <harness> [engine options]   build one harness, run it
             run.py --replay <file>    replay a counterexample natively"""
import json, os, re, subprocess, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build as B
from vp.checks import CHECKS, HARNESSES

V = B.VERIF
OUT = os.path.join(B.BUILD, "out")


def known():
    p = os.path.join(V, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def harness(name):
    h = dict(HARNESSES[name])
    h["name"] = name
    h.setdefault("src", [name + ".cc"])
    h.setdefault("groups", ["drake", "symbolic", "dreal/util/logging.cc"])
    return h


def build(names, *kinds):
    n = B.Ninja()
    if any(HARNESSES[x].get("gen") for x in names):
        n.generated()
    exes = [{x: n.harness(harness(x), kind) for x in names} for kind in kinds]
    tag = "_".join(kinds) + "_" + hashlib.md5(" ".join(sorted(names)).encode()).hexdigest()[:8]
    ok, out = n.run([e for d in exes for e in d.values()], os.path.join(B.BUILD, f"build_{tag}.log"), tag="b_" + tag)
    if not ok:
        errs = [l for l in out.splitlines() if "error" in l or "FAILED" in l or "undefined" in l]
        print("BUILD FAILED\n%s" % "\n".join(errs[:30]))
        return None if len(kinds) == 1 else (None,) * len(kinds)
    return exes[0] if len(kinds) == 1 else exes


def env_cfg(cfg):
    e = dict(os.environ)
    e["SYM_CFG"] = ",".join(f"{k}={v}" for k, v in cfg.items())
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_free_fill_size=65536:free_fill_byte=221"
    return e


def native(exe, f, cfg, search=0, out=None, seed=1):
    cmd = [exe, f] + (["--search", str(search), "--seed", str(seed), "-o", out] if search else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_cfg(cfg), timeout=120, cwd=OUT)
    except subprocess.TimeoutExpired:
        return 1, "native run did not terminate within 120 s"
    return p.returncode, p.stdout.decode(errors="replace")[-3000:]


def write_inputs(path, inputs, comment):
    with open(path, "w") as f:
        for c in comment:
            f.write("# " + c.replace("\n", " ") + "\n")
        for k, v in inputs.items():
            f.write(f"{k}={v}\n")


def main_check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(OUT, exist_ok=True)
    names = list(dict.fromkeys(r["h"] for r in spec["runs"]))
    print(f"[{pid}] build directory {'reused' if os.path.exists(os.path.join(B.BUILD, 'rt.o')) else 'new'}", flush=True)
    exes, nat = build(names, "sym", "nat")
    if exes is None:
        return 2
    t_build = time.time() - t0
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    runs, viols, notes = [], [], []
    limit = spec.get("limit", {}).get(tier, 800 if tier == "quick" else 3600) 
    for r in spec["runs"]:
        if tier == "quick" and r.get("thorough_only"):
            continue
        cfg = dict(r.get("cfg", {}))
        cfg.update(r.get(tier, {}))
        left = max(20, limit - (time.time() - t0) - 30)
        rb = min(r.get("budget", {}).get(tier, left), left)
        outf = os.path.join(OUT, f"{pid}_{r['h']}_{len(runs)}.json")
        cmd = [exes[r["h"]], "--" + r.get("mode", "fp"), "-q", "-o", outf, "-j", os.environ.get("VP_JOBS", str(spec.get("jobs", 8))), "--budget", str(int(rb)), "--pathcpu", "15" if tier == "quick" else "120"] + r.get("opts", [])
        if os.path.exists(outf):
            os.remove(outf)
        p = subprocess.run(cmd, env=env_cfg(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(outf):
            print("engine failed:", p.stdout.decode(errors="replace")[-2000:])
            return 2
        j = json.load(open(outf))
        j["h"], j["cfg"], j["spec"] = r["h"], cfg, r
        runs.append(j)
        for v in j["violations"]:
            viols.append((j, v))
        for l in r.get("reach", []):
            if not j["reach"].get(l):
                notes.append(f"vacuity: {r['h']} never reached '{l}'")
        missing = [a for a in r.get("asserts", []) if not j["asserts"].get(a)]
        for a in missing:
            notes.append(f"vacuity: {r['h']} never evaluated assertion '{a}'")
        print(f"[{pid}] {r['h']} {cfg} mode={j['mode']}: paths {j['paths']} (complete {j['completed']}), queries {j['queries']} "
              f"(unsat {j['unsat']}, sat {j['sat']}, unknown {j['unknown']}), solver {j['solver_s']:.1f}s, wall {j['wall_s']:.1f}s"
              f"{', TIMED OUT with %d paths left' % j['queue_left'] if j['timeout'] else ''}"
              f"{', INCOMPLETE ' + str(j['incomplete']) if j['incomplete'] else ''}", flush=True)
    # ---- native replay: counterexamples, and a sample of held paths
    reported, kf, unconfirmed = [], [], []
    kn = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    seen = set()
    for n, (j, v) in enumerate(viols):
        key = (j["h"], v["kind"], v["label"])
        if key in seen:
            continue
        f = os.path.join(OUT, f"{pid}_cex_{n}.txt")
        head = [f"property {pid}", f"harness {j['h']}", "cfg " + json.dumps(j["cfg"]), f"engine: {v['kind']}: {v['label']}",
                f"replay: SYM_CFG='{','.join(f'{a}={b}' for a, b in j['cfg'].items())}' {nat[j['h']]} {f}   (or: {V}/run.py --replay {f})"]
        write_inputs(f, v["inputs"], head)
        rc, out = native(nat[j["h"]], f, j["cfg"])
        if rc in (0, 77, 78):
            f2 = f + ".found"
            if os.path.exists(f2):
                os.remove(f2)
            rc2, out2 = native(nat[j["h"]], f, j["cfg"], search=400, out=f2, seed=seed)
            if rc2 == 1 and os.path.exists(f2):
                body = [l for l in open(f2).read().splitlines()]
                write_inputs(f, dict(l.split("=", 1) for l in body if "=" in l and not l.startswith("#")), head)
                rc, out = native(nat[j["h"]], f, j["cfg"])
        if rc in (0, 77, 78):
            unconfirmed.append((key, f))
            continue
        m = [k for k in kn if k["harness"] == j["h"] and re.search(k["match"], v["kind"] + ": " + v["label"])
             and all(v["inputs"].get(a) == b for a, b in k.get("inputs", {}).items())]
        if m:
            if any(x[3][0] is m[0] for x in kf):
                continue
        else:
            seen.add(key)
        (kf if m else reported).append((key, f, out.strip().splitlines()[-1:] or [""], m))
    validated = 0
    bad = []
    for j in runs:
        for i, s in enumerate(j["samples"]):
            f = os.path.join(OUT, f"{pid}_sample.txt")
            write_inputs(f, s, [])
            rc, out = native(nat[j["h"]], f, j["cfg"])
            if rc == 0 or rc in (77, 78):
                validated += rc == 0
            else:
                bad.append((j["h"], s, rc, out[-300:]))
    if bad:
        notes.append(f"{len(bad)} sampled paths behave differently natively, e.g. {bad[0]}")
    tot = lambda k: sum(j[k] for j in runs)
    cov["states"] = tot("paths")
    cov["transitions"] = tot("branches")
    cov["traces_validated_against_impl"] = validated
    cov["samples"] = [{"harness": j["h"], "inputs": s} for j in runs for s in j["samples"][:2]]
    complete = not any(j["timeout"] or j["incomplete"] for j in runs) and not notes
    cov["exhaustive"] = complete
    cov["rule"] = ("states: execution paths of the real (instrumented) code, each path's inputs symbolic; transitions: symbolic branch decisions; "
                   "each assertion on each path is decided by Z3 for all inputs of the path")
    cov["runs"] = [{"harness": j["h"], "functions_encoded": CHECKS[pid].get("functions", []), "bounds": j["cfg"], "bounds_text": j["spec"].get("bounds", ""),
                    "arithmetic": "IEEE-754 doubles, bit-exact" if j["mode"] == "fp" else "exact real arithmetic",
                    "paths": j["paths"], "paths_completed": j["completed"], "paths_left": j["queue_left"], "timed_out": j["timeout"],
                    "solver_queries": j["queries"], "sat": j["sat"], "unsat": j["unsat"], "unknown": j["unknown"], "solver_s": j["solver_s"],
                    "assertions": j["asserts"], "reached": {k: v for k, v in j["reach"].items()}, "incomplete": j["incomplete"], "wall_s": j["wall_s"]} for j in runs]
    cov["unconfirmed_by_native_replay"] = [str(k) for k, _ in unconfirmed]
    cov["notes"] = notes
    cov["build_s"] = round(t_build, 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumptions", []) + COMMON_ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes:
        print("NOTE:", n)
    for k, f in unconfirmed:
        print(f"NOTE: solver counterexample not reproduced natively, not reported: {k} {f}")
    for key, f, out, m in kf:
        print(f"KNOWN-FINDING: property={pid} {m[0]['what']}")
    for key, f, out, _ in reported:
        print(f"VIOLATION property={pid} replay={f}")
        print(f"  {key[0]}: {key[1]}: {key[2]}  native: {out[-1] if out else ''}")
    print(f"[{pid}] {'VIOLATED' if reported else 'held on everything explored'}; exhaustive within bounds: {complete}; {time.time() - t0:.1f}s")
    return 1 if reported else 0


COMMON_ASSUME = [
    "The instrumented build is clang -O1 of the same sources; sampled paths are replayed on a plain g++ build.",
    "malloc never fails; the hash mixing step is an uninterpreted function of its operands.",
]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(OUT, exist_ok=True)
    if a[0] == "--setup":
        n = B.Ninja()
        ok, out = n.run(n.engine, os.path.join(B.BUILD, "setup.log"))
        print(out[-2000:] if not ok else "engine built")
        return 0 if ok else 2
    if a[0] == "--dev":
        ex = build([a[1]], "sym")
        if ex is None:
            return 2
        return subprocess.run([ex[a[1]]] + a[2:]).returncode
    if a[0] == "--nat":
        ex = build([a[1]], "nat")
        return 2 if ex is None else subprocess.run([ex[a[1]]] + a[2:], env=dict(env_cfg({}), SYM_CFG=os.environ.get("SYM_CFG", ""))).returncode
    if a[0] == "--replay":
        txt = open(a[1]).read()
        h = re.search(r"^# harness (\S+)", txt, re.M).group(1)
        cfg = json.loads(re.search(r"^# cfg (.*)$", txt, re.M).group(1))
        ex = build([h], "nat")
        rc, out = native(ex[h], a[1], cfg)
        print(out)
        return 0 if rc in (0, 77, 78) else 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return main_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
