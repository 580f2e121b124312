#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--job SUBSTR] [-v]

Decides a property: builds the overlay of /repo's current tree, executes the harness entries of the
property symbolically (engine/), replays counterexamples and sampled paths against the real code and
writes evidence/<property>.json. Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: no answer."""
import argparse, json, os, resource, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import overlay
from checks import CHECKS, TRUSTED

SOLVERS = {"z3": "z3 -in -smt2", "z3-new": "z3-new -in -smt2", "cvc5": "cvc5 --incremental --lang smt2 --produce-models"}


def say(*a):
    print(*a, flush=True)


def limit_memory(gb):
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def run_replay(exe, entry, path, timeout=60):
    """Returns (kind, lines): kind in ok, violation, assume, crash, timeout."""
    try:
        r = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=limit_memory(3))
    except subprocess.TimeoutExpired:
        return "timeout", []
    lines = r.stdout.splitlines()
    if r.returncode == 1 and any(l.startswith("VK violation") for l in lines):
        return "violation", lines
    if r.returncode == 3:
        return "assume", lines
    if r.returncode == 0:
        return "ok", lines
    return "crash", lines + [f"exit status {r.returncode}"] + r.stderr.splitlines()[-5:]


def write_replay(path, model, params, meta):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for m in meta:
            f.write(f"# {m}\n")
        for p in params:
            f.write(f"param {p}\n")
        for n, v in model:
            f.write(f"{n} {v}\n")


class Runner:
    def __init__(self, prop, tier, seed, verbose):
        self.prop, self.tier, self.seed, self.verbose = prop, tier, seed, verbose
        self.lock = threading.Lock()
        self.builds = {}
        self.results = []
        self.out = os.path.join(overlay.BUILD, "replay", prop)
        os.makedirs(self.out, exist_ok=True)
        self.stop = False

    def prebuild(self, groups):
        """Builds everything needed at once; returns errors by key."""
        def b(key):
            t = time.time()
            try:
                if key == "engine":
                    r = overlay.build_engine()
                else:
                    g, kind = key
                    r = overlay.build(g, native=kind != "sym", release=kind == "release")
                return key, r, None, time.time() - t
            except Exception as e:
                return key, None, str(e), time.time() - t
        keys = ["engine"] + [(g, "sym") for g in groups] + [(g, "dev") for g in groups]
        with ThreadPoolExecutor(8) as ex:
            for key, r, err, dt in ex.map(b, keys):
                self.builds[key] = (r, err)
                if self.verbose or err:
                    say(f"build {key}: {'FAILED' if err else 'ok'} {dt:.1f}s")
                if err:
                    say(err)

    def exe(self, group, kind):
        k = (group, kind)
        with self.lock:
            if k not in self.builds:
                try:
                    self.builds[k] = (overlay.build(group, native=True, release=kind == "release"), None)
                except Exception as e:
                    self.builds[k] = (None, str(e))
            return self.builds[k][0]

    def job(self, j):
        name = f"{j['entry']}({','.join(map(str, j['params']))})"
        res = {"job": name, "group": j["group"], "entry": j["entry"], "params": j["params"], "verdict": "undecided", "why": "", "engine": {}, "traces": 0}
        try:
            self.job_(j, name, res)
        except Exception:
            res["why"] = traceback.format_exc()[-1500:]
        with self.lock:
            self.results.append(res)
            e = res["engine"]
            if self.verbose or res["verdict"] != "holds":
                say(f"  {name}: {res['verdict']} {res['why']} paths={e.get('paths')} insts={e.get('insts')} queries={e.get('queries')} wall={e.get('wall_s', 0):.1f}s")
        return res

    def job_(self, j, name, res):
        if self.stop:
            res["why"] = "not run: a violation was found already"
            return
        eng, err = self.builds["engine"]
        ll, err2 = self.builds[(j["group"], "sym")]
        if not eng or not ll:
            res["why"] = "build failed"
            return
        out = os.path.join(self.out, name.replace(",", "_").replace("(", "-").replace(")", "") + f"-{j.get('solver', 'z3')}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [eng, ll, "--entry", j["entry"], "--out", out, "--limit", str(j["limit"]), "--samples", str(j.get("samples", 3)), "--solver", SOLVERS[j.get("solver", "z3")]]
        for p in j["params"]:
            cmd += ["--param", str(p)]
        for o, v in j.get("opts", {}).items():
            cmd += ["--" + o, str(v)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=j["limit"] + 60, preexec_fn=limit_memory(12))
        except subprocess.TimeoutExpired:
            res["why"] = "the engine ran out of time"
            return
        if not os.path.exists(out):
            res["why"] = "the engine failed: " + (r.stderr or r.stdout)[-400:]
            return
        e = res["engine"] = json.load(open(out))
        if e["status"] == "violated":
            v = e["violation"]
            path = out[:-5] + ".replay"
            write_replay(path, v["model"], j["params"], [f"property {self.prop}", f"group {j['group']}", f"entry {j['entry']}", "what " + v["what"].replace("\n", " ")])
            kinds = {}
            for kind in ("dev", "release"):
                exe = self.exe(j["group"], kind)
                if exe:
                    kinds[kind] = run_replay(exe, j["entry"], path)
            if any(k[0] in ("violation", "crash", "timeout") for k in kinds.values()):
                kind = [k for k in kinds if kinds[k][0] in ("violation", "crash", "timeout")][0]
                lines = kinds[kind][1]
                what = [l for l in lines if l.startswith("VK violation")] or lines[-1:] or [kinds[kind][0]]
                res["verdict"] = "violated"
                res["why"] = v["what"]
                res["replay"] = path
                res["native"] = {k: kinds[k][0] for k in kinds}
                res["native_what"] = what[0]
                with open(path, "a") as f:
                    f.write(f"# replayed natively ({kind} build): {what[0]}\n")
                    f.write("# again: python3 /verif/lib/overlay.py " + j["group"] + " native && /verif/build/" + j["group"] + "-native/target/debug/replay " + j["entry"] + " " + path + "\n")
                    for l in lines[-40:]:
                        f.write("# | " + l + "\n")
                self.stop = True
            else:
                res["why"] = "counterexample not reproduced by the real code: " + v["what"] + " native: " + str({k: kinds[k][0] for k in kinds})
            return
        if e["status"] != "holds":
            res["why"] = (e.get("error") or e["status"])[:600]
            return
        # sampled paths against the real code
        exe = self.exe(j["group"], "dev")
        if not exe:
            res["why"] = "no native build"
            return
        for i, s in enumerate(e.get("samples", [])):
            path = out[:-5] + f".sample{i}"
            write_replay(path, s["model"], j["params"], [])
            kind, lines = run_replay(exe, j["entry"], path)
            got = [l for l in lines if not l.startswith("VK ")]
            want = s["log"]
            if kind != "ok" or got != want:
                k = next((k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k] != want[k]), None)
                res["why"] = f"sampled path {i} differs from the real code: {kind}, line {k}: native {got[k:k+1] if k is not None else ''} engine {want[k:k+1] if k is not None else ''} {lines[-2:] if kind != 'ok' else ''}"
                return
            res["traces"] += 1
            os.remove(path)
        missing = [c for c in j.get("covers", []) if not e["covers"].get(c)]
        if missing:
            res["why"] = f"vacuous: not reached {missing}"
            return
        res["verdict"] = "holds"


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"KNOWN: property={prop} "):
                out.append(l[len(f"KNOWN: property={prop} "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[a.prop]
    jobs = [dict(j) for j in spec["jobs"] if a.tier == "thorough" or j["tier"] == "quick"]
    if a.job:
        jobs = [j for j in jobs if a.job in f"{j['entry']}({','.join(map(str, j['params']))})"]
    if a.tier == "thorough":
        for j in jobs:
            j["limit"] = max(j["limit"], j.get("tlimit", 0))
    r = Runner(a.prop, a.tier, seed, a.v)
    r.prebuild(sorted({j["group"] for j in jobs}))
    tb = time.time()
    jobs.sort(key=lambda j: -j.get("cost", 1))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(r.job, jobs))
    held = [x for x in r.results if x["verdict"] == "holds"]
    bad = [x for x in r.results if x["verdict"] == "violated"]
    und = [x for x in r.results if x["verdict"] == "undecided"]
    fns = sorted({f for x in held for f in x["engine"].get("functions", [])})
    assumes = sorted({f for x in held for f in x["engine"].get("assumes", [])})
    S = lambda k: sum(x["engine"].get(k, 0) or 0 for x in r.results)
    covers = {}
    for x in held:
        for c, n in x["engine"].get("covers", {}).items():
            covers[c] = covers.get(c, 0) + n
    samples = []
    for x in held:
        for s in x["engine"].get("samples", [])[:1]:
            samples.append({"job": x["job"], "inputs": s["model"][:40], "log": s["log"][:20]})
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths") + S("pruned") + S("forks"),
            "transitions": S("insts"),
            "traces_validated_against_impl": sum(x["traces"] for x in r.results),
            "samples": samples[:8],
            "paths_completed": S("paths"), "paths_pruned": S("pruned"),
            "assertions_checked": S("asserts"), "assertions_decided_by_solver": S("asserts_solver"),
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "solver_ms": S("solver_ms"),
            "max_query_ms": max([x["engine"].get("max_query_ms", 0) or 0 for x in r.results] or [0]),
            "covers": covers,
            "functions_encoded": len(fns), "functions": fns,
            "bounds": spec["bounds"],
            "jobs": [{"job": x["job"], "verdict": x["verdict"], "why": x["why"], **{k: x["engine"].get(k) for k in ("paths", "insts", "asserts", "queries", "solver_ms", "wall_s", "concretizations", "max_syms")}} for x in sorted(r.results, key=lambda x: x["job"])],
            "undecided": [x["job"] for x in und],
            "build_s": round(tb - t0, 1),
            "explanation": "states: symbolic states (completed paths, paths cut as infeasible, and forks); transitions: LLVM instructions of the real code executed symbolically; traces_validated_against_impl: sampled paths whose inputs were replayed by a native build of the same sources with equal observations.",
        },
        "assumptions": spec.get("assumptions", []) + TRUSTED + ["stub or bound: " + x for x in assumes],
        "wall_s": round(time.time() - t0, 1), "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    for k in known(a.prop):
        say(f"KNOWN-FINDING: property={a.prop} {k}")
    for x in und:
        say(f"INCOMPLETE property={a.prop} {x['job']}: {x['why']}")
    say(f"{a.prop} {a.tier}: {len(held)} jobs hold, {len(bad)} violated, {len(und)} undecided; {S('paths')} paths, {S('queries')} queries, {ev['wall_s']} s")
    if bad:
        for x in bad:
            say(f"  {x['job']}: {x['why']} / native: {x['native_what']}")
        say(f"VIOLATION property={a.prop} replay={bad[0]['replay']}")
        sys.exit(1)
    sys.exit(0 if held else 2)


if __name__ == "__main__":
    main()
