#!/usr/bin/env python3-vt
"""check.py PROP            decide one property on /repo's current working tree
   check.py replay FILE     run the failing case recorded in a replay file again"""
import sys, os, time, json, re, subprocess, multiprocessing as mp, threading, glob, importlib, hashlib, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "vc"))
sys.setrecursionlimit(30000)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVID = os.path.join(ROOT, "evidence")
HARN = os.path.join(ROOT, "harness")
if REPO != "/repo":        # development aid: judge a scratch copy, with everything written beside it
    EVID, HARN = REPO + ".evidence", REPO + ".harness"
    if __name__ == "__main__":
        shutil.copytree(os.path.join(ROOT, "harness"), HARN, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
        t = open(os.path.join(HARN, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(HARN, "Cargo.toml"), "w").write(t)

TRUST = [
    "z3 4.8+/cvc5 (SMT), Lean 4 kernel with Mathlib (where theorems are listed)",
    "own verification-condition generator in /verif/vc (parser, symbolic executor, loop-contract inference), which reads /repo/src on every run",
    "f64 treated as a real number; usize/i32 treated as mathematical integers inside their proved index ranges",
    "termination not proved (partial correctness)",
    "models of the standard library operations the code uses (Vec, Option, iterators, f64 methods)",
]

# ------------------------------------------------------------------------------------------------ dictionary
def dictionary():
    vals = set()
    for f in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True):
        try: t = open(f).read()
        except OSError: continue
        t = re.sub(r"//[^\n]*", "", t)
        i = t.find("#[cfg(test)]")
        if i >= 0: t = t[:i]
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)", t):
            try: vals.add(float(m.group(1).replace("_", "")))
            except ValueError: pass
    return sorted(v for v in vals if v == v and abs(v) < 1e300)

# ------------------------------------------------------------------------------------------------ known findings
def findings(prop):
    """{id: text} of the defects recorded (not repaired) for the property"""
    out = {}
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

# ------------------------------------------------------------------------------------------------ harness
class Harness(threading.Thread):
    def __init__(self, prop, secs, threads):
        super().__init__(daemon=True)
        self.prop, self.secs, self.threads = prop, secs, threads
        self.res, self.err, self.built = None, None, False
        self.bin = os.path.join(HARN, "target", "debug", "harness")
        self.dict = os.path.join(EVID, "dict-%s.txt" % prop)
    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARN, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            self.err = "harness does not build: " + p.stderr[-1500:]
            return False
        self.built = True
        return True
    def go(self, secs, seed, model=None):
        args = [self.bin, self.prop, str(seed), str(secs), self.dict] + ([model] if model else [])
        p = subprocess.run(args, capture_output=True, text=True, timeout=secs * 3 + 120, env=dict(os.environ, HTHREADS=str(self.threads), KNOWN=",".join(findings(self.prop))))
        try:
            return json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failure": None, "crash": (p.returncode, p.stderr[-500:])}
    def run(self):
        try:
            with open(self.dict, "w") as f: f.write("\n".join(repr(v) for v in dictionary()))
            if not self.build(): return
            self.res = self.go(self.secs, SEED)
        except Exception as e:
            self.err = "harness: %s" % e

# ------------------------------------------------------------------------------------------------ proof units
def worker(conn, uname, dim, filt, budget, gt):
    try:
        import unit, smt
        smt.STATS.update({k: 0 for k in smt.STATS})
        r = unit.run_unit(CRATE, unit.UNITS[uname], dim, budget=budget, goal_timeout=gt, filt=filt)
    except BaseException as e:
        import traceback
        r = {"unit": uname, "dim": dim, "goals": 0, "proved": 0, "failed": [], "error": "generator error: %s %s" % (type(e).__name__, traceback.format_exc()[-600:]), "by": {}, "fns": [], "loops": 0, "wall": 0, "solver": {}, "assumed": []}
    try: conn.send(r)
    except Exception: pass
    conn.close()

def run_units(jobs, budget, gt, par):
    """jobs: [(unit, dim, filter)]; each in its own process with a hard time limit"""
    out, live, todo = [], [], list(jobs)
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < par:
            u, d, f = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, u, d, f, budget, gt))
            p.start()
            b.close()
            live.append((p, a, u, d, time.time()))
        nl = []
        for (p, a, u, d, t0) in live:
            if a.poll(0):
                try: r = a.recv()
                except EOFError: r = None
                p.join(5)
                out.append(r or dead(u, d, "process ended without a result"))
            elif not p.is_alive():
                out.append(dead(u, d, "process ended without a result"))
            elif time.time() - t0 > budget + 20:
                p.kill(); p.join()
                out.append(dead(u, d, "time limit"))
            else:
                nl.append((p, a, u, d, t0))
        live = nl
        time.sleep(0.01)
    return out
def dead(u, d, why):
    return {"unit": u, "dim": d, "goals": 0, "proved": 0, "failed": [], "error": why, "by": {}, "fns": [], "loops": 0, "wall": 0, "solver": {}, "assumed": []}

class Lean(threading.Thread):
    def __init__(self, files):
        super().__init__(daemon=True)
        self.files, self.ok, self.out, self.theorems, self.wall = files, True, "", [], 0
    def run(self):
        t = time.time()
        for f in self.files:
            p = os.path.join(ROOT, "lean", f)
            src = open(p).read()
            if re.search(r"\b(sorry|admit|axiom|native_decide)\b", re.sub(r"--[^\n]*|/-.*?-/", "", src, flags=re.S)):
                self.ok, self.out = False, "sorry/axiom in " + f
                continue
            r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=600)
            if r.returncode != 0:
                self.ok = False
                self.out += r.stdout[-800:] + r.stderr[-800:]
            self.theorems += [os.path.splitext(f)[0] + ":" + m for m in re.findall(r"^theorem\s+(\S+)", src, flags=re.M)]
        self.wall = time.time() - t

# ------------------------------------------------------------------------------------------------ decision
def num(s):
    s = str(s).strip().replace("?", "")
    try:
        if "/" in s:
            a, b = s.split("/")
            return float(a) / float(b)
        return float(s)
    except ValueError:
        return None

def decide(prop):
    from props import PROPS
    pr = PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    thorough = TIER == "thorough"
    hsecs = 60 if thorough else pr.get("search", 6)
    hz = Harness(prop, hsecs, 8 if thorough else 3)
    hz.start()
    ln = Lean(pr.get("lean", []))
    ln.start()
    global CRATE
    perr = None
    try:
        import unit, exec as ex_
        for f in sorted(glob.glob(os.path.join(ROOT, "vc", "u_*.py"))): importlib.import_module(os.path.basename(f)[:-3])
        CRATE = ex_.Crate(REPO)
        unit.KNOWN = set(findings(prop))
    except Exception as e:
        perr = "source outside the parsed language: %s: %s" % (type(e).__name__, str(e)[:400])
    budget = 300 if thorough else pr.get("budget", 120)
    gt = 20000 if thorough else pr.get("goal_timeout", 8000)
    names, bnames = [], []
    if perr is None:
        for pat, filt in pr["units"]:
            rx = re.compile(pat + r"\Z")
            hit = [u for u in unit.UNITS if rx.match(u)]
            if not hit: raise SystemExit("no unit matches " + pat)
            names += [(u, None, filt) for u in hit if not unit.UNITS[u].bounded]
            bnames += [(u, d, filt) for u in hit if unit.UNITS[u].bounded for d in unit.UNITS[u].dims]
    res = run_units(names + bnames, budget, gt, 6) if names or bnames else []
    filt_of = {u: f for u, _, f in names + bnames}
    bres = [r for r in res if r["dim"] is not None]      # bounded by design
    res = [r for r in res if r["dim"] is None]
    ln.join(); hz.join()
    isbad = lambda r: r["error"] or r["proved"] < r["goals"] or r["goals"] == 0
    failing = [r for r in res + bres if isbad(r)]
    fail = hz.res.get("failure") if hz.res else None
    bounded, open_obl, uns = [], [], []
    if failing and not fail:
        # bounded stand-in for the units the proof does not cover
        jobs = [(r["unit"], d, filt_of[r["unit"]]) for r in failing if r["dim"] is None for d in unit.UNITS[r["unit"]].dims]
        bounded = run_units(jobs, 90 if not thorough else 240, 6000, 7)
        for r in failing:
            bs = [b for b in bounded + bres if b["unit"] == r["unit"]]
            okb = [b for b in bs if not b["error"] and b["goals"] > 0 and b["proved"] == b["goals"]]
            refuted = lambda b: any(f["verdict"] == "refuted" for f in b["failed"])
            badb = [b for b in bs if refuted(b)]
            if badb or (refuted(r) and not okb):
                open_obl.append((r, badb))
            elif not okb:
                uns.append(r)
        # replay counterexample values against the real code
        model = {}
        for r, badb in open_obl:
            for b in badb + [r]:
                for f in b["failed"]:
                    for k, v in f["model"].items():
                        x = num(v)
                        if x is not None: model.setdefault(k, x)
        if hz.built:
            hz.threads = 8
            mf = os.path.join(EVID, "model-%s.txt" % prop)
            with open(mf, "w") as f: f.write("\n".join("%s %r" % kv for kv in model.items()))
            more = hz.go(40 if not thorough else 120, SEED + 1, mf if model else None)
            fail = more.get("failure")
            if fail: fail["model_file"] = dict(model)
            for k in ("evaluations", "distinct_nontrivial"): hz.res[k] = hz.res.get(k, 0) + more.get(k, 0)
    # ---------------------------------------------------------------- evidence
    obl = sum(r["goals"] for r in res)
    dis = sum(r["proved"] for r in res)
    by = {}
    for r in res:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    fns = sorted({f for r in res for f in r["fns"]})
    fns = sorted(set(fns) | {f for r in bres for f in r["fns"]})
    proved = perr is None and not failing and ln.ok and bool(res) and not bres
    seen = sorted({k for r in res for k in r.get("known", [])})
    cov = {
        "known_findings": seen,
        "obligations": obl, "discharged": dis,
        "checker_cmd": "VERIF_TIER=%s VERIF_SEED=%d ./check.py %s" % (TIER, SEED, prop),
        "trusted_base": TRUST + pr.get("trust", []),
        "discharged_by": by,
        "solver_s": round(sum(v for r in res for k, v in r.get("solver", {}).items() if k.endswith("time") or k == "t"), 2),
        "functions_under_contract": fns,
        "loops_with_contract": sum(r["loops"] for r in res),
        "units": [{"unit": r["unit"], "obligations": r["goals"], "discharged": r["proved"], "wall_s": round(r["wall"], 2), **({"note": r["error"]} if r["error"] else {})} for r in res],
        "lean_theorems": ln.theorems, "lean_ok": ln.ok, "lean_wall_s": round(ln.wall, 1),
        "replay_search": {"evaluations": (hz.res or {}).get("evaluations", 0), "distinct_nontrivial": (hz.res or {}).get("distinct_nontrivial", 0), "note": hz.err or "concrete search on the crate built from /repo; supports, never replaces, the proof"},
    }
    if bounded or bres:
        cov["bounded_stand_ins"] = [{"unit": b["unit"], "dimension": b["dim"], "obligations": b["goals"], "discharged": b["proved"], "note": b["error"] or "bounded, not counted as proved"} for b in bres + bounded]
    if not ln.ok: cov["lean_output"] = ln.out
    if perr: cov["front_end"] = perr
    level = "proof" if proved else "exploration"
    if not proved:
        cov["evaluations"] = (hz.res or {}).get("evaluations", 0)
        cov["distinct_nontrivial"] = (hz.res or {}).get("distinct_nontrivial", 0)
        cov["rule"] = "random and dictionary inputs for this property's scenario; trivial when the scenario's precondition fails"
        cov["samples"] = (hz.res or {}).get("samples", [])
        cov["explanation"] = "not every obligation is discharged for all inputs on this tree; the rest is bounded"
    viol = None
    replay = os.path.join(EVID, "replay-%s.json" % prop)
    if fail:
        viol = "VIOLATION property=%s replay=%s" % (prop, replay)
        json.dump({"property": prop, "kind": "failing input on the real code", "what": fail["what"], "scenario": fail["scenario"], "inputs": fail["inputs"], "case": fail["case"], "model": fail.get("model_file", {}),
                   "dictionary": dictionary(), "replay_cmd": "./check.py replay %s" % replay,
                   "failed_obligations": [{"unit": r["unit"], **f} for r in failing for f in r["failed"]][:20]}, open(replay, "w"), indent=1)
    elif open_obl or not ln.ok:
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        json.dump({"property": prop, "kind": "obligation not discharged", "lean": ln.out,
                   "failed_obligations": [{"unit": r["unit"], "dim": b["dim"], **f} for r, bb in open_obl for b in [r] + bb for f in b["failed"]][:40]}, open(replay, "w"), indent=1)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": pr.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations in %d units, %d functions; lean %s; search %s cases; %.1f s; level %s" % (prop, dis, obl, len(res), len(fns), "ok" if ln.ok else "FAILED", (hz.res or {}).get("evaluations", 0), time.time() - t0, level))
    if hz.err: print("  " + hz.err[:600])
    if perr: print("  " + perr)
    for r in failing:
        if r["error"]: print("  unit %s: %s" % (r["unit"], r["error"][:300]))
        for f in r["failed"][:6]: print("  unit %s: NOT DISCHARGED (%s) %s | %s" % (r["unit"], f["verdict"], f["fn"], f["obligation"]))
    for b in bres + bounded: print("  bounded %s dim %s: %d/%d %s" % (b["unit"], b["dim"], b["proved"], b["goals"], (b["error"] or "")[:200]))
    for k in seen: print("KNOWN-FINDING: property=%s %s %s" % (prop, k, findings(prop)[k]))
    if viol:
        if fail: print("  failing input: %s" % fail["what"][:800])
        print(viol)
        return 1
    return 0

def replay(path):
    d = json.load(open(path))
    print(json.dumps({k: d[k] for k in d if k != "dictionary"}, indent=1))
    if "case" not in d: return 0
    h = Harness(d["property"], 1, 1)
    if not h.build(): print(h.err); return 2
    df, mf = path + ".dict", path + ".model"
    open(df, "w").write("\n".join(repr(v) for v in d["dictionary"]))
    open(mf, "w").write("\n".join("%s %r" % kv for kv in d["model"].items()))
    return subprocess.run([h.bin, d["property"], "case", str(d["case"]), df, mf], env=dict(os.environ, KNOWN=",".join(findings(d["property"])))).returncode

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    sys.exit(decide(sys.argv[1]))
