#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS]

Decides one property by bounded model checking of /repo's current code.
Exit 0: every query was discharged.  Exit 1: a counterexample that reproduces natively (VIOLATION
line).  Exit 2: anything else (inconclusive, tool failure)."""
import argparse, concurrent.futures as cf, json, os, re, shutil, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmc
from bmc import Inconclusive, VERIF
from spec import SPEC, COMMON_ASSUMPTIONS

OUT = f"{VERIF}/out"


class Replayer:
    """Builds the harness crate natively (dev and release) on demand and runs models on it."""

    def __init__(self, prop, scratch, left):
        self.prop, self.scratch, self.left = prop, scratch, left
        self.bins, self.lock = {}, threading.Lock()

    def binary(self, config, profile):
        with self.lock:
            key = (config, profile)
            if key not in self.bins:
                tgt = f"{self.scratch}/native-{config}"
                cmd = ["cargo", "build", "--offline", "--bin", "replay", "--no-default-features", "--features",
                       f"c_{config},{self.prop.lower()}", "--target-dir", tgt]
                if profile == "release":
                    cmd.append("--release")
                rc, o = bmc.run(cmd, min(300, self.left()), cwd=f"{self.scratch}/crate-{config}",
                                extra_env={"RUSTUP_TOOLCHAIN": "stable"})
                if rc != 0:
                    raise Inconclusive(f"native build for replay failed ({rc}): {o[-2000:]}")
                self.bins[key] = f"{tgt}/{'release' if profile == 'release' else 'debug'}/replay"
            return self.bins[key]

    def run(self, config, name, vals, profile):
        b = self.binary(config, profile)
        rc, o = bmc.run([b, name, *map(str, vals)], 20, mem_gb=4, extra_env={"RUST_BACKTRACE": "0", "HV_ALLOC_LIMIT": str(bmc.ALLOC_LIMIT or 0)})
        if rc is None:
            return "hang", "no result within 20 s"
        if rc == 0 and "HELD" in o:
            return "held", o[-1500:]
        if rc == 77:
            return "assumption", o[-300:]
        return "broken", f"exit {rc}: " + o[-1500:]


def decide(h, scratch, tier, replayer, left):
    """Runs one harness to a verdict."""
    t0 = time.time()
    rec = {"harness": h["name"], "config": h["config"], "unwind": h["unwind"], "queries": 0, "solver_s": 0.0, "symex_s": 0.0,
           "vccs": 0, "steps": 0, "solves": 0, "checks": 0, "covers": {}, "verdict": "?", "retries": 0}
    try:
        goto = bmc.link(h, scratch, min(300, left()))
        rec["functions"] = sorted(bmc.functions(goto, h, 60))
        rec["cut"] = h["cut"]
        u, hints, res = h["unwind"], h["hints"], None
        for attempt in range(4):
            rec["unwind"], rec["hints"] = u, hints
            res = bmc.cbmc(goto, h, u, hints, min(left(), 780), 14)
            rec["queries"] += 1
            if res["status"] != "ok":
                rec["verdict"] = "inconclusive"
                rec["why"] = f"cbmc {res['status']} after {res['wall']:.0f} s {res.get('msg', '')}"
                return rec
            for k in ("solver_s", "symex_s", "vccs", "steps", "solves"):
                rec[k] += res[k]
            bad, unw, inc, cov = bmc.split(res["results"])
            rec["checks"] = len([r for r in res["results"] if bmc.pclass(r["property"]) not in ("cover",)])
            if bad or not unw or attempt == 3:
                break
            rec["retries"] += 1
            rec.setdefault("loops", []).append(sorted({h["names"].get(r["property"].rsplit(".", 2)[0], r["property"]) for r in unw})[:4])
            if hints and all(bmc.hinted(h, r["property"]) for r in unw):
                hints = False
            else:
                u *= 2
        covp = cov.pop("_p", {})
        rec["covers"] = cov
        suspects = [("violation", r) for r in bad] or [("nontermination", r) for r in unw]
        notes = []
        for what, r in suspects[:6]:
            tr = bmc.cbmc(goto, h, rec["unwind"], rec["hints"], min(left(), 600), 20, trace_for=[r["property"]])
            rec["queries"] += 1
            if tr["status"] != "ok":
                notes.append(f"{r['property']}: trace {tr['status']} {tr.get('msg', '')}")
                continue
            steps = next((x.get("trace") for x in tr["results"] if x["property"] == r["property"] and x.get("trace")), None)
            if not steps:
                notes.append(f"{r['property']}: no trace")
                continue
            vals = bmc.model(steps)
            outs = {p: replayer.run(h["config"], h["name"], vals, p) for p in ("dev", "release")}
            rep = [p for p, (s, _) in outs.items() if s == "broken" or (s == "hang")]
            if rep:
                os.makedirs(OUT, exist_ok=True)
                path = f"{OUT}/{replayer.prop}-{h['config']}-{h['name']}.json"
                json.dump({"property": replayer.prop, "config": h["config"], "harness": h["name"], "check": r["property"],
                           "description": r.get("description", ""), "location": r.get("sourceLocation"),
                           "values": vals, "reproduced_in": rep, "native": {p: t for p, (_, t) in outs.items()},
                           "rerun": f"python3 {VERIF}/tools/replay.py {path}"}, open(path, "w"), indent=1)
                rec.update(verdict="violation", replay=path, check=r["property"], description=r.get("description", ""),
                           native=outs[rep[0]][1], reproduced_in=rep)
                return rec
            notes.append(f"{r['property']} ({r.get('description','')}): model {vals} does not reproduce natively: { {p: s for p, (s, _) in outs.items()} }")
        if suspects or inc:
            rec["verdict"] = "inconclusive"
            rec["why"] = "; ".join(notes + [f"{r['property']}: {r.get('description','')} {r['status']}" for r in inc[:5]])
            return rec
        dead = [k for k, v in cov.items() if not v]
        if dead:
            rec["verdict"] = "inconclusive"
            rec["why"] = f"vacuous: never reached {dead}"
            return rec
        if not cov:
            rec["verdict"] = "inconclusive"
            rec["why"] = "no reachability witness"
            return rec
        rec["verdict"] = "holds"
        if tier == "thorough":
            # Validate the encoding: the solver's witnesses must behave the same natively.
            for label, plist in covp.items():
                hit = [p for p, st in plist if st == "FAILURE"]
                tr = bmc.cbmc(goto, h, rec["unwind"], rec["hints"], min(left(), 300), 20, trace_for=[hit[0]])
                if tr["status"] != "ok":
                    continue
                steps = next((x.get("trace") for x in tr["results"] if x["property"] == hit[0] and x.get("trace")), None)
                if not steps:
                    continue
                st, o = replayer.run(h["config"], h["name"], bmc.model(steps), "dev")
                if st != "held" or f"COVER {label.removeprefix('cover condition: ')}" not in o:
                    rec["verdict"] = "inconclusive"
                    rec["why"] = f"witness {label!r} {bmc.model(steps)} behaves differently natively: {st} {o}"
                    return rec
                rec["witnesses_replayed"] = rec.get("witnesses_replayed", 0) + 1
        return rec
    except Inconclusive as e:
        rec["verdict"], rec["why"] = "inconclusive", str(e)
        return rec
    finally:
        rec["wall_s"] = round(time.time() - t0, 1)
        try:
            os.remove(f"{scratch}/{h['config']}-{h['name']}.goto")
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--config")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sp = SPEC[prop]
    bmc.ALLOC_LIMIT = sp.get("alloc_limit")
    t0 = time.time()
    budget = 850 if tier == "quick" else float(os.environ.get("HV_BUDGET_S", 7200))
    left = lambda: max(1.0, budget - (time.time() - t0))
    base = os.environ.get("HV_SCRATCH") or f"{VERIF}/build"
    os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"{prop}-", dir=base)
    recs, problems = [], []
    try:
        configs = sp["configs"] + (sp.get("thorough_configs", []) if tier == "thorough" else [])
        if a.config:
            configs = [a.config]
        replayer = Replayer(prop, scratch, left)
        hs = []
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(bmc.encode, prop, c, scratch, min(400, left()), int(os.environ.get("HV_MIR", sp.get(f"mir_{c}", sp.get("mir", 1))))) for c in configs]:
                hs += f.result()
        # harnesses named slow_* belong to the thorough tier only
        if tier != "thorough":
            hs = [h for h in hs if not h["name"].startswith("slow_")]
        if a.only:
            hs = [h for h in hs if re.search(a.only, h["name"])]
        for h in hs:
            h["hints"] = sp.get("hints", True)
            h["loop_hints"] = [(re.compile(x), n) for x, n in sp.get("loop_hints", [])]
        heavy = sp.get("heavy", [])
        hs.sort(key=lambda h: (heavy.index(h["name"]) if h["name"] in heavy else 99, h["name"]))
        stop = False
        with cf.ThreadPoolExecutor(int(os.environ.get("HV_JOBS", "8"))) as ex:
            futs = {ex.submit(decide, h, scratch, tier, replayer, left): h for h in hs}
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                r = f.result()
                recs.append(r)
                if a.v or r["verdict"] != "holds":
                    print(f"[{time.time()-t0:6.1f}s] {r['config']}/{r['harness']}: {r['verdict']} wall={r['wall_s']} symex={r['symex_s']:.1f} solver={r['solver_s']:.1f} steps={r['steps']} checks={r['checks']} retries={r['retries']} {r.get('loops','')} {r.get('why', '')[:1500]} {r.get('check','')} {r.get('description','')}", flush=True)
                if r["verdict"] == "violation" and not stop:
                    # one reproduced counterexample settles the check
                    stop = True
                    for g in futs:
                        g.cancel()
                    bmc.kill_all()
        if not hs:
            problems.append("no harness")
    except Inconclusive as e:
        problems.append(str(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol = [r for r in recs if r["verdict"] == "violation"]
    inc = [r for r in recs if r["verdict"] == "inconclusive"]
    fns = sorted({f for r in recs for f in r.get("functions", [])})
    done = [r for r in recs if r["verdict"] == "holds"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": f"Bounded symbolic execution (Kani code generation of /repo's current source, decided by CBMC with the CaDiCaL SAT solver). "
                           f"{len(done)} of {len(recs)} harnesses discharged for every input within the bounds; unwinding assertions on. Bounds: {sp['bounds']} Outside the bounds: {sp['outside']}",
            "exhaustive": False,
            "harnesses": len(recs), "harnesses_holding": len(done),
            "queries_discharged": sum(r["queries"] for r in done),
            "checks_decided": sum(r["checks"] for r in done),
            "vccs": sum(r["vccs"] for r in done), "ssa_steps": sum(r["steps"] for r in done),
            "sat_calls": sum(r["solves"] for r in done),
            "solver_s": round(sum(r["solver_s"] for r in recs), 2), "symex_s": round(sum(r["symex_s"] for r in recs), 2),
            "reachability_witnesses": sum(sum(1 for v in r["covers"].values() if v) for r in recs),
            "witnesses_replayed_natively": sum(r.get("witnesses_replayed", 0) for r in recs),
            "configurations": sorted({r["config"] for r in recs}),
            "functions_encoded": len(fns), "functions": fns[:400],
            "bodies_cut": sorted({c for r in recs for c in r.get("cut", [])}),
            "per_harness": [{k: r.get(k) for k in ("harness", "config", "verdict", "unwind", "checks", "vccs", "steps", "symex_s", "solver_s", "wall_s", "covers", "why", "check", "description")} for r in sorted(recs, key=lambda r: (r["config"], r["harness"]))],
        },
        "assumptions": COMMON_ASSUMPTIONS + sp.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for r in viol:
        print(f"  {r['config']}/{r['harness']}: {r['description']} ({r['check']}), reproduced in {r['reproduced_in']}: {r['native'].strip()[:600]}")
        print(f"VIOLATION property={prop} replay={r['replay']}")
    if viol:
        sys.exit(1)
    if inc or problems:
        for p in problems + [f"{r['config']}/{r['harness']}: {r.get('why','')}" for r in inc]:
            print(f"INCONCLUSIVE {prop}: {p}")
        sys.exit(2)
    print(f"HOLDS property={prop} harnesses={len(done)} checks={sum(r['checks'] for r in done)} solver_s={ev['coverage']['solver_s']} wall_s={ev['wall_s']}")


if __name__ == "__main__":
    main()
