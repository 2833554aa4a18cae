"""Check context: obligations, evidence, verdicts, replay files."""
import json, os, sys, time, traceback
from . import frontend as F

RESULTS = os.environ.get("VERIF_OUT", os.path.join(F.VERIF, "evidence"))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obls = []            # dict(name, status, backend, time, where)
        self.assumptions = []
        self.functions = {}       # function under contract -> number of obligations
        self.inlined = set()
        self.models = set()
        self.failures = []        # dict(name, detail, replay or None)
        self.known = []
        self.bounded = []         # stand-ins, never counted as proved
        self.notes = []
        self.solver_time = 0.0
        self.vacuity = 0
        self.engine_checks = 0

    # ---- obligations
    def discharged(self, name, backend, where=None, t=0.0):
        self.obls.append(dict(name=name, status="discharged", backend=backend, where=where, t=round(t, 3)))
        if where:
            self.functions[where] = self.functions.get(where, 0) + 1

    def failed(self, name, detail, where=None, replay=None, confirmed=False, key=None):
        """an obligation the verifier does not accept; replay: dict written to the replay file;
        key: identity of the failure, matched against the known findings"""
        self.obls.append(dict(name=name, status="failed", where=where))
        if where:
            self.functions[where] = self.functions.get(where, 0) + 1
        self.failures.append(dict(name=name, detail=detail, where=where, replay=replay or {}, confirmed=confirmed,
                                  key=key or name))

    def stand_in(self, name, bound, ok=True, where=None):
        self.bounded.append(dict(name=name, bound=bound, where=where))

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)

    def vacuity_ok(self, n=1):
        self.vacuity += n

    def log(self, *a):
        print("  ", *a, flush=True)


def known_findings(prop):
    p = os.path.join(F.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == prop:
                    out.append(d)
    return out


def demangle(names):
    import subprocess
    p = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
    return p.stdout.split("\n")[:len(names)]


def finish(ctx):
    """verdict, evidence, VIOLATION / KNOWN-FINDING lines; returns the exit code"""
    os.makedirs(RESULTS, exist_ok=True)
    known = known_findings(ctx.prop)
    viol = []
    for f in ctx.failures:
        k = next((k for k in known if k["key"] == f["key"]), None)
        if k is not None:
            if k["what"] not in ctx.known:
                ctx.known.append(k["what"])
        else:
            viol.append(f)
    for w in ctx.known:
        print(f"KNOWN-FINDING: property={ctx.prop} {w}")
    nd = sum(1 for o in ctx.obls if o["status"] == "discharged")
    by = {}
    for o in ctx.obls:
        if o["status"] == "discharged":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "proof",
        "coverage": {
            "obligations": len(ctx.obls), "discharged": nd,
            "checker_cmd": f"python3-vt /verif/check {ctx.prop} --tier {ctx.tier}",
            "trusted_base": ["clang-18 front end and its optimiser at the level used (O0 with mem2reg/sroa, or O1)",
                             "/verif/engine (verification-condition generator, real-arithmetic normal forms)",
                             "z3 / z3-new (cvc5 cross-check in the thorough tier where stated)"],
            "discharged_by_back_end": by,
            "functions_under_contract": sorted(ctx.functions),
            "obligations_per_function": ctx.functions,
            "functions_executed_in_place": len(ctx.inlined),
            "external_models": sorted(ctx.models)[:200],
            "solver_seconds": round(ctx.solver_time, 2),
            "vacuity_checks_passed": ctx.vacuity,
            "engine_self_checks_passed": ctx.engine_checks,
            "bounded_stand_ins": ctx.bounded,
            "front_end_rewrites": sorted(set(F.rewrites)),
            "notes": ctx.notes,
            "obligation_list": [o["name"] + ": " + o["status"] for o in ctx.obls][:2000],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(viol),
    }
    code = 0
    if viol:
        code = 1
        # a confirmed failing input first
        viol.sort(key=lambda f: not f["confirmed"])
        f = viol[0]
        rp = os.path.join(RESULTS, f"{ctx.prop}.replay.json")
        with open(rp, "w") as g:
            json.dump({"property": ctx.prop, "obligation": f["name"], "function": f["where"], "detail": f["detail"],
                       "replay": f["replay"], "confirmed_on_real_code": f["confirmed"],
                       "all_failed_obligations": [dict(name=v["name"], detail=str(v["detail"])[:600], confirmed=v["confirmed"]) for v in viol][:50],
                       "how": f"python3-vt /verif/check replay {rp}"}, g, indent=1, default=str)
        for v in viol[:12]:
            print(f"  FAILED obligation {v['name']}" + (f" in {v['where']}" if v["where"] else "") + f": {str(v['detail'])[:400]}")
        tail = "" if f["confirmed"] else " no-failing-input-found"
        print(f"VIOLATION property={ctx.prop} replay={rp}{tail}")
    with open(os.path.join(RESULTS, f"{ctx.prop}.json"), "w") as g:
        json.dump(ev, g, indent=1, default=str)
    print(f"{ctx.prop} [{ctx.tier}]: {nd}/{len(ctx.obls)} obligations discharged {by}, {len(ctx.functions)} functions under contract, "
          f"{len(ctx.bounded)} bounded stand-ins, {ev['wall_s']} s, {'VIOLATION' if code else 'ok'}")
    return code
