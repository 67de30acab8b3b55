"""Verify one function against its contract."""
import sys, time, traceback
from .engine import *
from .exec import Exec
from . import spec as SP

class VEngine(Exec):
    def __init__(self, prog, contracts, opts):
        super().__init__(prog, contracts, opts)
        self.gids = {}; self.noctr = None; self.depth0 = 1; self.nloops = 0; self.E = None
        self.cur = None
    def spec_candidates(self, lc):
        out = []
        for c in (self.E.cands if self.E is not None else ()):
            r = c(lc)
            if r: out += r
        return out

def verify(prog, name, opts=None):
    """returns a result dictionary; never raises"""
    full = name; name, _, case = name.partition("#")
    con = SP.CONTRACTS[name]
    t0 = time.time()
    hit = prog.lookup(name, None)
    res = {"function": full, "status": "?", "obligations": [], "time": 0, "reason": "", "assumptions": [], "inlined": [], "callees": [], "loops": {}}
    if hit is None:
        res["status"] = "missing"; res["reason"] = "function not found in the current source"
        return res
    mod, fn = hit
    o = dict(opts or {}); o.update(con.opts)
    if case: o["case"] = int(case)
    while True:
        eng = VEngine(prog, SP.CONTRACTS, o); eng.Contract = SP.Contract; eng.no_form = None; why = None
        try: v = SP.Verifier(eng, con, mod, fn); v.run()
        except Unsupported as e: why = e
        except Budget: why = "budget"
        except Exception as e: why = e
        n = eng.no_form
        if not isinstance(why, Unsupported) or n is None or n in o.get("by_body", ()) or SP.CONTRACTS[n].opts.get("recursive") or n == name: break
        o["by_body"] = frozenset(o.get("by_body", ())) | {n}
    try:
        if why == "budget": raise Budget()
        if why is not None: raise why
    except Unsupported as e: res["status"] = "unsupported"; res["reason"] = str(e); res["trace"] = traceback.format_exc()
    except Budget:
        nf = [x for x in eng.obl.values() if x.status != "proved"]
        if not nf: res["status"] = "unsupported"; res["reason"] = "time budget exhausted"
    except RecursionError: res["status"] = "unsupported"; res["reason"] = "recursion limit"; res["trace"] = traceback.format_exc()
    except Exception as e:
        res["status"] = "unsupported"; res["reason"] = "internal: %r" % e; res["trace"] = traceback.format_exc()
    obs = list(eng.obl.values())
    bad = [x for x in obs if x.status != "proved"]
    if bad: res["status"] = "failed"
    elif res["status"] == "?": res["status"] = "proved"
    res["obligations"] = [{"name": x.name, "status": x.status, "time": round(x.time, 3), "detail": x.detail, "model": str(x.model)[:3000] if x.model is not None else None, "line": x.line} for x in obs]
    res["time"] = round(time.time() - t0, 2)
    res["queries"] = eng.ctx.stats.queries; res["solver_time"] = round(eng.ctx.stats.time, 2)
    res["assumptions"] = sorted(eng.assumptions); res["inlined"] = sorted(eng.inlined); res["callees"] = sorted(eng.used_contracts)
    res["loops"] = eng.loopinfo; res["paths"] = eng.returns
    return res

def jobs_of(name):
    """a contract verified by cases gives one job per case"""
    n = SP.CONTRACTS[name].opts.get("cases")
    return [name] if not n else ["%s#%d" % (name, i) for i in range(n)]

def show(r, verbose=False):
    n = len(r["obligations"]); p = sum(1 for o in r["obligations"] if o["status"] == "proved")
    print("%-34s %-11s %3d/%3d  %6.1fs  q=%s paths=%s %s" % (r["function"], r["status"], p, n, r["time"], r.get("queries"), r.get("paths"), r["reason"]))
    for o in r["obligations"]:
        if o["status"] != "proved" or verbose: print("    %-8s %s (line %s)\n        %s" % (o["status"], o["name"], o["line"], (o["detail"] or "").replace("\n", "\n        ")[:1500]))
    if verbose and r.get("trace"): print(r["trace"])
