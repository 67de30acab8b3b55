#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]
Regenerates every proof obligation of the property from the current source (clang IR), discharges them function by
function, and runs the cross-check harness on the real code. See DESIGN.md."""
import sys, os, re, json, time, argparse, importlib, subprocess, tempfile, shutil, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import modules as M

SAN = ["-std=gnu11", "-w", "-g", "-O1", "-fsanitize=address,undefined",
       "-fno-sanitize=alignment,vla-bound,nonnull-attribute,pointer-overflow,function,vptr,float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-builtin"]
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")

def log(*a): print(*a); sys.stdout.flush()

# ---------------------------------------------------------------- proof side
def job(P, kind, name, opts, conn):
    try:
        if kind == "bv":
            from hvc import bv; r = bv.verify(P, name, opts)
        else:
            from hvc import driver; r = driver.verify(P, name, opts)
    except BaseException as e:
        r = {"function": name, "status": "unsupported", "reason": "internal: %r" % (e,), "obligations": [], "time": 0, "callees": []}
    r["kind"] = kind
    try: conn.send(r)
    except Exception as e: conn.send({"function": name, "status": "unsupported", "reason": "result not transferable", "obligations": [], "time": 0, "callees": [], "kind": kind})
    conn.close()

def run_jobs(P, jobs, opts, deadline, width, more=None):
    """jobs: list of (kind, name); more(result) -> further jobs"""
    ctx = mp.get_context("fork"); queue = list(jobs); running = []; out = []
    while queue or running:
        while queue and len(running) < width:
            k, n = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=job, args=(P, k, n, opts, b)); p.start(); b.close()
            running.append((p, a, k, n, time.time()))
        mp.connection.wait([a for _, a, *_ in running], 0.5)
        keep = []
        for p, a, k, n, t in running:
            r = None
            if a.poll():
                try: r = a.recv()
                except EOFError: r = {"function": n, "status": "unsupported", "reason": "verifier process ended", "obligations": [], "time": 0, "callees": [], "kind": k}
            elif time.time() > deadline or time.time() - t > opts["budget"] + 60:
                p.kill(); r = {"function": n, "status": "unsupported", "reason": "time limit", "obligations": [], "time": round(time.time() - t, 1), "callees": [], "kind": k}
            if r is None: keep.append((p, a, k, n, t)); continue
            p.join(); a.close(); out.append(r)
            if more: queue += more(r)
        running = keep
    return out

# ---------------------------------------------------------------- harness side
class Harness:
    def __init__(self, name, repo, work):
        self.name = name; self.exe = os.path.join(work, "oracle_" + name); self.err = None
        self.cmd = ["clang"] + SAN + ["-I" + repo, os.path.join(HERE, "oracles", name + ".c")] + \
                   [os.path.join(repo, s) for s in M.ORACLE[name]] + ["-o", self.exe, "-lm"] + WRAP
        self.iters = 0; self.runs = 0; self.secs = 0
    def build(self):
        p = subprocess.run(self.cmd, capture_output=True, text=True)
        if p.returncode: self.err = p.stderr[-2000:]
        return p.returncode == 0
    def start(self, prop, seed, ms):
        return subprocess.Popen([self.exe, prop, str(seed), str(ms)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/")
    def finish(self, prop, seed, ms, p):
        """None, or the failure text"""
        try: o, e = p.communicate(timeout=ms / 1000 + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); return None
        o = o.decode(errors="replace"); e = e.decode(errors="replace")
        self.runs += 1; self.secs += ms / 1000
        if p.returncode == 0:
            self.iters += int(o.rsplit("iterations=", 1)[1]); return None
        if p.returncode in (2, -9, -15, 137): return None      # no such case, or ended from outside
        return "command: %s %s %d %d\nbuilt with: %s\nexit status %d\n%s\n%s" % (self.exe, prop, seed, ms, " ".join(self.cmd), p.returncode, o[-6000:], e[-6000:])

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default="/repo"); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--proof-only", action="store_true"); ap.add_argument("--oracle-only", action="store_true")
    A = ap.parse_args(); t0 = time.time(); prop = A.prop; thorough = A.tier == "thorough"
    specs, oracles = M.PROPS[prop][:2]
    work = tempfile.mkdtemp(prefix="hvc_"); width = max(2, min(8, os.cpu_count() or 2))
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    try: rc = run(A, prop, thorough, specs, oracles, work, width, rdir, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop): out.append(l[len("finding: property=%s " % prop):])
    except OSError: pass
    return out

def run(A, prop, thorough, specs, oracles, work, width, rdir, t0):
    from hvc import prog, spec, driver, bv
    limit = 3000 if thorough else 560
    for k in known(prop): log("KNOWN-FINDING: property=%s %s" % (prop, k))
    # 1. harnesses (real code, concrete inputs): build now, run alongside the proofs
    hs = [] if A.proof_only else [Harness(o, A.repo, work) for o in oracles]
    notes = []
    for h in hs:
        if not h.build(): notes.append("harness %s does not build: %s" % (h.name, h.err))
    hs = [h for h in hs if h.err is None]
    ms = 60000 if thorough else 6000
    first = [(h, A.seed + i, h.start(prop, A.seed + i, ms)) for h in hs for i in range(2)]
    # 2. obligations from the current source
    res = []; perr = None
    if not A.oracle_only:
        try:
            for s in set(specs) | {"common", "words"} | set(M.BASE_SPECS): importlib.import_module("specs." + s)
            need = {}
            for s in specs:
                for m in M.SPEC[s]:
                    x = M.SRC[m]; need[m] = tuple(os.path.join(A.repo, y) for y in x) if isinstance(x, tuple) else os.path.join(A.repo, x)
            P = prog.load(need, os.path.join(work, "ir"), [A.repo])
            jobs = []; seen = set()
            for n, c in spec.CONTRACTS.items():
                if prop in c.props and not c.opts.get("bvonly"): jobs += [("lia", x) for x in driver.jobs_of(n)]; seen.add(n)
            for n, c in bv.CON.items():
                if prop in c.props: jobs.append(("bv", n)); seen.add(n)
            jobs.sort(key=lambda j: -M.SLOW.get(j[1].split("#")[0], 0))
            def more(r):
                """contracts relied on at call sites are discharged in the same run"""
                nj = []
                for c in r.get("callees") or ():
                    if c in seen: continue
                    seen.add(c)
                    if c in bv.CON: nj.append(("bv", c))
                    elif c in spec.CONTRACTS and not spec.CONTRACTS[c].opts.get("bvonly"): nj += [("lia", x) for x in driver.jobs_of(c)]
                return nj
            dl = t0 + limit
            late = [j for j in jobs if j[0] == "lia" and not thorough and spec.CONTRACTS[j[1].split("#")[0]].opts.get("thorough")]
            jobs = [j for j in jobs if j not in late]
            res = run_jobs(P, jobs, {"budget": 1500 if thorough else 300}, dl, width, more)
            res += [{"function": j[1], "status": "unsupported", "reason": "attempted in the thorough tier only; bounded check here", "obligations": [], "kind": "lia", "time": 0} for j in late]
            # an unproved obligation is re-tried alone with longer solver limits before it counts
            bad = [r for r in res if r["status"] == "failed"]
            if bad and time.time() < dl - 60:
                again = run_jobs(P, [(r["kind"], r["function"]) for r in bad], {"budget": min(300, dl - time.time()), "timeout": 24000, "retry": True}, dl, 4)
                for r2 in again:
                    for i, r in enumerate(res):
                        if r["function"] == r2["function"] and (r2["status"] == "proved" or (r2["status"] == "failed")): res[i] = r2
                # a call in a state the callee's contract does not speak about: its body is followed instead
                body = {}
                for _ in range(3):
                    todo = []
                    for r in res:
                        if r["status"] != "failed" or r["kind"] != "lia": continue
                        names = {m.group(1) for o in r["obligations"] if o["status"] != "proved" for m in [re.search(r"(?:: line |:)\d+ (\w+): precondition", o["name"])] if m}
                        names = {n for n in names if n in spec.CONTRACTS and not spec.CONTRACTS[n].opts.get("recursive") and n not in body.get(r["function"], ())}
                        if names: body[r["function"]] = body.get(r["function"], frozenset()) | names; todo.append(r)
                    if not todo or time.time() > dl - 60: break
                    for r in todo:
                        for r2 in run_jobs(P, [(r["kind"], r["function"])], {"budget": min(120, dl - time.time()), "timeout": 8000, "by_body": body[r["function"]]}, dl, 4):
                            for i, q in enumerate(res):
                                if q["function"] == r2["function"] and r2["status"] in ("proved", "failed"): res[i] = r2
        except Exception as e:
            import traceback; perr = "obligations could not be generated: %r\n%s" % (e, traceback.format_exc())
    # 3. harness results
    hit = None
    for h, s, p in first:
        r = h.finish(prop, s, ms, p)
        if r and not hit: hit = (h, s, r)
    failed = [r for r in res if r["status"] == "failed"]
    undecided = [r for r in res if r["status"] not in ("proved", "failed")]
    if not hit and (failed or undecided or perr or thorough):
        # search for a concrete failing input, or stand in (bounded) for what was not decided by proof
        ms2 = 240000 if thorough else 45000; sd = A.seed + 100
        runs = [(h, sd + i, h.start(prop, sd + i, ms2)) for h in hs for i in range(max(1, width // max(1, len(hs))))]
        for h, s, p in runs:
            r = h.finish(prop, s, ms2, p)
            if r and not hit: hit = (h, s, r)
    # 4. verdict
    viol = 0; path = os.path.join(rdir, prop + ".txt")
    def ob_text():
        t = []
        for r in failed:
            for o in r["obligations"]:
                if o["status"] != "proved": t.append("function %s\nobligation: %s (line %s)\nstatus: %s\n%s\nsolver model: %s\n" % (r["function"], o["name"], o.get("line"), o["status"], o.get("detail") or "", o.get("model")))
        return "\n".join(t)
    if hit:
        viol = 1
        open(path, "w").write("property %s: failing input found by running the real code\n\n%s\n\n--- failed obligations\n%s" % (prop, hit[2], ob_text()))
        log(hit[2][:3000]); log("VIOLATION property=%s replay=%s" % (prop, path))
    elif failed:
        viol = 1; t = ob_text()
        open(path, "w").write("property %s: obligations the verifier does not accept (no failing input found)\n\n%s" % (prop, t))
        log(t[:3000]); log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    # 5. evidence
    nob = sum(len(r["obligations"]) for r in res); ok = sum(1 for r in res for o in r["obligations"] if o["status"] == "proved")
    asm = set()
    for r in res: asm |= set(r.get("assumptions") or ())
    fns = {}
    for r in res:
        fns[r["function"]] = {"verdict": r["status"], "obligations": len(r["obligations"]), "discharged": sum(1 for o in r["obligations"] if o["status"] == "proved"),
            "back_end": "z3 bit-vectors (hvc.bv)" if r["kind"] == "bv" else "z3 integers and arrays (hvc.engine)", "seconds": r.get("time"),
            "solver_seconds": r.get("solver_time"), "queries": r.get("queries"), "paths": r.get("paths"), "inlined": r.get("inlined"), "contracts_used": r.get("callees"), "reason": r.get("reason") or ""}
    cov = {"obligations": nob, "discharged": ok, "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, A.tier),
        "trusted_base": ["hvc, the verification-condition generator in /verif/hvc", "z3 %s" % z3v(), "clang 18 front end (-O0 IR of the current source)", "contracts of libc functions in hvc/libc.py",
                         "objects are smaller than 2^62 bytes; struct layouts are those of the debug information"] + sorted(M.TRUST.get(prop, ())),
        "functions_under_contract": fns, "solver_seconds": round(sum(r.get("solver_time") or 0 for r in res), 2), "solver_queries": sum(r.get("queries") or 0 for r in res),
        "not_decided_by_proof": {r["function"]: r.get("reason") for r in undecided},
        "bounded_cross_check": {h.name: {"label": "bounded, not counted as proved", "runs": h.runs, "iterations": h.iters, "seconds": h.secs} for h in hs}, "notes": notes + ([perr] if perr else [])}
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": A.seed, "level": "proof", "coverage": cov, "assumptions": sorted(asm) + M.TRUST.get(prop, []),
          "wall_s": round(time.time() - t0, 1), "violations": viol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %d of %d obligations discharged in %d functions (%d undecided), harness %s, %.1f s" % (prop, ok, nob, len(res), len(undecided), ", ".join("%s %d iterations" % (h.name, h.iters) for h in hs), time.time() - t0))
    for r in undecided: log("  not decided: %s (%s)" % (r["function"], r.get("reason")))
    for n in cov["notes"]: log("  " + n)
    return viol

def z3v():
    import z3; return z3.get_version_string()

if __name__ == "__main__": main()
