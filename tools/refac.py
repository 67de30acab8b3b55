"""Applies behaviour-preserving edits (tools/refac/*.py) to a scratch copy of /repo and runs the proofs there: every
function must stay proved or undecided, never failed.  usage: refac.py [NAME...] (names of variants or files)"""
import sys, os, subprocess, shutil, glob, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = []
def refac(name, props, file, edits): V.append((name, props, file, edits, cur))
for f in sorted(glob.glob(os.path.join(H, "tools", "refac", "*.py"))):
    cur = os.path.basename(f)[:-3]; exec(compile(open(f).read(), f, "exec"), {"refac": refac})
want = set(a for a in sys.argv[1:] if not a.startswith("-")); extra = [a for a in sys.argv[1:] if a.startswith("-")]
for name, props, file, edits, cur in V:
    if want and name not in want and cur not in want: continue
    d = tempfile.mkdtemp(prefix="refac_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        t = open(os.path.join(d, file)).read()
        for a, b in edits:
            n = 1
            assert t.count(a) == 1, (name, t.count(a), a)
            t = t.replace(a, b)
        open(os.path.join(d, file), "w").write(t)
        for p in props:
            r = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", os.path.join(H, "check.py"), p, "--repo", d] + (extra or ["--proof-only"]), capture_output=True, text=True)
            o = r.stdout.strip().split("\n")
            bad = [l for l in o if l.startswith(("function ", "obligation", "VIOLATION", "  not decided"))or "discharged in" in l]
            print(name, p, "rc", r.returncode, "\n   ", "\n    ".join(x[:200] for x in bad), r.stderr[-500:]); sys.stdout.flush()
    finally: shutil.rmtree(d, ignore_errors=True)
