"""Runs the quick check of each planted bug's property against a scratch copy of /repo with the bug applied."""
import sys, os, json, subprocess, shutil, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = [a for a in sys.argv[1:] if not a.startswith("-")]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    if want and d not in want and m["property"] not in want: continue
    t = tempfile.mkdtemp(); r = os.path.join(t, "r")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    subprocess.run(["git", "-C", r, "apply", os.path.join(H, "seeded", d, "patch.diff")], check=True)
    s = time.time()
    o = subprocess.run(["python3-vt", os.path.join(H, "check.py"), m["property"], "--repo", r] + [a for a in sys.argv[1:] if a.startswith("--")], capture_output=True, text=True, cwd=H)
    v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
    print(d, m["property"], "rc", o.returncode, "%ds" % (time.time() - s), v[:1], flush=True)
    shutil.rmtree(t)
