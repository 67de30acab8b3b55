"""Creates and confirms the planted bugs listed in tools/seeds/*.py: applies each to a scratch copy of /repo, builds,
runs the stable tests, and runs the demonstration with and without it.  usage: seed.py [ID...]"""
import sys, os, json, subprocess, shutil, glob, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, file, edits, needs, breaks, srcs, main, flags="-fsanitize=address,undefined -fno-sanitize=alignment"):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, srcs=srcs, main=main, flags=flags))
for f in sorted(glob.glob(os.path.join(H, "tools", "seeds", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -w -g %s -I/repo "$d/demo.c" %s -o "$t/demo" -lm || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 60 ./demo
'''
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
def main():
    want = set(sys.argv[1:])
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = os.path.join(H, "seeded", s["id"])
        if not want and os.path.exists(os.path.join(d, "meta.json")) and open(os.path.join(d, "demo.c")).read() == s["main"]: continue
        os.makedirs(d, exist_ok=True)
        src = open("/repo/" + s["file"]).read(); new = src
        for a, b in s["edits"]:
            assert new.count(a) == 1, (s["id"], new.count(a), a)
            new = new.replace(a, b)
        try:
            open("/repo/" + s["file"], "w").write(new)
            diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.c"), "w").write(s["main"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % (s["flags"], " ".join("/repo/" + x for x in s["srcs"])))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", s["file"]], capture_output=True, text=True).stdout.splitlines()
            n = 0; dels = []
            for l in subprocess.run(["git", "-C", "/repo", "diff", "-U0"], capture_output=True, text=True).stdout.splitlines():
                if l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"): dels.append(bl[n - 1].startswith("^")); n += 1
            if not dels or not all(dels): print(s["id"], "CHANGES LINES OF OUR OWN COMMITS (or none)", dels)
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
            t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"], capture_output=True, text=True)
            o = json.load(open("/tmp/seed_out.json")); fails = sorted(str(x) for x in (o.get("failed") or [])) if isinstance(o, dict) else ["?"]
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        print(s["id"], s["prop"], "build", b.returncode, "demo+patch", bad.returncode, "demo clean", good.returncode, "failed tests", fails, (good.stdout + good.stderr)[-300:] if good.returncode else "", (bad.stdout + bad.stderr)[:120].replace("\n", " "))
    subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
main()
