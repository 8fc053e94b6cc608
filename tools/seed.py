"""seed.py <id>: (re)creates the demo files of /verif/seeded/<id> (patch.diff, demo.cc and meta.json are written by hand) and tries it:
demo on the clean tree, patch, build, stable tests, demo, the property's check; then undoes the patch."""
import json, os, shutil, subprocess, sys, tarfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, "tools", "seed_template")
def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): run("git", "-C", "/repo", "checkout", "--", ".")
for sid in sys.argv[1:]:
    d = os.path.join(V, "seeded", sid); meta = json.load(open(d + "/meta.json"))
    for f in ("demo.sh", "build.py"): shutil.copy(os.path.join(T, f), d)
    with tarfile.open(d + "/shim.tgz", "w:gz", compresslevel=9) as t:
        for n in sorted(os.listdir(V + "/compat")):
            if n != "fuzztest": t.add(os.path.join(V, "compat", n), n)
    os.chmod(d + "/demo.sh", 0o755)
    assert not run("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    a = run("bash", d + "/demo.sh", cwd="/repo")
    r = run("git", "-C", "/repo", "apply", d + "/patch.diff")
    if r.returncode: print(sid, "patch does not apply", r.stderr); continue
    try:
        if "--check" not in os.environ.get("SEED", ""):
            b = run("bash", "/opt/vp/build.sh"); t = run("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
        m = run("bash", d + "/demo.sh", cwd="/repo")
        c = run("python3", V + "/tools/check.py", meta["property"], env=dict(os.environ, NO_RERUN="1"))
    finally: clean(); 
    print(sid, "demo clean rc=%d mutated rc=%d build rc=%d test rc=%d check rc=%d" % (a.returncode, m.returncode, b.returncode, t.returncode, c.returncode), "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "MISSED")
    if a.returncode: print(a.stdout[-800:], a.stderr[-1500:])
    if m.returncode not in (1,): print(m.stdout[-800:], m.stderr[-1500:])
    if c.returncode == 2: print(c.stderr[-1500:])
    print("   ", (c.stdout.splitlines() or [""])[0][:300])
run("bash", "/opt/vp/build.sh")
