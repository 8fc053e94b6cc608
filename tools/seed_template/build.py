# build.py demo.cc repo shim out: compiles demo.cc and every x.cc of the repo whose x.h it (transitively) includes.
import concurrent.futures, os, re, subprocess, sys
demo, repo, shim, out = sys.argv[1:5]
dirs = [repo, shim]; INC = re.compile(r'^\s*#\s*include\s*"([^"]+)"', re.M)
seen, todo, srcs = set(), [demo], [demo]
while todo:
    f = todo.pop()
    if f in seen: continue
    seen.add(f)
    for m in INC.findall(open(f, errors="replace").read()):
        for d in dirs:
            p = os.path.join(d, m)
            if os.path.exists(p):
                todo.append(p); c = p[:-2] + ".cc"
                if p.endswith(".h") and p.startswith(repo + "/") and os.path.exists(c) and c not in srcs: srcs.append(c); todo.append(c)
                break
tess = os.path.join(shim, "libtess2_impl.cc")
if os.path.exists(tess) and any("libtess2" in s for s in seen): srcs.append(tess)
def cc(k_s):
    o = os.path.join(out, "%d.o" % k_s[0])
    return subprocess.run(["g++", "-std=c++20", "-w", "-O0", *["-I" + d for d in dirs], "-c", k_s[1], "-o", o]).returncode, o
with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex: res = list(ex.map(cc, enumerate(srcs)))
if any(r for r, _ in res): sys.exit(1)
sys.exit(subprocess.run(["g++", "-o", os.path.join(out, "demo"), *[o for _, o in res], "-lpthread"]).returncode)
