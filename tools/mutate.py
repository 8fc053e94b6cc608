"""mutate.py <out.jsonl> <count per file> <workers> <property>[:file,file...] ... : plants small changes, one at a time, in a clone of /repo and tells which of
them the property's check rejects. A development aid; no check uses it.

  same   the recorded trace is the one of the unchanged tree: the driver does not see the change (or it changes nothing)
  passed the trace differs, but the specification accepts it
  caught the specification rejects it, or the code crashes or hangs
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from registry import CHECKS

def strip(line):
    return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "~" * (len(m.group(0)) - 2) + '"', re.sub(r"//.*", "", line))
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\bstd::min\(", "std::max("), (r"\bstd::max\(", "std::min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r" \+= ", " -= "), (r" -= ", " += "), (r"\+\+", "--"), (r"\b0\b(?![.x])", "1"), (r"\b1\b(?![.x])", "2"), (r"\b2\b(?![.x])", "1"), (r"\b0?\.5f?\b", ".25f"), (r"\.x\b", ".y"), (r"\.y\b", ".x"),
         (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bif \((?!auto|const|[A-Za-z:]+ [a-z_]+ =)([^;{}]*)\) \{$", r"if (!(\1)) {"), (r"\bif \((?!auto|const)([^;{}]*)\) \{$", r"if (false && (\1)) {"),
         (r"\bif \((?!auto|const)([^;{}()]*(?:\([^()]*\)[^;{}()]*)*)\) (return|continue|break)", r"if (!(\1)) \2"), (r"!(?=[a-z_]+[.(\[]|[a-z_]+[) ])", ""), (r"->", "->"), (r"_min\b", "_max"), (r"_max\b", "_min"), (r"\babs\(", "("), (r"isfinite", "isnan")]
def mutants(path):
    out = []; lines = open(path).read().split("\n"); depth_ok = False
    for i, line in enumerate(lines):
        s = strip(line)
        if not s.strip() or s.lstrip().startswith(("#", "using ", "namespace", "template", "class ", "struct ", "*", "static_assert", "typename", "case ", "enum")): continue
        if "CHECK" in s or "Error(" in s or "Printf" in s or "StrFormat" in s or "StrCat" in s or "<<" in s: continue
        for pat, rep in SWAPS:
            if pat == "->": continue
            for m in re.finditer(pat, s):
                new = line[:m.start()] + m.expand(rep) + line[m.end():] if len(s) == len(line) or m.end() <= len(s) else None
                if new and new != line and (len(s) == len(re.sub(r"//.*", "", line))): out.append((i, new))
        if re.match(r"^\s+[a-zA-Z_][\w.\->()\[\]]*( [+\-*|&]?=[^=]|\(|\.|->|\+\+).*;$", s) and not re.match(r"^\s+(return|const|auto|float|int|bool|double|uint|static|size_t|[A-Z]\w* \w+|std::\w+<)", s): out.append((i, "// removed"))
    return lines, out

_ctx = {}
def setup(pid, root, shared):
    check.REPO = root + "/repo"; check.BUILD = root + "/build"; check.NPROC = 3
    os.makedirs(check.BUILD, exist_ok=True)
def drive(pid, cfg, beh, tag, root, lim):
    """builds and runs the drivers: [(part, returncode, trace file)] or None when it does not compile"""
    out = []
    for k, part in enumerate(cfg["parts"]):
        try: b = check.build(part["driver"], part)
        except check.ToolError: return None
        work = os.path.join(root, tag); os.makedirs(work, exist_ok=True)
        raw = os.path.join(work, "%d.ndjson" % k); bf = os.path.join(work, "%d.beh" % k)
        open(bf, "w").write("".join(x + "\n" for m, x in beh if m in part.get("beh", [m])))
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", BEHAVIOURS=bf, TRACE_OUT=raw, PROP=pid, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
        try: rc = subprocess.run([b, *part.get("args", [])], env=env, cwd=work, capture_output=True, timeout=lim).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        os.remove(b); out.append((part, rc, raw))
    return out
def job(a):
    pid, rel, i, new, root, shared = a
    setup(pid, root, shared); cfg = CHECKS[pid]; beh = json.load(open(shared + "/" + pid + ".beh"))
    p = check.REPO + "/" + rel; old = open(p).read(); lines = old.split("\n"); was = lines[i]; lines[i] = new if new != "// removed" else ""
    res = None
    try:
        open(p, "w").write("\n".join(lines)); check._filecache.clear()
        got = drive(pid, cfg, beh, "mut", root, 150)
        if got is None: res = "uncompilable"
        elif any(rc == 3 for _, rc, _ in got): res = "driver"
        elif any(rc != 0 for _, rc, _ in got): res = "caught"
        else:
            res = "same"
            for k, (part, rc, raw) in enumerate(got):
                base = shared + "/%s.%d.ndjson" % (pid, k)
                if open(base, "rb").read() == open(raw, "rb").read(): continue
                for tr in part["traces"]:
                    wk = os.path.join(root, "tv"); shutil.rmtree(wk, ignore_errors=True); os.makedirs(wk)
                    a_, b_ = wk + "/a", wk + "/b"; os.makedirs(a_); os.makedirs(b_)
                    src = raw if "file" not in tr else os.path.join(root, "mut", tr["file"])
                    fs = check.split_trace(src, a_, "t", tr.get("chunk", 4000))
                    known = set(open(f, "rb").read() for f in check.split_trace(base, b_, "t", tr.get("chunk", 4000))) if "file" not in tr else set()
                    fs = [f for f in fs if open(f, "rb").read() not in known]
                    for j in range(0, len(fs), 3):
                        try: bad = check.validate(tr, fs[j:j + 3], wk, cfg)[2]
                        except check.ToolError as ex: bad = "tool"
                        if bad: res = "caught" if bad != "tool" else "toolerror"; break
                        res = "passed"
                    if res in ("caught", "toolerror"): break
                if res in ("caught", "toolerror"): break
    finally:
        open(p, "w").write(old); check._filecache.clear()
        shutil.rmtree(root + "/mut", ignore_errors=True); shutil.rmtree(root + "/tv", ignore_errors=True)
    return dict(pid=pid, file=rel, line=i + 1, was=was.strip(), new=new.strip(), res=res)

def worker(root, jobs, results, shared):
    while True:
        a = jobs.get()
        if a is None: return
        try: results.put(job((*a, root, shared)))
        except Exception as ex: results.put(dict(pid=a[0], file=a[1], line=a[2] + 1, new=a[3], res="exception " + str(ex)[:200]))

def main():
    out, n, w = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    top = tempfile.mkdtemp(prefix="mutate."); shared = top + "/shared"; os.makedirs(shared)
    roots = [top + "/w%d" % k for k in range(w)]
    for r in roots: os.makedirs(r); subprocess.run(["git", "clone", "-q", "/repo", r + "/repo"], check=True)
    props = {d["id"]: d for d in map(json.loads, open(check.VERIF + "/properties.jsonl"))}
    jobs, results = mp.Queue(), mp.Queue(); total = 0; rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    procs = [mp.Process(target=worker, args=(r, jobs, results, shared)) for r in roots]
    for pr in procs: pr.start()
    f = open(out, "a"); done = 0
    for spec in sys.argv[4:]:
        pid, _, files = spec.partition(":")
        files = files.split(",") if files else [x for x in props[pid]["anchors"]["files"] if x.endswith((".cc", ".h"))]
        setup(pid, roots[0].replace("/w0", "/base"), shared)
        check.REPO = "/repo"
        _, _, beh = check.model_check(CHECKS[pid], top + "/mc", "quick"); json.dump(beh, open(shared + "/" + pid + ".beh", "w"))
        got = drive(pid, CHECKS[pid], beh, "base", top, 300)
        for k, (part, rc, raw) in enumerate(got): assert rc == 0, (pid, rc); shutil.move(raw, shared + "/%s.%d.ndjson" % (pid, k))
        for rel in files:
            if not os.path.exists("/repo/" + rel): print("no", rel); continue
            _, ms = mutants("/repo/" + rel); ms = sorted(set(ms)); rnd.shuffle(ms)
            for i, new in ms[:n]: jobs.put((pid, rel, i, new)); total += 1
        while not results.empty(): f.write(json.dumps(results.get()) + "\n"); f.flush(); done += 1
    for _ in procs: jobs.put(None)
    while done < total: f.write(json.dumps(results.get()) + "\n"); f.flush(); done += 1
    shutil.rmtree(top)
if __name__ == "__main__": main()
