#!/usr/bin/env python3
"""check.py <property> : decides one property of google/ink.

  1. TLC checks the specification itself exhaustively in a small configuration (MC_*.tla), and where configured emits every
     behaviour of that configuration as a call sequence.
  2. The driver for the property is compiled together with the sources it needs from /repo's working tree and executes the
     real code (on the emitted behaviours, on bounded-exhaustive inputs and on seeded random histories), recording a trace.
  3. TLC validates every recorded event against the specification (Trace_*.tla).

Exit 0: held. Exit 1 + "VIOLATION property=.. replay=..": the real code did something that the specification does not
allow, twice in a row.  Exit 2: the machinery itself failed (does not compile, TLC error, ...).
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("INK_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
TLA = "/opt/veriftools/tla/tla2tools.jar"
JAVA_CP = None
NPROC = os.cpu_count() or 4

class ToolError(Exception): pass

# ---------------------------------------------------------------- building
INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"', re.M)
_filecache = {}
def read(p):
    if p not in _filecache:
        try: _filecache[p] = open(p, "rb").read()
        except OSError: _filecache[p] = None
    return _filecache[p]

def resolve(inc, incdirs):
    for d in incdirs:
        p = os.path.join(d, inc)
        if read(p) is not None: return p
    return None

def deps(src, incdirs):
    """All files transitively included by src through quoted includes."""
    seen, todo = set(), [src]
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        for m in INC.findall(read(f) or b""):
            name = m.decode()
            p = resolve(name, [os.path.dirname(f)] + incdirs)
            if p and p not in seen: todo.append(p)
    return seen

def ink_sources(roots, incdirs, stop=()):
    """Sources in /repo needed by the roots: x.cc for every x.h reached."""
    srcs, todo, seen = [], list(roots), set()
    while todo:
        f = todo.pop()
        for d in deps(f, incdirs):
            if d in seen: continue
            seen.add(d)
            if d.startswith(REPO + "/") and d.endswith(".h"):
                c = d[:-2] + ".cc"
                if read(c) is not None and c not in srcs and not c.endswith(tuple(stop) or ("\0",)):
                    srcs.append(c); todo.append(c)
    return sorted(srcs)

def all_ink_sources(extra_ok=()):
    out = []
    for dp, dn, fn in os.walk(os.path.join(REPO, "ink")):
        for f in fn:
            if not f.endswith(".cc"): continue
            p = os.path.join(dp, f)
            if any(s in p for s in ("_test.cc", "benchmark", "fuzz_domains", "matchers", "test_helpers", "recorded_test", "/jni/", "/skia/")): continue
            out.append(p)
    return sorted(out)

def compile_one(src, flags, incdirs):
    h = hashlib.sha256()
    h.update(" ".join(flags).encode())
    for d in sorted(deps(src, incdirs)):
        h.update(d.encode()); h.update(read(d) or b"")
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(obj): return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, *["-I" + d for d in incdirs], "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode: return None, "%s:\n%s" % (src, r.stderr[-4000:])
    os.replace(tmp, obj)
    return obj, None

def build(driver, cfg):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True); os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    dsrc = os.path.join(VERIF, "drivers", driver)
    native = cfg.get("absl") == "system"
    incdirs = [REPO] + ([] if native else [os.path.join(VERIF, "compat")]) + [os.path.join(VERIF, "drivers")]
    if cfg.get("jni"): incdirs += ["/usr/lib/jvm/java-17-openjdk-amd64/include", "/usr/lib/jvm/java-17-openjdk-amd64/include/linux"]
    incdirs += [os.path.join(VERIF, d) for d in cfg.get("inc", [])]
    flags = ["-std=c++20", "-w", "-g1", cfg.get("opt", "-O1"), "-D_GLIBCXX_ASSERTIONS", "-ffunction-sections", "-fdata-sections", *cfg.get("flags", [])]
    extra = [os.path.join(VERIF, x) for x in cfg.get("extra", [])]
    extra += [os.path.join(REPO, s) for s in cfg.get("sources", [])]
    srcs = [dsrc] + extra + ink_sources([dsrc] + extra, incdirs, cfg.get("stop", ()))
    for attempt in (0, 1):
        srcs = list(dict.fromkeys(srcs))
        with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(lambda s: compile_one(s, flags, incdirs), srcs))
        errs = [e for _, e in res if e]
        if errs: raise ToolError("compilation failed\n" + "\n".join(errs[:3]))
        out = os.path.join(BUILD, "bin", driver + "." + str(os.getpid()))
        libs = ["-labsl_time", "-labsl_time_zone", "-labsl_strings", "-labsl_strings_internal", "-labsl_int128", "-labsl_base", "-labsl_spinlock_wait", "-labsl_raw_logging_internal", "-labsl_log_severity", "-labsl_throw_delegate", "-labsl_civil_time", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash"] if native else []
        r = subprocess.run(["g++", "-Wl,--gc-sections", *[f for f in flags if f.startswith("-fsan")], "-o", out, *[o for o, _ in res], *libs, "-lpthread", *cfg.get("ldflags", [])], capture_output=True, text=True)
        if r.returncode == 0: return out
        if attempt == 0 and not native and "undefined reference" in r.stderr:
            if os.environ.get("VERBOSE"): print(r.stderr[-3000:])
            srcs += all_ink_sources(); continue
        raise ToolError("link failed\n" + r.stderr[-4000:])

# ---------------------------------------------------------------- TLC
def tlc(module, config, workdir, env=None, workers=1, args=(), timeout=800, heap="3g", jargs=()):
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ); e.update(env or {})
    cp = TLA + ":/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar"
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", *jargs, "-DTLA-Library=" + os.path.join(VERIF, "specs"),
           "-cp", cp, "tlc2.TLC", "-metadir", os.path.join(workdir, "md"), "-noGenerateSpecTE", "-workers", str(workers),
           "-config", os.path.join(VERIF, "specs", config), *args, os.path.join(VERIF, "specs", module + ".tla")]
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=workdir, timeout=timeout)
    out = r.stdout + r.stderr
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    shutil.rmtree(os.path.join(workdir, "md"), ignore_errors=True)
    return r.returncode, out, gen, dist

def model_check(cfg, work, tier):
    """Exhaustive checks of the specification itself. Returns (states, transitions, emitted behaviours)."""
    todo = [(i, mc) for i, mc in enumerate(cfg.get("mc", [])) if mc.get("tier") != "thorough" or tier == "thorough"]
    def one(i_mc):
        i, mc = i_mc
        rc, out, gen, dist = tlc(mc["module"], mc.get("cfg_" + tier, mc.get("cfg", mc["module"] + ".cfg")), os.path.join(work, "%s_%d" % (mc["module"], i)),
                                 workers=1 if mc.get("emit") else mc.get("workers", 4), heap="6g")
        if rc != 0: raise ToolError("TLC on %s failed (rc=%d)\n%s" % (mc["module"], rc, out[-3000:]))
        return gen, dist, [(mc["module"], json.loads(line)[4:]) for line in out.splitlines() if mc.get("emit") and line.startswith('"BEH ')]
    with cf.ThreadPoolExecutor(2) as ex: res = list(ex.map(one, todo))
    return sum(r[1] for r in res), sum(r[0] for r in res), [b for r in res for b in r[2]]

def validate(tr, files, work, cfg):
    """TLC validates trace files against the specification, in parallel."""
    def one(k_f):
        k, f = k_f
        return f, tlc(tr["module"], tr.get("cfg", tr["module"] + ".cfg"), os.path.join(work, "tv_%s_%d" % (tr["module"], k)), env={"TRACE": f}, workers=1,
                      heap=tr.get("heap", "2g"), jargs=tr.get("jargs", ()))
    with cf.ThreadPoolExecutor(min(NPROC, 6)) as ex: res = list(ex.map(one, enumerate(files)))
    states = trans = 0; bad = []
    for f, (rc, out, gen, dist) in res:
        states += dist; trans += gen
        n = sum(1 for _ in open(f))
        if rc == 0 and "REJECTED" not in out:
            if dist < n: raise ToolError("%s: TLC saw %d states for %d events\n%s" % (f, dist, n, out[-2000:]))
            continue
        m = re.search(r'"REJECTED",\s*(\d+)', out)
        if m: bad.append((f, int(m.group(1)), out))
        # an event on which the rules cannot even be evaluated (numbers out of any range, values of another kind) is not one they allow
        elif re.search(r"Attempted to|[Oo]verflow when computing|not in the domain|EvalException|evaluating the expression|non-enumerable|was not a", out) and not re.search(r"OutOfMemory|StackOverflow|Parse Error|Semantic errors|parsing", out):
            bad.append((f, min(max(dist, 1), n), out))
        else: raise ToolError("TLC failed on trace %s (rc=%d)\n%s" % (f, rc, out[-3000:]))
    return states, trans, bad

# ---------------------------------------------------------------- one check
def split_trace(path, outdir, tag, max_lines):
    """Splits an ndjson trace at 'reset' lines (every history starts with one) into chunks."""
    files, cur, n = [], None, 0
    with open(path) as f:
        for line in f:
            if cur is None or (n >= max_lines and line.startswith('{"op":"reset"')):
                if cur: cur.close()
                p = os.path.join(outdir, "%s_%d.ndjson" % (tag, len(files)))
                files.append(p); cur = open(p, "w"); n = 0
            cur.write(line); n += 1
    if cur: cur.close()
    return files

def run_once(pid, cfg, tier, seed, work):
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    t0 = time.time(); info = dict(events=0, traces=0, states=0, transitions=0, samples=[], timing={})
    mcf = cf.ThreadPoolExecutor(1).submit(model_check, cfg, work, tier)
    bins = [(p, build(p["driver"], p)) for p in cfg["parts"]]
    info["timing"]["build"] = round(time.time() - t0, 1)
    s, t, emitted = mcf.result()
    info["mc_states"], info["mc_transitions"], info["behaviours"] = s, t, len(emitted)
    info["states"] += s; info["transitions"] += t
    info["timing"]["mc"] = round(time.time() - t0, 1)
    violations = []
    for part, binary in bins:
        raw = os.path.join(work, part["driver"] + ".ndjson")
        behfile = os.path.join(work, part["driver"] + ".behaviours.txt")     # part["beh"]: only those modules' behaviours
        open(behfile, "w").write("".join(b + "\n" for m, b in emitted if m in part.get("beh", [m])))
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, BEHAVIOURS=behfile, TRACE_OUT=raw, PROP=pid, ASAN_OPTIONS="detect_leaks=%d:abort_on_error=1:allocator_may_return_null=1" % part.get("leaks", 0), UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
        cwd = os.path.join(work, "cwd"); os.makedirs(cwd, exist_ok=True)
        lim = part.get("timeout", 300 if tier == "quick" else 3000)
        try:
            r = subprocess.run([binary, *part.get("args", [])], env=env, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=lim)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as ex:
            rc, err = "timeout", "the real code did not return within %d s" % lim
        if rc != 0:
            last = ""
            try: last = open(raw).read()[-600:]
            except OSError: pass
            violations.append(dict(kind="refused" if rc == 3 else "crash", driver=part["driver"], rc=str(rc), stderr=err[-3000:], last_events=last))
        for tr in part["traces"]:
            src = raw if "file" not in tr else os.path.join(cwd, tr["file"])
            if rc != 0 and not os.path.exists(src): continue
            if rc != 0:  # drop an unfinished last line
                data = open(src).read(); data = data[:data.rfind("\n") + 1]; open(src, "w").write(data)
            if os.path.getsize(src) == 0:
                if rc != 0: continue
                raise ToolError("empty trace " + src)
            files = split_trace(src, work, tr["module"], tr.get("chunk", 4000))
            st, tn, bad = validate(tr, files, work, cfg)
            n = sum(sum(1 for _ in open(f)) for f in files)
            nh = sum(sum(1 for l in open(f) if l.startswith('{"op":"reset"')) for f in files)
            info["events"] += n; info["traces"] += nh or n; info["states"] += st; info["transitions"] += tn
            with open(files[-1]) as f: lines = f.read().splitlines()
            info["samples"].append({"trace": os.path.basename(files[-1]), "events": [json.loads(x) for x in lines[1:4]]})
            for f, k, out in bad:
                lines = open(f).read().splitlines()
                lo = k - 1
                while lo > 0 and not lines[lo].startswith('{"op":"reset"') and k - lo < 60: lo -= 1
                violations.append(dict(kind="rejected", module=tr["module"], event_number=k, event=lines[k - 1] if k <= len(lines) else None, history=lines[lo:k], tlc=out[-1500:]))
    info["timing"]["total"] = round(time.time() - t0, 1)
    for _, b in bins:
        try: os.remove(b)
        except OSError: pass
    return info, violations

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known": out.append(d)
    return out

def main():
    from registry import CHECKS
    if sys.argv[1] == "--setup":
        for tool in ("g++", "java"):
            if not shutil.which(tool): print("missing", tool); return 2
        os.makedirs(BUILD, exist_ok=True)
        print("setup ok: checks build from", REPO, "on every run"); return 0
    pid = sys.argv[1]; cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2: tier = sys.argv[2]
    work = os.path.join(BUILD, "work", pid)
    t0 = time.time()
    try:
        info, violations = run_once(pid, cfg, tier, seed, work)
        if violations and not os.environ.get("NO_RERUN"):
            first = violations
            info, violations = run_once(pid, cfg, tier, seed, work)
            if not violations: raise ToolError("a violation was not reproduced on re-run: %s" % json.dumps(first)[:3000])
    except ToolError as ex:
        print("ERROR", ex, file=sys.stderr); return 2
    except subprocess.TimeoutExpired as ex:
        print("ERROR timeout", str(ex)[:300], file=sys.stderr); return 2
    for k in known_findings(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "model_checking"),
              coverage=dict(states=info["states"], transitions=info["transitions"], traces_validated_against_impl=info["traces"],
                            spec_states=info["mc_states"], behaviours_generated_by_spec=info["behaviours"], events_validated=info["events"], samples=info["samples"], timing_s=info["timing"]),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        rp = os.path.join(BUILD, "replay_%s.json" % pid)
        json.dump(violations, open(rp, "w"), indent=1)
        for v in violations[:3]:
            print(json.dumps({k: v[k] for k in ("kind", "module", "event_number", "event", "rc", "stderr") if k in v})[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s events=%d traces=%d spec_states=%d wall=%.1fs" % (pid, info["events"], info["traces"], info["mc_states"], time.time() - t0))
    os.environ.get("KEEP") or shutil.rmtree(work, ignore_errors=True)
    return 0
if __name__ == "__main__": sys.exit(main())
