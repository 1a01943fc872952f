"""Runs one property check: TLC on the models, TLC as generator of behaviours, the real
code on them (conformance drivers in harness/), and TLC on the recorded traces.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check
itself could not give an answer."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class MachineryError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, workdir, workers=1, extra=(), env=None, timeout=600, heap="2g"):
    meta = tempfile.mkdtemp(dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", JAR, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *extra, module]
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace") + "\nVF-TIMEOUT\n", 124
    shutil.rmtree(meta, ignore_errors=True)
    out = re.sub(r"(?m)^(Parsing file|Semantic processing).*\n", "", out)
    return rc, out

def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"(\d+) states checked", out) or re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), 0) if m else (0, 0)

def write_cfg(path, spec="Spec", consts=None, invs=(), props=(), view=None, constraint=None, symmetry=None):
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
        for k, v in (consts or {}).items():
            f.write("CONSTANT %s = %s\n" % (k, v) if not str(v).startswith("<-") else "CONSTANT %s %s\n" % (k, v))
        for x in invs: f.write("INVARIANT %s\n" % x)
        for x in props: f.write("PROPERTY %s\n" % x)
        if view: f.write("VIEW %s\n" % view)
        if constraint: f.write("CONSTRAINT %s\n" % constraint)

def parse_tuples(out, tag):
    """All <<"tag", ...>> values printed in out, as nested Python lists."""
    res = []
    key = '<<"%s"' % tag
    out = re.sub(r'<<\s+"', '<<"', out)
    pos = 0
    while True:
        p = out.find(key, pos)
        if p < 0: return res
        depth, q = 0, p
        while True:
            if out.startswith("<<", q): depth += 1; q += 2
            elif out.startswith(">>", q):
                depth -= 1; q += 2
                if depth == 0: break
            elif q >= len(out): return res
            else: q += 1
        txt = out[p:q].replace("<<", "[").replace(">>", "]").replace("TRUE", "1").replace("FALSE", "0").replace("{", "[").replace("}", "]")
        try: res.append(json.loads(txt)[1:])
        except ValueError: raise MachineryError("cannot parse TLC output: " + txt[:200])
        pos = q

# ------------------------------------------------------------------ building
CXX = ["g++", "-w", "-std=c++20", "-include", "cstdint", "-include", "functional", "-fdiagnostics-color=never"]
FLAVOURS = {
    "asan": ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "opt": ["-O2", "-g1"],
    # every memory access is a call into vsched.cpp, which replaces libtsan, libtbb and threads
    "sched": ["-O1", "-fsanitize=thread", "-DVF_SCHED"],
}
_tree = {}
def tree_hash(src):
    """Of everything a driver is compiled from."""
    if src not in _tree:
        h = hashlib.sha256()
        files = [os.path.join(HARN, f) for f in sorted(os.listdir(HARN)) if f in (src, "vsched.cpp", "config.h") or f.endswith(".hpp")]
        for part in ("include", "bench"):
            for d, ds, fs in os.walk(os.path.join(REPO, part)):
                ds.sort(); files += [os.path.join(d, f) for f in sorted(fs)]
        for p in files: h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
        _tree[src] = h.hexdigest()
    return _tree[src]

def compile_unit(u):
    flags = CXX + FLAVOURS[u.get("flavour", "asan")] + u.get("flags", [])
    key = hashlib.sha256((tree_hash(u["src"]) + " ".join(flags)).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", u["name"] + "-" + key)
    if os.path.exists(exe): return exe, ""
    tmp = exe + ".%d" % os.getpid()
    sh = lambda cmd: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    cmd = flags + ["-I" + os.path.join(REPO, d) for d in ["include"] + u.get("inc", [])] + ["-I" + HARN, os.path.join(HARN, u["src"]), "-o", tmp]
    if u.get("flavour") == "sched":
        so, sm = scheduler()
        if so is None: return None, sm
        p = sh(cmd[:-1] + [tmp + ".o", "-c"])
        if p.returncode == 0: p = sh(["g++", tmp + ".o", so, "-o", tmp, "-lpthread"])
        if os.path.exists(tmp + ".o"): os.remove(tmp + ".o")
    else: p = sh(cmd + u.get("libs", ["-ltbb", "-lpthread"]))
    if p.returncode != 0:
        return None, p.stdout.decode("utf-8", "replace")
    os.replace(tmp, exe)
    return exe, ""

_sched_lock = threading.Lock()
def scheduler():
    """The controlled scheduler, compiled once and without instrumentation."""
    with _sched_lock:
        src = os.path.join(HARN, "vsched.cpp")
        key = hashlib.sha256(open(src, "rb").read() + open(os.path.join(HARN, "vsched.hpp"), "rb").read()).hexdigest()[:24]
        obj = os.path.join(BUILD, "bin", "vsched-%s.o" % key)
        if not os.path.exists(obj):
            tmp = obj + ".%d" % os.getpid()
            p = subprocess.run(["g++", "-w", "-std=c++20", "-O2", "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode != 0: return None, p.stdout.decode("utf-8", "replace")
            os.replace(tmp, obj)
        return obj, ""

# ------------------------------------------------------------------ running drivers
def run_driver(exe, args, workdir, tag, timeout, env=None):
    st, out = os.path.join(workdir, tag + ".status"), os.path.join(workdir, tag + ".ndjson")
    for f in (st, out):
        if os.path.exists(f): os.remove(f)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=1:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TMPDIR"] = workdir
    if env: e.update(env)
    cmd = [exe] + ["%s=%s" % kv for kv in args.items()] + ["out=" + out, "status=" + st]
    p = subprocess.Popen(cmd, cwd=workdir, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); _, err = p.communicate(); rc = 97
    err = err.decode("utf-8", "replace")
    status = open(st, errors="replace").read().rstrip(" \0\n") if os.path.exists(st) else ""
    return {"rc": rc, "err": err, "status": status, "out": out, "cmd": cmd}

def crash_why(r):
    if r["rc"] == 97: return "does not terminate"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", r["err"]) or re.search(r"Assertion [`'](.*?)' failed", r["err"]) \
        or re.search(r"what\(\):\s*(.*)", r["err"]) or re.search(r"runtime error: (.*)", r["err"])
    return "aborts: " + (m.group(1) if m else "exit status %d" % r["rc"])

# ------------------------------------------------------------------ trace validation
def validate(spec, trace_file, workdir, workers, timeout):
    """Returns (traces, states, rejected [(case id, event index, kind, why)])."""
    lens, ids = [], []
    with open(trace_file) as f:
        for line in f:
            try: t = json.loads(line)
            except ValueError: continue      # a line cut short by a crash
            ids.append(t["id"]); lens.append(len(t["ev"]))
    good = trace_file + ".ok"
    with open(trace_file) as f, open(good, "w") as g:
        for line in f:
            if line.endswith("}\n"): g.write(line)
    if not ids: return 0, 0, 0, []
    cfg = trace_file + ".cfg"
    write_cfg(cfg, "TSpec")
    for attempt in (0, 1):
        rc, out = tlc(spec, cfg, workdir, workers, env={"VF_TRACE": good}, timeout=timeout, heap="3g")
        if rc != 124: break
    gen, dist = counts(out)
    rej = [(r[0], r[1], r[2], r[3]) for r in parse_tuples(out, "REJECT")]
    if "No error has been found" in out:
        if not rej and dist != sum(lens) + 2 * len(lens):
            raise MachineryError("%s: %d states, %d expected\n%s" % (spec, dist, sum(lens) + 2 * len(lens), out[-1500:]))
        return len(ids), gen, dist, rej
    m = re.findall(r"^\s*(?:/\\ )?c = (\d+)", out, re.M)
    if m and re.search(r"Attempted to|evaluating|out of|overflow|outside", out):
        k = int(re.findall(r"^\s*(?:/\\ )?i = (-?\d+)", out, re.M)[-1])
        why = re.search(r"(Attempted to[^\n]*|Overflow[^\n]*|[^\n]*out of range[^\n]*)", out)
        rej.append((ids[int(m[-1]) - 1], k, "?", "value outside the domain of the specification: " + (why.group(1)[:150] if why else "?")))
        return len(ids), gen, dist, rej
    raise MachineryError("TLC failed on %s (rc %d)\n%s" % (spec, rc, out[-3000:]))

def find_line(trace_file, cid):
    with open(trace_file) as f:
        for line in f:
            if '"id":"%s"' % cid in line[:200]: return line
    return None

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines  'known: property=<id> unit=<regex> case=<regex> event=<regex> why=<regex> :: <text>'."""
    res, p = [], os.path.join(ROOT, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) unit=(\S+) case=(\S+) event=(\S+) why=(\S+) :: (.*)", line)
        if m and m.group(1) == prop: res.append(m.groups()[1:])
    return res

# ------------------------------------------------------------------ one check
def run_check(check, tier, seed):
    t0 = time.time()
    prop = check["id"]
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.makedirs(EVID, exist_ok=True)
    T = tier == "thorough"
    pick = lambda d, k, dflt=None: d.get(k + "_thorough", d.get(k, dflt)) if T else d.get(k, dflt)
    ev = {"models": [], "generators": [], "units": []}
    states = trans = traces = 0
    viols, samples, errors, notes = [], [], [], []
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool, cf.ThreadPoolExecutor(max(2, NCPU // 2)) as tpool:
            # -- models and generators
            def model(m):
                cfg = os.path.join(work, "m%d.cfg" % id(m))
                write_cfg(cfg, m.get("spec", "Spec"), pick(m, "consts"), m.get("invs", ()), m.get("props", ()), m.get("view"), m.get("constraint"))
                extra = list(pick(m, "extra", ()))
                sim = pick(m, "simulate")
                if sim: extra += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed)]
                rc, out = tlc(m["module"], cfg, work, 1 if m.get("gen") else pick(m, "workers", 2), extra, timeout=pick(m, "timeout", 900 if not T else 3600), heap=pick(m, "heap", "3g"))
                ok = "No error has been found" in out or (sim and rc == 0 and "Error:" not in out)
                if not ok: raise MachineryError("model %s: TLC reports\n%s" % (m["module"], out[-3000:]))
                g, d = counts(out)
                return {"module": m["module"], "consts": pick(m, "consts"), "generated": g, "distinct": d, "simulate": sim}, out
            mf = [pool.submit(model, m) for m in check.get("models", [])]
            gf = {g["name"]: pool.submit(model, dict(g, gen=True)) for g in check.get("gens", [])}
            # -- builds
            units = [u for u in check["units"] if T or not u.get("thorough_only")]
            units = [dict(u, name="%s.%d" % (u["name"], k), flags=u.get("flags", []) + ["-DPART=%d" % k]) if u.get("parts") else u for u in units for k in range(u.get("parts", 1))]
            uniq = {}
            for u in units: uniq.setdefault((u["src"], u.get("flavour", "asan"), tuple(u.get("flags", []))), u)
            bf = {k: pool.submit(compile_unit, u) for k, u in uniq.items()}
            # -- behaviours
            casefile = {}
            for g in check.get("gens", []):
                info, out = gf[g["name"]].result()
                beh = parse_tuples(out, "BEHAVIOUR")
                if not beh: raise MachineryError("generator %s printed no behaviour\n%s" % (g["name"], out[-1500:]))
                total = len(beh); cap = pick(g, "cap")
                if cap and total > cap:
                    random.Random(seed).shuffle(beh); beh = beh[:cap]
                path = os.path.join(work, g["name"] + ".cases")
                with open(path, "w") as f:
                    for b in beh:
                        gs = [b[0]] + list(b[1])
                        f.write(";".join(" ".join(str(x) for x in grp) for grp in gs) + "\n")
                casefile[g["name"]] = path
                ev["generators"].append(dict(info, behaviours=total, replayed=len(beh)))
                trans += info["generated"]
            # -- runs and validation
            def unit(u, sh, nsh):
                exe, msg = bf[(u["src"], u.get("flavour", "asan"), tuple(u.get("flags", [])))].result()
                if exe is None and u.get("flavour") == "sched":      # the other units decide
                    notes.append("unit %s left out: the program does not build for the controlled scheduler: %s" % (u["name"], "\n".join([l[:200] for l in msg.splitlines() if "error" in l or "undefined" in l][:3])))
                    return None
                if exe is None: raise MachineryError("unit %s does not compile:\n%s" % (u["name"], "\n".join([l[:300] for l in msg.splitlines() if "error" in l][:4]) or msg[-2000:]))
                tag = "%s.%d" % (u["name"], sh)
                args = {"seed": seed * 1009 + sh, "count": pick(u, "count", 50), "alarm": u.get("alarm", 60), "shard": sh, "shards": nsh, "thorough": 1 if T else 0}
                if u.get("cases"): args["cases"] = casefile[u["cases"]]
                args.update(pick(u, "args", {}))
                to = pick(u, "timeout", 300 if not T else 1800)
                res = {"unit": u["name"], "shard": sh, "viol": [], "traces": 0, "gen": 0, "dist": 0, "sample": None}
                r = run_driver(exe, args, work, tag, to, u.get("env"))
                def confirm_crash(r):
                    if r["rc"] in (-9, 137): raise MachineryError("unit %s was killed" % tag)
                    cid = r["status"].split(" ")[0]
                    for k in range(3):
                        r2 = run_driver(exe, dict(args, only=cid), work, tag + ".re%d" % k, to, u.get("env"))
                        if r2["rc"] != 0 and r2["status"] != "DONE": return r2, True
                    for k in range(2):
                        r2 = run_driver(exe, args, work, tag + ".rf%d" % k, to, u.get("env"))
                        if r2["rc"] != 0 and r2["status"] != "DONE": return r2, True
                    return r, r["rc"] != 97
                if r["rc"] != 0:
                    if not r["status"]: raise MachineryError("unit %s fails to start: %s" % (tag, r["err"][-1500:]))
                    r2, sure = confirm_crash(r)
                    if sure:
                        s = r2["status"].split(" ", 1)
                        res["viol"].append({"unit": u["name"], "case": s[0], "event": s[1] if len(s) > 1 else "?", "why": crash_why(r2), "detail": r2["err"][-4000:], "cmd": r2["cmd"]})
                    else: log("note: unconfirmed hang in %s %s" % (tag, r["status"]))
                elif r["status"] != "DONE": raise MachineryError("unit %s ended without finishing" % tag)
                n, g, d, rej = validate(u["spec"], r["out"], work, pick(u, "tlc_workers", 2), to)
                if n == 0 and not res["viol"]: raise MachineryError("unit %s recorded no case" % tag)
                res.update(traces=n, gen=g, dist=d)
                with open(r["out"]) as f: res["sample"] = f.readline()[:600]
                seen = set()
                for cid, k, kind, why in rej:
                    line = find_line(r["out"], cid)
                    evs = json.loads(line)["ev"] if line else []
                    if kind == "?" and 0 < k <= len(evs): kind = evs[k - 1]["k"]
                    sig = (kind, why)
                    if sig in seen and len(seen) > 3: continue
                    if len(res["viol"]) >= 40: break
                    first = sig not in seen
                    seen.add(sig)
                    if first and len(seen) <= 4:   # the recorded trace must be rejected again on its own
                        f1 = os.path.join(work, tag + ".one.ndjson")
                        open(f1, "w").write(line)
                        _, _, _, rej1 = validate(u["spec"], f1, work, 1, to)
                        if not rej1: raise MachineryError("rejection of %s not repeatable" % cid)
                    res["viol"].append({"unit": u["name"], "case": cid, "event": kind, "why": why, "detail": line[:20000] if line else "", "cmd": r["cmd"] + ["only=" + cid]})
                return res
            futs = []
            for u in units:
                nsh = pick(u, "shards", 1)
                for sh in range(nsh): futs.append((u, tpool.submit(unit, u, sh, nsh)))
            for f in mf:
                try: info, _ = f.result()
                except MachineryError as x: errors.append(str(x)); continue
                ev["models"].append(info); states += info["distinct"]; trans += info["generated"]
            agg = {}
            for u, f in futs:
                try: r = f.result()
                except MachineryError as x: errors.append(str(x)); continue
                if r is None: continue
                states += r["dist"]; trans += r["gen"]; traces += r["traces"]
                a = agg.setdefault(u["name"], {"unit": u["name"], "spec": u["spec"], "src": u["src"], "flavour": u.get("flavour", "asan"), "traces": 0, "events_accepted": 0})
                a["traces"] += r["traces"]; a["events_accepted"] += r["dist"] - 2 * r["traces"]
                if r["sample"] and len(samples) < 4: samples.append({"unit": u["name"], "trace_line": r["sample"]})
                viols += r["viol"]
            ev["units"] = list(agg.values())
    except MachineryError as x:
        errors.append(str(x))
    finally:
        for d in (work,): shutil.rmtree(d, ignore_errors=True)
    # -- verdict
    kf = known_findings(prop)
    hit, new = {}, []
    for v in viols:
        m = [k for k in kf if re.fullmatch(k[0], v["unit"]) and re.fullmatch(k[1], v["case"]) and re.fullmatch(k[2], v["event"].replace(" ", "_")) and re.fullmatch(k[3], v["why"].replace(" ", "_"))]
        if m: hit[m[0][4]] = hit.get(m[0][4], 0) + 1
        else: new.append(v)
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": check.get("level", "model_checking"),
                "coverage": dict(ev, states=states, transitions=trans, traces_validated_against_impl=traces, samples=samples or ["none"]),
                "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    if notes: evidence["coverage"]["notes"] = sorted(set(notes))[:8]
    if errors: evidence["errors"] = errors[:5]
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(evidence, f, indent=1)
    if new:
        rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
        v = new[0]
        path = os.path.join(rd, "%s.json" % prop)
        with open(path, "w") as f: json.dump({"property": prop, "violations": new[:20]}, f, indent=1)
        for x in new[:6]: print("  %s: case %s, event %s: %s" % (x["unit"], x["case"], x["event"], x["why"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for x in errors: log("ERROR: " + x)
        return 2
    print("OK property=%s tier=%s traces=%d states=%d transitions=%d wall=%.1fs" % (prop, tier, traces, states, trans, time.time() - t0))
    return 0

def main(argv):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import checks
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(checks.CHECKS[argv[0]], tier, seed)

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
