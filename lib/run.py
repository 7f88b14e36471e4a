#!/opt/venv/bin/python
"""Runs the checks.

  run.py C02              one property, tier and seed from VERIF_TIER / VERIF_SEED
  run.py --setup          compile the TLC overrides and test them
  run.py --replay FILE    validate a recorded session again
"""
import collections, concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
JARS = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
CLS = os.path.join(ROOT, ".build", "classes")
REPO = os.environ.get("VERIF_REPO", "/repo")
DRIVER_LIMIT = 600
TLC_LIMIT = 800


class Broken(Exception):
    """The machinery failed (not the property)."""


def build_java():
    src = [os.path.join(ROOT, "java", f) for f in sorted(os.listdir(os.path.join(ROOT, "java"))) if f.endswith(".java")]
    os.makedirs(CLS, exist_ok=True)
    with open(os.path.join(CLS, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(CLS, ".stamp")
        sig = "".join(open(f).read() for f in src)
        if os.path.exists(stamp) and open(stamp).read() == sig:
            return
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", CLS] + src, capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac: " + r.stderr)
        with open(stamp, "w") as f:
            f.write(sig)


def tlc(module, cfg, tmp, env=None, workers=8, args=(), limit=TLC_LIMIT, mem="6g"):
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xmx" + mem, "-Xss64m", "-cp", CLS + ":" + JARS,
           "-DTLA-Library=" + os.path.join(ROOT, "tla"), "tlc2.TLC", "-nowarning", "-workers", str(workers),
           "-metadir", meta, "-config", os.path.join(ROOT, "tla", cfg)] + list(args) + [os.path.join(ROOT, "tla", module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=limit, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s did not finish in %d s" % (module, limit))
    out = r.stdout + r.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    ok = "Model checking completed. No error has been found" in out
    lines = [x for x in out.splitlines() if not re.match(r"^(Loading|Parsing|Semantic|Linting|Computed \d|Progress)", x)]
    return dict(ok=ok, states=dist, generated=gen, out="\n".join(lines), rc=r.returncode)


def driver_env(tmp):
    e = dict(os.environ)
    e.update(PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             MPLCONFIGDIR=os.path.join(tmp, "mpl"), CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", JAX_PLATFORMS="cpu",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
             TF_ENABLE_ONEDNN_OPTS="0",
             PYTHONPATH=":".join([REPO, HERE, os.path.join(ROOT, "drivers")]))
    return e


def run_driver(c, drv, tmp, k):
    """Runs one driver process; returns (trace path, error text or None)."""
    out = os.path.join(tmp, "trace%d.json" % k)
    script, args = drv[0], list(drv[1:])
    cmd = [PY, "-B", os.path.join(ROOT, "drivers", script), out] + args
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=driver_env(tmp), timeout=DRIVER_LIMIT, cwd=tmp)
    except subprocess.TimeoutExpired:
        return out, "the driver %s did not finish in %d s (a call into the code under test does not return)" % (script, DRIVER_LIMIT)
    if r.returncode == -9:
        raise Broken("the driver %s was killed" % script)
    if r.returncode != 0:
        return out, "the driver %s ended with code %d\n%s" % (script, r.returncode, (r.stdout + r.stderr)[-3000:])
    return out, None


def short(ev, n=400):
    t = json.dumps(ev)
    return t if len(t) <= n else t[:n] + "..."


def validate(module, path, tmp, parts=1):
    """TLC over a trace; returns (tlc result, failures [(session, event, op, clause)], sessions)."""
    data = json.load(open(path))
    want = sum(len(s["ev"]) + 1 for s in data)
    r = tlc(module, "Trace.cfg", tmp, env={"TRACE": path}, workers=8 if parts == 1 else 4 if parts < 4 else 2, mem="6g" if parts < 4 else "3g")
    fails = [(int(a), int(b), c, d) for a, b, c, d in re.findall(r'<<"FAIL", (\d+), (\d+), "([^"]*)", "([^"]*)">>', r["out"])]
    if not r["ok"]:
        if re.search(r"(OutOfMemory|StackOverflow|Parse Error|Semantic error|Unknown operator|Could not find|java\.lang\.[A-Z]\w*Error)", r["out"]):
            raise Broken("TLC on %s:\n%s" % (module, r["out"][-3000:]))
        m = re.search(r"/\\ s = (\d+)\s", r["out"])
        m2 = re.search(r"/\\ l = (\d+)\s", r["out"])
        where = [(int(a), int(b)) for a, b in zip(re.findall(r"/\\ s = (\d+)", r["out"]), re.findall(r"/\\ l = (\d+)", r["out"]))]
        if where and not fails:
            sx, lx = where[-1]
            fails.append((sx, lx, data[sx - 1]["ev"][lx - 1]["op"] if lx <= len(data[sx - 1]["ev"]) else "?", "record cannot be interpreted: " + " ".join(re.findall(r"Error: (.*)", r["out"])[:3])[:300]))
        elif not fails:
            raise Broken("TLC on %s:\n%s" % (module, r["out"][-3000:]))
    elif r["states"] != want:
        # a session stopped early: an event no action of the specification accepts
        raise Broken("TLC on %s consumed %d of %d states\n%s" % (module, r["states"], want, r["out"][-1500:]))
    return r, fails, data


def known_findings(pid):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    build_java()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    outdir = os.path.join(ROOT, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    viol = []      # (replay path, text)
    known = set()
    try:
        kf = known_findings(pid)
        with cf.ThreadPoolExecutor(8) as ex:
            def part(k, drv):
                path, err = run_driver(c, drv, tmp, k)
                mod = c["trace"][k] if isinstance(c["trace"], list) else c["trace"]
                return mod, err, None if err else validate(mod, path, tmp, len(c["drivers"]))
            fd = [ex.submit(part, k, drv) for k, drv in enumerate(c["drivers"])]
            fm = []
            for d in c.get("design", []):
                mod, cfg = d if isinstance(d, tuple) else (d, d + ".cfg")
                th = cfg[:-4] + "_thorough.cfg"
                if tier == "thorough" and os.path.exists(os.path.join(ROOT, "tla", th)):
                    cfg = th
                fm.append((mod, cfg, ex.submit(tlc, mod, cfg, tmp, None, 4 if tier == "quick" else 8, ["-seed", str(seed)])))
            traces = []
            ops, nsess, nev, tstates, tgen = collections.Counter(), 0, 0, 0, 0
            samples, labels = [], set()
            for k, f in enumerate(fd):
                mod, err, res = f.result()
                if err:
                    rp = os.path.join(outdir, "driver-%d.txt" % k)
                    open(rp, "w").write(err)
                    viol.append((rp, err))
                    continue
                r, fails, data = res
                tstates += r["states"]
                tgen += r["generated"]
                nsess += len(data)
                for sx in data:
                    labels.add(json.dumps(sx["ev"][0])[:2000] + sx["label"])
                    for e in sx["ev"]:
                        ops[e["op"]] += 1
                        nev += 1
                for sx in data[:1] + data[len(data) // 2:len(data) // 2 + 1]:
                    samples.append(sx["label"] + ": " + " | ".join(short(e, 240) for e in sx["ev"][:3]))
                seen = set()
                for (si, li, op, clause) in fails:
                    lab = data[si - 1]["label"]
                    ev = data[si - 1]["ev"][li - 1]
                    sig = "%s/%s/%s" % (lab, op, clause)
                    hit = [kk for kk in kf if re.fullmatch(kk[0], sig.replace(" ", "_"))]
                    if hit:
                        known.add(hit[0][1])
                        continue
                    if (op, clause) in seen and len(viol) > 5:
                        continue
                    seen.add((op, clause))
                    rp = os.path.join(outdir, "replay-%d.json" % len(viol))
                    with open(rp, "w") as fo:
                        json.dump(dict(property=pid, module=mod, seed=seed, tier=tier, clause=clause, event=li,
                                       session=data[si - 1]), fo)
                    viol.append((rp, "session '%s' event %d (%s): %s%s" % (lab, li, op, clause, (" -- " + ev["error"]) if "error" in ev else "")))
            missing = [o for o in c.get("ops", []) if not ops[o]]
            if missing and not viol:
                raise Broken("no event of kind %s was recorded" % missing)
            dstates = dgen = 0
            design = []
            for mod, cfg, f in fm:
                r = f.result()
                if not r["ok"]:
                    raise Broken("design model %s (%s) fails:\n%s" % (mod, cfg, r["out"][-3000:]))
                dstates += r["states"]
                dgen += r["generated"]
                design.append("%s/%s: %d distinct states, %d transitions" % (mod, cfg, r["states"], r["generated"]))
        cov = dict(states=dstates + tstates, transitions=dgen + tgen, traces_validated_against_impl=nsess,
                   design_states=dstates, design_transitions=dgen, design_models=design,
                   trace_states=tstates, events_validated=nev, events_by_kind=dict(ops),
                   distinct_sessions=len(labels), samples=samples[:6])
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for rp, text in viol[:10]:
            print(text)
        print("%s %s: %d sessions, %d events, %d design states, %.1f s" % (pid, tier, nsess, nev, dstates, time.time() - t0))
        if viol:
            print("VIOLATION property=%s replay=%s" % (pid, viol[0][0]))
            return 1
        print("OK property=%s" % pid)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            build_java()
            tmp = tempfile.mkdtemp(prefix="verif-setup-")
            r = tlc("NumTest", "NumTest.cfg", tmp)
            shutil.rmtree(tmp, ignore_errors=True)
            if "NUMTEST-OK" not in r["out"]:
                raise Broken(r["out"])
            print("setup ok")
            return 0
        if a and a[0] == "--replay":
            d = json.load(open(a[1]))
            build_java()
            tmp = tempfile.mkdtemp(prefix="verif-replay-")
            p = os.path.join(tmp, "t.json")
            json.dump([d["session"]], open(p, "w"))
            r, fails, data = validate(d["module"], p, tmp)
            shutil.rmtree(tmp, ignore_errors=True)
            for f in fails:
                print("event %d (%s): %s" % f[1:])
            return 1 if fails else 0
        return check(a[0])
    except Broken as e:
        print("ERROR (machinery): %s" % e)
        return 2


sys.exit(main())
