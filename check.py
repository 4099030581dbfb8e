#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py P01 [quick|thorough]
   or replays a recorded violation:   python3 check.py --replay <file>

 1. builds the conformance drivers of the property from /repo's working tree,
 2. model-checks the design specifications of the property with TLC,
 3. runs the drivers, which record traces of the real code,
 4. has TLC validate every trace against the trace specification,
 5. shows that the binding is alive: a corrupted copy of a real trace must be rejected,
 6. confirms any rejection by a re-run and reports it, and writes the evidence file.

Exit 0: held on everything explored; 1: VIOLATION; 2: an error of the check itself."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GTL_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, ROOT)
from checks import CHECKS, FLAVORS   # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------- building
def build(job, work):
    src, defs, flavor = job
    name = hashlib.sha1(repr(job).encode()).hexdigest()[:12]
    out = os.path.join(work, "bin_" + name)
    cc, fl, libs = FLAVORS[flavor]
    cmd = [cc, "-std=c++20", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARN] + fl.split() + list(defs) + \
          [os.path.join(HARN, src), "-o", out] + libs.split()
    t = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CheckError("cannot build %s %s: %s" % (src, defs, p.stderr[-3000:]))
    return job, out, time.time() - t


# ------------------------------------------------------------------------------------- TLC
def tlc(module, cfg, work, tag, env=None, workers=2, heap="3g", timeout=800, extra=()):
    meta = os.path.join(work, "meta_" + tag)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT", -1
    shutil.rmtree(meta, ignore_errors=True)
    r = {"rc": rc, "out": out, "s": time.time() - t, "ok": "Model checking completed. No error has been found" in out}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    r["gen"], r["dist"] = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    r["deadlock"] = "Deadlock reached" in out
    m = re.findall(r"Invariant (\S+) is violated", out)
    r["inv"] = m[0] if m else None
    tid, l = re.findall(r"/\\ tid = (\d+)", out), re.findall(r"/\\ l = (\d+)", out)
    r["at"] = (int(tid[-1]), int(l[-1])) if tid and l else None
    r["evalerr"] = rc not in (0, -1) and not r["deadlock"] and not r["inv"] and r["at"] is not None
    m = re.findall(r"State \d+:.*?\n(.*?)(?:\n\n|\Z)", out, re.S)
    r["last"] = m[-1] if m else ""
    return r


def rejected(r):
    return r["deadlock"] or bool(r["inv"]) or r["evalerr"]


def validate(spec, lines, work, tag, workers=2, heap="3g", timeout=800, full=False):
    """TLC over a list of trace lines; returns the TLC result (full: with the states of a rejected trace)."""
    f = os.path.join(work, "tr_%s.ndjson" % tag)
    with open(f, "w") as h:
        h.write("".join(lines))
    cfg = spec + ".cfg"
    if full and sum(map(len, lines)) < 150000:
        with open(os.path.join(SPEC, cfg)) as h:
            text = "".join(x for x in h if not x.startswith("ALIAS"))
        cfg = os.path.join(work, "full_%s.cfg" % tag)
        with open(cfg, "w") as h:
            h.write(text)
    r = tlc(spec + ".tla", cfg, work, tag, {"TRACE": f}, workers, heap, timeout)
    if not r["ok"] and not rejected(r):
        raise CheckError("TLC failed on %s: %s" % (spec, r["out"][-3000:]))
    os.remove(f)
    return r


# ------------------------------------------------------------------------------------- drivers
def drive(exe, args, out, timeout):
    cmd = [exe, "--out", out] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
        rc, err = p.returncode, p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = -99, "wall-clock timeout"
    lines = []
    if os.path.exists(out):
        with open(out, errors="replace") as h:
            for ln in h:
                if ln.endswith("]}\n"):
                    lines.append(ln)
        os.remove(out)
    if rc != 0:
        # memory corruption in the code under test may have reached the record itself: keep what is readable
        for i, ln in enumerate(lines):
            try:
                json.loads(ln)
            except ValueError:
                m = re.match(r'\{[\w":,\- .]*?"ev":\[', ln)
                lines[i] = ln[:m.end()] + '["garbled"]]}\n' if m else None
        lines = [ln for ln in lines if ln]
        if not lines:
            rc = -98
    if rc not in (0, 8, 9):
        # died without closing its trace: record that as a trace of its own
        lines.append(json.dumps({"cfg": "driver", "seed": 0, "t": -1, "K": 1, "node": 0, "par": 0, "map": 0, "N": 1, "T": 1,
                                 "ev": [["killed", rc]]}) + "\n")
    return rc, err, lines


def run_job(bins, j, seed, work, tag, only=None):
    exe = bins[j["build"]]
    args = ["--seed", seed, "--shard", j.get("shard", 0), "--shards", j.get("shards", 1), "--traces", j["traces"],
            "--events", j["events"], "--profile", j.get("profile", "std")]
    if only:
        args += ["--only", only[0], "--trace", only[1]]
    rc, err, lines = drive(exe, args, os.path.join(work, "out_%s.ndjson" % tag), j.get("timeout", 600))
    return {"rc": rc, "err": err, "lines": lines, "cmd": args, "job": j}


def head(line):
    i = line.index('"ev":[')
    return json.loads(line[:i].rstrip(",") + "}")


def corrupt(line, rng, ops=None):
    """changes one recorded result of one event near the middle of the trace"""
    d = json.loads(line)
    ev = d["ev"]
    if ops:
        c = [i for i, e in enumerate(ev) if e[0] in ops and (isinstance(e[-1], int) or (isinstance(e[-1], list) and e[-1]))]
    else:
        c = [i for i, e in enumerate(ev) if len(e) > 2 and isinstance(e[-1], int) and i > 3]
    if not c:
        return None, None
    i = c[min(len(c) - 1, len(c) // 2 + rng.randrange(max(1, len(c) // 4)))]
    if isinstance(ev[i][-1], int):
        ev[i][-1] += 1
    else:
        ev[i][-1][-1] += 1
    return json.dumps(d, separators=(",", ":")) + "\n", i + 1


# ------------------------------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("property") == pid and k.get("status") == "known"]


def known_match(known, d, ev):
    for k in known:
        if re.fullmatch(k["cfg"], d.get("cfg", "")) and re.fullmatch(k["event"], json.dumps(ev, separators=(",", ":"))):
            return k
    return None


# ------------------------------------------------------------------------------------- main
def run(pid, tier, seed):
    t0 = time.time()
    C = CHECKS[pid]
    th = tier == "thorough"
    work = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=scratch())
    try:
        return run_in(pid, C, tier, th, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def scratch():
    d = os.path.join(ROOT, ".work")
    os.makedirs(d, exist_ok=True)
    return d


def run_in(pid, C, tier, th, seed, work, t0):
    jobs = []
    for j in C["jobs"]:
        j = dict(j)
        if th:
            j["traces"] = j["traces"] * j.get("deep", C.get("deep", 6))
            j["timeout"] = 3000
        jobs.append(j)
    models = [m for m in C.get("models", []) if th or not m.get("thorough")]
    seeds = [seed] if not th else [seed + 1000 * i for i in range(C.get("rounds", 3))]
    builds = sorted({j["build"] for j in jobs})

    # 1+2: build the drivers and check the design models side by side
    mres = {}
    with cf.ThreadPoolExecutor(8) as ex:
        mf = {ex.submit(tlc, m["module"] + ".tla", m["cfg"], work, "m%d" % i, None, m.get("workers", 2), m.get("heap", "4g"),
                        2400 if th else 600, ("-coverage", "1") if False else ()): m for i, m in enumerate(models)}
        bf = [ex.submit(build, b, work) for b in builds]
        bins = {}
        for f in cf.as_completed(bf):
            b, exe, s = f.result()
            bins[b] = exe
        log("built %d driver(s) in %.1fs" % (len(builds), time.time() - t0))
        # 3: traces of the real code (drivers start as soon as everything is built)
        rf = []
        for si, sd in enumerate(seeds):
            for ji, j in enumerate(jobs):
                rf.append(ex.submit(run_job, bins, j, sd, work, "%d_%d" % (si, ji)))
        runs = [f.result() for f in rf]
        for f, m in mf.items():
            r = f.result()
            if m.get("expect"):
                # a model of a protocol known to be wrong: TLC has to find the violation
                found = "deadlock" if r["deadlock"] else r["inv"]
                if found != m["expect"]:
                    raise CheckError("design model %s/%s: expected %s, got %s" % (m["module"], m["cfg"], m["expect"], found))
                mres[m["cfg"]] = {"module": m["module"], "states": r["dist"], "transitions": r["gen"], "s": round(r["s"], 1),
                                  "refuted_as_expected": found}
                continue
            if not r["ok"]:
                raise CheckError("design model %s/%s: %s" % (m["module"], m["cfg"], r["out"][-3000:]))
            mres[m["cfg"]] = {"module": m["module"], "states": r["dist"], "transitions": r["gen"], "s": round(r["s"], 1)}
            if r["dist"] < m.get("min_states", 1):
                raise CheckError("design model %s explored only %d states" % (m["cfg"], r["dist"]))
    log("models: %s; %d driver runs done at %.1fs" % ({k: v["states"] for k, v in mres.items()}, len(runs), time.time() - t0))

    # 4: validation
    byspec = {}
    origin = []
    for r in runs:
        spec = r["job"].get("spec", C.get("spec"))
        for ln in r["lines"]:
            byspec.setdefault(spec, []).append((ln, r))
    tasks = []
    for spec, lst in byspec.items():
        total = sum(len(x[0]) for x in lst)
        k = max(1, min(C.get("chunks", 4), total // 400000 + 1))
        if th:
            k = max(k, total // 25000000 + 1)
        parts = [[] for _ in range(k)]
        size = [0] * k
        for x in sorted(lst, key=lambda y: -len(y[0])):
            q = size.index(min(size))
            parts[q].append(x)
            size[q] += len(x[0])
        tasks += [(spec, p) for p in parts if p]
    nval = dist = gen = nev = 0
    ops = {}
    rejections = []
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(validate, sp, [x[0] for x in p], work, "v%d" % i, 2, "5g", 2400 if th else 700) for i, (sp, p) in enumerate(tasks)]
        broken = None
        for (sp, p), f in zip(tasks, fs):
            try:
                r = f.result()
            except CheckError as x:
                broken = x
                continue
            dist += r["dist"]
            gen += r["gen"]
            if rejected(r):
                tid, l = r["at"]
                rejections.append((sp, p[tid - 1], l, r))
            else:
                nval += len(p)
    for sp, p in tasks:
        for ln, _ in p:
            for o in re.findall(r'\["([a-z_A-Z0-9]+)"', ln):
                ops[o] = ops.get(o, 0) + 1
                nev += 1
    log("validated %d traces, %d events, %d states at %.1fs" % (nval, nev, dist, time.time() - t0))

    # 6: rejections are confirmed before they are reported
    known = load_known(pid)
    viol = None
    knownhits = {}
    for sp, (ln, rr), l, r in rejections:
        d = json.loads(ln)
        ev = d["ev"][l - 1] if l <= len(d["ev"]) else ["end"]
        r2 = validate(sp, [ln], work, "confirm", full=True)
        if not rejected(r2):
            log("NOTE: rejection of %s not repeated by TLC on the same trace; ignored" % d.get("cfg"))
            continue
        l = r2["at"][1]
        ev = d["ev"][l - 1] if l <= len(d["ev"]) else ["end"]
        k = known_match(known, d, ev)
        if k:
            knownhits[k["id"]] = k
            continue
        again = None
        for _ in range(2):
            jb = dict(rr["job"])
            sd = rr["cmd"][1]
            only = (d["cfg"], d["t"]) if d.get("t", -1) >= 0 else None
            rerun = run_job(bins, jb, sd, work, "again", only)
            for l2 in rerun["lines"]:
                if only is None or (head(l2).get("cfg"), head(l2).get("t")) == only:
                    r3 = validate(sp, [l2], work, "again2")
                    if rejected(r3):
                        again = (l2, r3)
            if again:
                break
        if not again:
            if ev[0] in ("hang", "killed", "stuck"):
                log("NOTE: %s of %s did not repeat; ignored" % (ev[0], d.get("cfg")))
                continue
            log("NOTE: the recorded trace is rejected again; a fresh execution did not repeat it")
        viol = (sp, ln, rr, l, ev, r2, d, bool(again))
        break

    if broken and not viol:
        raise broken
    # 5: the binding is alive
    rng = random.Random(seed)
    binding = []
    if not viol:
        for sp in byspec:
            good = [x[0] for x in byspec[sp] if len(x[0]) > 400]
            if not good:
                continue
            # (an argument that makes no difference may be hit: several attempts)
            tried, r = 0, None
            for _ in range(60):
                bad, at = corrupt(good[rng.randrange(len(good))], rng, C.get("corrupt"))
                if not bad:
                    continue
                tried += 1
                r = validate(sp, [bad], work, "corrupt")
                if rejected(r) or tried == 12:
                    break
            if not tried:
                continue
            if not rejected(r):
                raise CheckError("corrupted traces were accepted by " + sp)
            binding.append({"spec": sp, "corrupted_event": at, "rejected_at": r["at"][1]})
        missing = [o for o in C.get("must", []) if not ops.get(o)]
        if missing:
            raise CheckError("never exercised: %s" % missing)
        if nval == 0:
            raise CheckError("no trace validated")

    samples = []
    for sp in byspec:
        for ln, _ in byspec[sp][:2]:
            d = json.loads(ln)
            samples.append({"spec": sp, "cfg": d.get("cfg"), "events": len(d["ev"]), "first_events": d["ev"][:8]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": dist + sum(m["states"] for m in mres.values()),
                       "transitions": gen + sum(m["transitions"] for m in mres.values()),
                       "traces_validated_against_impl": nval, "samples": samples[:6],
                       "events_validated": nev, "calls_by_kind": dict(sorted(ops.items())),
                       "configurations": sorted({head(x[0]).get("cfg", "?") for sp in byspec for x in byspec[sp]}),
                       "trace_specs": {sp: len(v) for sp, v in byspec.items()},
                       "design_models": mres, "binding_selftest": binding, "seeds": seeds,
                       "driver_builds": [" ".join([b[0]] + list(b[1]) + [b[2]]) for b in builds]},
          "assumptions": C.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for k in known:
        if k["id"] in knownhits or k.get("always"):
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        sp, ln, rr, l, e, r2, d, again = viol
        rp = os.path.join(ROOT, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s_%s_%s.json" % (pid, d.get("cfg"), d.get("t")))
        with open(path, "w") as h:
            json.dump({"property": pid, "spec": sp, "event_index": l, "event": e, "state_before": r2["last"][-6000:],
                       "previous_events": d["ev"][max(0, l - 15):l - 1], "reproduced_by_fresh_run": again,
                       "header": {k: v for k, v in d.items() if k != "ev"}, "driver_args": rr["cmd"], "build": rr["job"]["build"],
                       "driver_stderr": rr["err"][-1500:], "trace": ln}, h, indent=1)
        log("event %d of a trace of %s is not allowed by %s: %s" % (l, d.get("cfg"), sp, json.dumps(e)[:600]))
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    log("OK %s: %d traces, %d events, %d states, %.1fs" % (pid, nval, nev, ev["coverage"]["states"], time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="replay_", dir=scratch())
    try:
        r = validate(d["spec"], [d["trace"]], work, "r", full=True)
        print("recorded trace:", "rejected at event %d" % r["at"][1] if rejected(r) else "accepted")
        b = (d["build"][0], tuple(d["build"][1]), d["build"][2])
        _, exe, _ = build(b, work)
        a = d["driver_args"] + (["--only", d["header"]["cfg"], "--trace", d["header"]["t"]] if d["header"].get("t", -1) >= 0 else [])
        rc, err, lines = drive(exe, a, os.path.join(work, "o"), 600)
        n = 0
        for ln in lines:
            r = validate(d["spec"], [ln], work, "r")
            if rejected(r):
                n += 1
                e = json.loads(ln)
                print("fresh execution rejected at event", r["at"][1], e["ev"][r["at"][1] - 1])
        print("fresh execution:", "VIOLATION" if n else "accepted", err[-500:])
        return 1 if n else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(run(pid, tier, int(os.environ.get("VERIF_SEED", "1"))))
    except CheckError as x:
        log("ERROR of the check: " + str(x))
        sys.exit(2)
