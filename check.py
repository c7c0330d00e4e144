#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: the machinery failed.
Environment: VERIF_TIER (quick|thorough), VERIF_SEED.
"""
import json, os, re, shutil, subprocess, sys, time, importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TLA = os.path.join(HERE, "tla")

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def base_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             PYTHONPATH=os.path.join(HERE, "harness"))
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e

def build():
    if not os.path.exists(os.path.join(HERE, "build/classes/vp/NumOverrides.class")) or \
            os.path.getmtime(os.path.join(HERE, "build/classes/vp/NumOverrides.class")) < os.path.getmtime(os.path.join(HERE, "java/vp/NumOverrides.java")):
        r = sh(["sh", os.path.join(HERE, "setup.sh")])
        if r.returncode:
            die("setup failed\n" + r.stdout)
    r = sh([PY, "/opt/vp/py/build_ext.py"], cwd=REPO, env=base_env())
    if r.returncode:
        die("building /repo failed\n" + r.stdout[-3000:])

def tlc(module, cfg, run, env, workers=8, extra=(), timeout=840):
    """Runs TLC; returns (ok, output, stats)."""
    meta = os.path.join(run, "tlc-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    e = base_env()
    e.update(env)
    cmd = ["java", "-Xss64m", "-Xmx8g", "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.NumOverrides",
           "-cp", os.path.join(HERE, "build/classes") + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    out_path = os.path.join(run, module + ".out")
    with open(out_path, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=TLA, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    out = open(out_path, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = dict(module=module, rc=rc, generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0, wall_s=round(time.time() - t0, 1))
    return rc == 0 and "No error has been found" in out, out, stats

def quoted(prefix, out):
    for line in out.splitlines():
        if line.startswith('"' + prefix + " "):
            yield json.loads(json.loads(line)[len(prefix) + 1:])

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    run = os.path.join(HERE, "build", "run", pid)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    build()
    times = dict(build=round(time.time() - t0, 1))

    # 1. design model: exhaustive check, emits the behaviours to replay
    models, gen = [], []
    mods = sorted(f[:-4] for f in os.listdir(TLA) if re.match(r"MC_%s[a-z]?\.tla$" % pid, f))
    for mod in mods:
        cfg = mod + ("_thorough.cfg" if tier == "thorough" and os.path.exists(os.path.join(TLA, mod + "_thorough.cfg")) else ".cfg")
        ok, out, st = tlc(mod, cfg, run, dict(SEED=str(seed)))
        models.append(st)
        if not ok:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"GEN'))[-3000:]
            die(f"the design model {mod} was not accepted by TLC:\n{tail}")
        gen += list(quoted("GEN", out))
    gen.sort(key=lambda x: json.dumps(x, sort_keys=True))
    gen_path = os.path.join(run, "gen.json")
    json.dump(gen, open(gen_path, "w"))
    times["models"] = round(sum(m["wall_s"] for m in models), 1)

    # 2. replay into the real code
    trace_path = os.path.join(run, "trace.json")
    t1 = time.time()
    timeout = 420 if tier == "quick" else 3600
    try:
        r = sh([PY, os.path.join(HERE, "harness", pid.lower() + ".py"), "--gen", gen_path, "--out", trace_path, "--seed", str(seed), "--tier", tier],
               cwd=run, env=base_env(), timeout=timeout)
        rc, hout = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, hout = "timeout", ""
    times["replay"] = round(time.time() - t1, 1)
    broken = []   # (clause, key, detail, session, position)
    sessions = []
    if rc != 0:
        cur = ""
        try:
            cur = open(trace_path + ".cur").read().strip("\0 \n")
        except OSError:
            pass
        if (rc == "timeout" or (isinstance(rc, int) and rc < 0)) and cur:
            broken.append(("terminates_normally", cur, "the process running this call " + ("did not finish" if rc == "timeout" else f"was killed by signal {-rc}"), None, None))
        elif rc == 1 and '  File "/repo/copulae/' in hout.rsplit("Traceback (most recent call last)", 1)[-1]:
            # a valid call the replay relies on raised inside the library
            last = hout.strip().splitlines()[-1]
            broken.append(("valid_call_succeeds", cur or "preparation", last[:300], None, None))
        else:
            die(f"harness failed ({rc})\n{hout[-3000:]}")
    else:
        # 3. trace validation
        sessions = json.load(open(trace_path))
        n_ev = sum(len(s["events"]) for s in sessions)
        ok, out, st = tlc("Trace_" + pid, "Replay.cfg", run, dict(TRACE=trace_path), timeout=840 if tier == "quick" else 7200)
        models.append(st)
        times["validate"] = st["wall_s"]
        if not ok and st["rc"] > 0 and re.search(r"Attempted to|In evaluation, the identifier|The following error", out) and not re.search(r"OutOfMemory|StackOverflow", out):
            # an observation has a form the specification cannot read (a field, row or number it promises is not there)
            why = next((l for l in out.splitlines() if l.startswith("Attempted to")), "evaluation failed")
            m = re.findall(r"rSid = (\d+)", out), re.findall(r"rPos = (\d+)", out)
            sid, pos = (int(m[0][-1]), int(m[1][-1]) + 1) if m[0] and m[1] else (None, None)
            ev = sessions[sid - 1]["events"][min(pos, len(sessions[sid - 1]["events"])) - 1] if sid else {}
            broken.append(("observation_fits_the_specification", ev.get("key", ev.get("op", "?")), why[:300], sid, pos))
        elif not ok or st["distinct"] != n_ev + len(sessions):
            die("trace validation did not complete:\n" + "\n".join(l for l in out.splitlines() if not l.startswith('"CLAUSE'))[-3000:])
        for sid, pos, name, detail in quoted("CLAUSE", out):
            ev = sessions[sid - 1]["events"][pos - 1]
            broken.append((name, ev.get("key", ev.get("op", "?")), detail, sid, pos))
    broken.sort(key=lambda b: (b[3] or 0, b[4] or 0, b[0]))

    # 4. verdict
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
    fresh, seen = [], {}
    for b in broken:
        for k in known:
            if re.fullmatch(k["clause"], b[0]) and re.fullmatch(k["key"], b[1]):
                seen.setdefault(k["what"], b)
                break
        else:
            fresh.append(b)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["what"] in seen else " (not reproduced by this run)"))
    n_ev = sum(len(s["events"]) for s in sessions)
    design = [m for m in models if m["module"].startswith("MC_")]
    samples = []
    for s in sessions[:: max(1, len(sessions) // 4)][:4]:
        if s["events"]:
            e = s["events"][len(s["events"]) // 2]
            samples.append(dict(session=s.get("name", ""), event=e.get("key", e.get("op")), op=e.get("op")))
    evidence = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1),
                    coverage=dict(states=sum(m["distinct"] for m in design), transitions=sum(m["generated"] for m in design),
                                  traces_validated_against_impl=len(sessions), samples=samples,
                                  generated_behaviours=len(gen), events_validated=n_ev,
                                  events_by_op=count(sessions), trace_states=models[-1]["distinct"] if sessions else 0, models=models, times=times),
                    assumptions=["finite samples of the inputs beyond the enumerated behaviours; see DESIGN.md", "java/vp/NumOverrides.java implements IEEE arithmetic"],
                    violations=[dict(clause=b[0], key=b[1], detail=b[2]) for b in fresh[:50]])
    json.dump(evidence, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid}: {evidence['coverage']['states']} design states, {len(gen)} generated behaviours, {len(sessions)} sessions / {n_ev} events validated, {len(broken)} clause failures, {evidence['wall_s']} s {times}")
    if fresh:
        names = {}
        for b in fresh:
            names.setdefault(b[0], []).append(b)
        for n, bs in sorted(names.items()):
            print(f"  broken clause {n} ({len(bs)}x): {bs[0][1]}: {bs[0][2]}")
        b = fresh[0]
        replay = os.path.join(run, "violation.json")
        json.dump(dict(property=pid, seed=seed, tier=tier, broken=[dict(clause=x[0], call=x[1], detail=x[2]) for x in fresh[:200]],
                       session=None if b[3] is None else dict(sessions[b[3] - 1], events=sessions[b[3] - 1]["events"][:b[4]])), open(replay, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    sys.exit(0)

def count(sessions):
    c = {}
    for s in sessions:
        for e in s["events"]:
            c[e.get("op", "?")] = c.get(e.get("op", "?"), 0) + 1
    return c

main()
