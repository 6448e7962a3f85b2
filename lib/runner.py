"""check = execute sessions on the real code, then let TLC judge the recorded traces."""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
sys.path[:0] = [os.path.join(ROOT, "lib"), ROOT]
import build          # noqa: E402
import tlc            # noqa: E402

NW = 8


def run_worker(prop, items, ctxp, scratch, idx, timeout_evt, budget):
    """items: [(sid, session)].  Restarts after a crash.  Returns {sid: [events]}."""
    events = {}
    todo = list(items)
    deadline = time.time() + budget
    deaths = 0
    while todo:
        sf = os.path.join(scratch, "in.%d" % idx)
        of = os.path.join(scratch, "out.%d.%d" % (idx, deaths))
        json.dump(todo, open(sf, "w"))
        open(of, "w").close()
        errf = open(os.path.join(scratch, "err.%d" % idx), "ab")
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.Popen([PY, os.path.join(ROOT, "lib", "worker.py"), prop, sf, of, ctxp],
                             stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, env=e,
                             cwd=scratch, start_new_session=True)
        last, lastt, how = -1, time.time(), None
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            sz = os.path.getsize(of)
            if sz != last:
                last, lastt = sz, time.time()
            if time.time() - lastt > timeout_evt or time.time() > deadline:
                how = "timeout"
                os.killpg(p.pid, 9)
                p.wait()
                break
        errf.close()
        done, cur, open_evt = set(), None, None
        with open(of) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    break
                if "s" in d:
                    cur = d["s"]
                    events[cur] = []
                    open_evt = None
                elif "b" in d:
                    open_evt = {"op": d["b"], "x": "", "a": d["a"], "r": {}}
                elif "e" in d:
                    open_evt["r"] = d["r"]
                    open_evt["x"] = d["x"]
                    if "tb" in d:
                        open_evt["tb"] = d["tb"]
                    events[cur].append(open_evt)
                    open_evt = None
                elif "f" in d:
                    done.add(d["f"])
        os.unlink(of)
        if p.returncode == 0 and how is None:
            return events, deaths
        if how is None:
            how = "crash:%d" % p.returncode
        deaths += 1
        if time.time() > deadline and how == "timeout" and open_evt is None:
            raise RuntimeError("worker ran out of its time budget")
        if cur is None:
            raise RuntimeError("worker died before its first session: " +
                               open(os.path.join(scratch, "err.%d" % idx), errors="replace").read()[-2000:])
        if open_evt is not None:
            open_evt["x"] = how
            events[cur].append(open_evt)
        elif cur not in done:
            events[cur].append({"op": "harness", "x": how, "a": {}, "r": {}})
        todo = [it for it in todo if it[0] not in done and it[0] != cur]
        if deaths > 6:
            break
    return events, deaths


def execute(prop, sessions, ctx, scratch, timeout_evt=20, budget=500):
    ctxp = os.path.join(scratch, "ctx.json")
    json.dump(ctx, open(ctxp, "w"))
    shards = [[] for _ in range(NW)]
    order = sorted(range(len(sessions)), key=lambda i: -sessions[i].get("w", 1))
    load = [0.0] * NW
    for i in order:
        k = load.index(min(load))
        load[k] += sessions[i].get("w", 1)
        shards[k].append((i, sessions[i]))
    for s in shards:
        s.sort(key=lambda it: it[0])
    events, deaths = {}, 0
    with ThreadPoolExecutor(NW) as ex:
        futs = [ex.submit(run_worker, prop, s, ctxp, scratch, k, timeout_evt, budget)
                for k, s in enumerate(shards) if s]
        for f in futs:
            ev, d = f.result()
            events.update(ev)
            deaths += d
    return events, deaths


def write_trace(path, sessions, events):
    """Returns the list of session ids in file order."""
    ids = []
    with open(path, "w") as f:
        for i in sorted(events):
            ev = [{k: v for k, v in e.items() if k != "tb"} for e in events[i]]
            if not ev:
                continue
            d = {k: v for k, v in sessions[i].items() if k not in ("w", "seed", "gen") and not k.startswith("_")}
            d["ev"] = ev
            f.write(json.dumps(d, separators=(",", ":")) + "\n")
            ids.append(i)
    return ids


def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "open"]


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + prop.lower())
    scratch = tempfile.mkdtemp(prefix="verif.%s." % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    try:
        return _check(prop, mod, tier, seed, scratch, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)


def _check(prop, mod, tier, seed, scratch, t0):
    say = lambda *a: print(*a, flush=True)     # noqa: E731
    try:
        ctx = build.build(getattr(mod, "NEEDS", []), scratch)
    except build.BuildError as ex:
        say("BUILD-ERROR", ex)
        return 2
    ctx["tier"] = tier
    ctx["scratch"] = scratch
    violations = []           # (clause, replay data)
    models, states, transitions = [], 0, 0
    # 1. the specification's own obligations, exhaustively at small bounds
    mpool = ThreadPoolExecutor(1)

    mods = mod.models(tier) if hasattr(mod, "models") else []

    def do_models(ms):
        return [(m, tlc.run_tlc(m["module"], m["cfg"], scratch, workers=m.get("workers", 4),
                                timeout=m.get("timeout", 700), extra=m.get("extra", ()))) for m in ms]
    mfut = mpool.submit(do_models, [m for m in mods if "emit" not in m])
    done_models, behav = do_models([m for m in mods if "emit" in m]), {}
    for m, r in done_models:
        # behaviours of the specification, to be replayed into the code
        behav[m["emit"]] = [json.loads(json.loads(x)[6:]) for x in r.out.splitlines() if x.startswith('"BEHAV ')]
        if r.completed and not behav[m["emit"]]:
            say("MODEL-ERROR no behaviours", m["module"])
            return 2
    # 2. run the implementation
    sessions = mod.sessions(tier, seed, behav) if behav else mod.sessions(tier, seed)
    events, deaths = execute(prop, sessions, ctx, scratch,
                             timeout_evt=getattr(mod, "EVENT_TIMEOUT", 30),
                             budget=getattr(mod, "BUDGET", 500) * (1 if tier == "quick" else 4))
    t_exec = time.time() - t0
    for m, r in done_models + mfut.result():
        name = m["module"] + (":" + m["name"] if "name" in m else "")
        if not r.completed:
            say("MODEL-ERROR", name)
            say(r.out[-3000:])
            return 2
        models.append({"model": name, "bounds": m.get("bounds", ""), "generated": r.generated,
                       "distinct": r.distinct, "wall_s": round(r.wall, 1)})
        states += r.distinct
        transitions += r.generated
    # 3. let TLC judge every recorded trace
    tf = os.path.join(scratch, "trace.ndjson")
    ids = write_trace(tf, sessions, events)
    nev = sum(len(events[i]) for i in ids)
    cfg = getattr(mod, "CFG", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    mism, skipped = [], set()
    for attempt in range(4):
        r = tlc.run_tlc(mod.SPEC, cfg, scratch, env={"TRACE_FILE": tf}, workers=NW,
                        timeout=getattr(mod, "TLC_TIMEOUT", 600) * (1 if tier == "quick" else 5), mem="12g")
        if r.completed:
            break
        import re
        ms = re.findall(r"/\\ sid = (\d+)", r.out)
        ml = re.findall(r"/\\ l = (\d+)", r.out)
        if not ms or "TIMEOUT" in r.out[-20:]:
            say("TRACE-SPEC-ERROR")
            say(r.out[-3500:])
            return 2
        # the specification could not even be evaluated on what the code returned
        k, l = int(ms[-1]), int(ml[-1])
        say("EVALUATION-ERROR session %d event %d" % (k, l + 1))
        say(r.out[-1500:] if os.environ.get("VERIF_DEBUG") else "")
        mism.append((ids[k - 1], l + 1, "result outside the specification's domain"))
        skipped.add(ids[k - 1])
        ids = write_trace(tf, sessions, {i: events[i] for i in events if i not in skipped})
    else:
        return 1 if report(prop, mod, sessions, events, mism, {}, seed, tier, say) else 2
    for s, l, why in r.mismatches:
        mism.append((ids[s - 1], l, why))
    if not mism and r.distinct != sum(1 + len(events[i]) for i in ids):
        say("TRACE-SPEC-ERROR: consumed %d of %d states" % (r.distinct, sum(1 + len(events[i]) for i in ids)))
        return 2
    missing = [i for i in range(len(sessions)) if i not in events]
    if missing and not mism:
        say("HARNESS-ERROR: %d sessions were not run" % len(missing))
        return 2
    states += r.distinct
    transitions += r.generated
    kinds = {}
    seen = set()
    for i in ids:
        for e in events[i]:
            kinds[e["op"]] = kinds.get(e["op"], 0) + 1
            seen.add(hashlib.blake2b(json.dumps([e["op"], e["a"]]).encode(), digest_size=8).digest())
    kf = {k["clause"]: k for k in known(prop)}
    bad = report(prop, mod, sessions, events, mism, kf, seed, tier, say)
    cov = {"states": states, "transitions": transitions,
           "traces_validated_against_impl": len(ids),
           "evaluations": nev, "distinct_nontrivial": len(seen),
           "rule": getattr(mod, "RULE", "an event is one call into the real code; distinct by operation and arguments"),
           "events_by_operation": kinds, "models": models, "worker_deaths": deaths,
           "exec_s": round(t_exec, 1), "tlc_s": round(r.wall, 1),
           "samples": [sample(events[i]) for i in ids[:: max(1, len(ids) // 3)][:3]]}
    evid = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1),
            "violations": bad}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    say("%s: %d sessions, %d events, %d+%d model states, exec %.1fs tlc %.1fs total %.1fs %s" % (
        prop, len(ids), nev, states - r.distinct, r.distinct, t_exec, r.wall, time.time() - t0,
        "VIOLATED" if bad else "ok"))
    return 1 if bad else 0


def trim(v, n=48):
    if isinstance(v, list) and len(v) > n:
        return v[:n] + ["... %d more" % (len(v) - n)]
    if isinstance(v, dict):
        return {k: trim(x, n) for k, x in v.items()}
    return v


def sample(ev):
    return [{"op": e["op"], "x": e["x"], "a": trim(e["a"], 12), "r": trim(e["r"], 12)} for e in ev[:2]]


def report(prop, mod, sessions, events, mism, kf, seed, tier, say):
    n, shown = 0, {}
    for i, l, why in sorted(mism):
        if why in kf:
            if not shown.get(why):
                shown[why] = 1
                say("KNOWN-FINDING: property=%s %s" % (prop, kf[why]["what"]))
            continue
        n += 1
        if n <= 5:
            d = os.path.join(ROOT, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "seed": seed, "tier": tier, "session": sessions[i],
                       "event": l, "clause": why, "events": events[i][:l]}, open(path, "w"))
            e = events[i][l - 1] if l <= len(events[i]) else {}
            say("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
            say("  clause: %s; op %s x=%r a=%s r=%s" % (
                why, e.get("op"), e.get("x"), json.dumps(trim(e.get("a"), 8))[:600],
                json.dumps(trim(e.get("r"), 8))[:400]))
            if e.get("tb"):
                say(e["tb"][-800:])
    if n > 5:
        say("... %d violating sessions in all" % n)
    return n
