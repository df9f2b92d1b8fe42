#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of properties.jsonl on /repo's working tree:
  1. builds the library sources and the recording harness into a scratch directory,
  2. model-checks the TLA+ modules the property rests on (spec/MC*.tla),
  3. records histories of public calls and lets TLC decide, event by event, whether
     each is a behaviour of spec/M4rie.tla (spec/M4rieTrace.tla),
  4. replays the known findings (known/).
Exit 0: held on everything explored.  Exit 1: a VIOLATION line per violation.
"""
import atexit, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
sys.dont_write_bytecode = True
import gen, props, run

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1"))
t_start = time.time()
budget = float(os.environ.get("M4X_BUDGET", "600" if tier == "thorough" else "0"))

out = tempfile.mkdtemp(prefix="m4x_%s_" % prop, dir=os.environ.get("M4X_SCRATCH", "/tmp"))
atexit.register(lambda: shutil.rmtree(out, ignore_errors=True))
evdir = HERE + "/evidence"
os.makedirs(evdir, exist_ok=True)

suites = props.PROPS[prop][0]
models = props.models(prop, tier)
run.build(out)

stats = {"histories": 0, "events": 0, "states": 0, "transitions": 0, "model_runs": [], "suites": {}, "ops": {}}
violations = []
notes = []


# ------------------------------------------------------------------ validation
def split(path):
    """[(history number, [lines])] of a trace"""
    hs, cur = [], None
    for l in open(path):
        h = int(l[5:l.index(",")])
        if cur is None or cur[0] != h:
            cur = (h, [])
            hs.append(cur)
        cur[1].append(l)
    return hs


def judge(trace, tag):
    """-> (events, rejections, states).  A trace TLC cannot evaluate is narrowed down to
    the history responsible, which counts as rejected."""
    try:
        return run.validate(out, trace, tag)
    except run.Unfinished as e:
        hs = split(trace)
        if len(hs) <= 1:
            return len(hs[0][1]) if hs else 0, [{"h": hs[0][0] if hs else 0, "s": -1, "op": "?", "x": "unevaluable", "why": str(e)[-600:]}], 0
        ev, rej, st = 0, [], 0
        for i, part in enumerate((hs[:len(hs) // 2], hs[len(hs) // 2:])):
            p = "%s.%d" % (trace, i)
            with open(p, "w") as f:
                for _, ls in part:
                    f.writelines(ls)
            a, b, c = judge(p, "%s_%d" % (tag, i))
            ev, rej, st = ev + a, rej + b, st + c
            if rej:
                break
        return ev, rej, st


def one_part(job):
    suite, sd, i, g, part = job
    base = "%s/%s_%s_%d" % (out, suite, sd, i)
    with open(base + ".txt", "w") as f:
        f.write(g.script(part))
    run.record(out, base + ".txt", base + ".nd", reuse=suite == "again" or suite == "walks" and i % 2 == 1)
    ev, rej, st = judge(base + ".nd", "%s_%s_%d" % (suite, sd, i))
    ops = {}
    for l in open(base + ".nd"):
        k = l[l.index('"op":"') + 6:]
        k = k[:k.index('"')]
        ops[k] = ops.get(k, 0) + 1
    sample = None
    if i == 0:
        with open(base + ".nd") as f:
            sample = [x[:400] for x in f.readlines()[:12]][-3:]
    if not rej:
        os.unlink(base + ".nd")
    return suite, sd, g, part, ev, rej, st, ops, sample


def explore(jobs):
    with ThreadPoolExecutor(run.NPROC) as ex:
        for suite, sd, g, part, ev, rej, st, ops, sample in ex.map(one_part, jobs):
            stats["histories"] += len(part)
            stats["events"] += ev
            stats["states"] += st
            stats["transitions"] += ev
            s = stats["suites"].setdefault(suite, {"histories": 0, "events": 0, "seeds": []})
            s["histories"] += len(part)
            s["events"] += ev
            if sd not in s["seeds"]:
                s["seeds"].append(sd)
            for k, v in ops.items():
                stats["ops"][k] = stats["ops"].get(k, 0) + v
            if sample:
                stats["sample"] = sample
            byh = dict(part)
            for r in rej:
                confirm(suite, sd, g, byh, r)


def confirm(suite, sd, g, byh, r):
    """record the rejected history again, alone; keep what reproduces (or was a wrong value)"""
    if len(violations) >= 5:
        return
    base = "%s/confirm_%s_%s_%s" % (out, suite, sd, r["h"])
    with open(base + ".txt", "w") as f:
        f.write(g.script([(r["h"], byh[r["h"]])]))
    again = []
    for k in range(4):
        run.record(out, base + ".txt", base + ".nd", reuse=suite in ("walks", "again") and k % 2 == 0)
        _, again, _ = judge(base + ".nd", "c_%s_%s_%s" % (suite, sd, r["h"]))
        if again:
            break
    if not again and r["x"] in ("hang", "crash", "exit", "assert"):
        notes.append("not reproduced: %s" % json.dumps(r))
        return
    path = "%s/replay_%s_%d.txt" % (evdir, prop, len(violations))
    with open(path, "w") as f:
        f.write("# property %s, suite %s, seed %s: TLC rejects step %s (%s, %s)\n" % (prop, suite, sd, r["s"], r["op"], r["x"]))
        f.write("# replay: python3 %s/bin/replay.py %s\n" % (HERE, path))
        f.write(open(base + ".txt").read())
    violations.append({"suite": suite, "seed": sd, "history": r["h"], "step": r["s"], "op": r["op"], "outcome": r["x"], "replay": path})


# ------------------------------------------------------------------ model checking
def model(m):
    name, cfg = m
    t = time.time()
    rc, txt = run.tlc(out, HERE + "/spec/" + cfg, HERE + "/spec/" + name, "mc_" + cfg.replace(".", "_"), extra=("-workers", "4"), timeout=880)
    return name, cfg, rc, txt, time.time() - t


def models_run(ms):
    import re
    with ThreadPoolExecutor(4) as ex:
        for name, cfg, rc, txt, dt in ex.map(model, ms):
            st = re.search(r"(\d+) states generated, (\d+) distinct", txt)
            ok = "No error has been found" in txt
            if not st or not (ok or "is violated" in txt or "Error:" in txt):
                raise RuntimeError("TLC failed on %s:\n%s" % (cfg, txt[-3000:]))
            if not ok:
                # the specification itself is wrong: no statement about the code can be made from it
                raise RuntimeError("model %s: %s" % (cfg, txt[-3000:]))
            stats["states"] += int(st.group(2))
            stats["transitions"] += int(st.group(1))
            stats["model_runs"].append({"module": name, "config": cfg, "states_generated": int(st.group(1)), "distinct_states": int(st.group(2)), "wall_s": round(dt, 1)})


# ------------------------------------------------------------------ known findings
def known():
    """directed histories of recorded findings: they are expected to fail as listed"""
    d = HERE + "/known"
    found = []
    if not os.path.isdir(d):
        return found
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".json"):
            continue
        k = json.load(open(d + "/" + fn))
        if prop not in k["properties"]:
            continue
        base = "%s/known_%s" % (out, k["id"])
        shutil.copy(d + "/" + k["script"], base + ".txt")
        run.record(out, base + ".txt", base + ".nd")
        _, rej, _ = judge(base + ".nd", "known_" + k["id"])
        for r in rej:
            if [r["h"], r["s"], r["op"]] in [x[:3] for x in k["expect"]]:
                found.append(k)
            else:
                path = "%s/replay_%s_%s.txt" % (evdir, prop, k["id"])
                shutil.copy(base + ".txt", path)
                violations.append({"suite": "known/" + k["id"], "seed": 0, "history": r["h"], "step": r["s"], "op": r["op"], "outcome": r["x"], "replay": path})
    return found


def walks(sd, n):
    """histories that TLC draws from spec/M4rieGen.tla"""
    def one(i):
        return run.simulate(out, 1000003 * (i + 1) + int(sd), 50, "sim_%s_%d" % (sd, i))
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    g = gen.Gen("walks/%s" % sd, tier)
    r = []
    for i, hs in enumerate(res):
        part = []
        for ls in hs:
            h = g.hist()
            h.lines = ls
            part.append((len(g.hists), h))
        r.append(("walks", sd, i, g, part))
    return r


def parts(suite, sd, n=run.NPROC):
    if suite == "walks":
        return walks(sd, n)
    g = gen.Gen("%s/%s" % (suite, sd), tier)
    gen.SUITES[suite](g)
    hs = list(enumerate(g.hists, 1))
    hs.sort(key=lambda x: -x[1].w)
    return [(suite, sd, i, g, hs[i::n]) for i in range(n) if hs[i::n]]


models_run([("MCKernel.tla", "MCKernel.cfg")] + models)
jobs = []
for s in suites:
    jobs += parts(s, seed)
explore(jobs)
rounds = 1
while tier == "thorough" and not violations and time.time() - t_start < budget:
    t = time.time()
    jobs = []
    for s in suites:
        jobs += parts(s, seed * 1000 + rounds)
    explore(jobs)
    rounds += 1
    if time.time() + (time.time() - t) * 1.2 - t_start > budget:
        break
kf = known()

seen = set()
for k in kf:
    if k["id"] not in seen:
        seen.add(k["id"])
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
for v in violations:
    print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("  %(suite)s history %(history)s step %(step)s: %(op)s (%(outcome)s) is not a step of M4rie" % v)

ev = {
    "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
    "coverage": {
        "states": stats["states"], "transitions": stats["transitions"],
        "traces_validated_against_impl": stats["histories"],
        "events_validated": stats["events"],
        "suites": stats["suites"], "operations": dict(sorted(stats["ops"].items())),
        "model_runs": stats["model_runs"],
        "known_findings_replayed": sorted(seen), "notes": notes,
        "samples": stats.get("sample", []),
    },
    "wall_s": round(time.time() - t_start, 1),
    "violations": violations,
}
with open("%s/%s.json" % (evdir, prop), "w") as f:
    json.dump(ev, f, indent=1)
print("%s %s: %d histories, %d events, %d states, %d violations, %.1f s" % (prop, tier, stats["histories"], stats["events"], stats["states"], len(violations), time.time() - t_start))
sys.exit(1 if violations else 0)
