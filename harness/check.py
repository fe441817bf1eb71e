"""check.py PROPERTY quick|thorough : decides one property.  Exit 0 held, 1 violated, 2 could not decide."""
import sys, os, json, time, traceback, hashlib, shutil, glob
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
import tlc

WORK = os.path.join(ROOT, "work")


def make(job):
    """Record one scenario (in a worker process)."""
    prop, fi, k, seed = job
    import families, gen, rec
    fam = families.FAM[prop][fi]
    sid = "%s.%s.%d" % (prop, fam["name"], k)
    S = rec.Scenario(sid, fam["act"], fam["args"][k % len(fam["args"])])
    g = gen.G("%s/%s" % (seed, sid))
    try:
        fam["fn"](S, g, k)
    except rec.Stop:
        pass
    except Exception as ex:                                       # noqa: BLE001
        # an observation the library no longer offers
        S.flag("usable", False, "%s: %s" % (type(ex).__name__, str(ex)[:100]))
        S.note = traceback.format_exc()
    try:
        d = S.data()
    except Exception as ex:                                       # noqa: BLE001
        d = {"id": sid, "act": fam["act"], "frames": [{"op": "flag", "c": "usable", "ok": False, "w": repr(ex)[:100]}]}
    d["note"] = getattr(S, "note", "")
    return d


CORRUPT = ("step", "wave", "port")


def corrupt(s):
    """A copy of a recorded scenario with one observation changed: the specification must object."""
    t = json.loads(json.dumps(s))
    t["id"] = "selftest:" + s["id"]
    fs = [f for f in t["frames"] if f["op"] in CORRUPT]
    f = fs[len(fs) // 2]
    if f["op"] == "wave":
        row, m = f["vals"], max([abs(x) for x in f["vals"] if not isinstance(x, str)] + [1e-3])
    elif f["op"] == "port":
        row, m = [q for q in f["a"]][len(f["a"]) // 4], max(abs(x) for q in f["a"] for x in q)
    else:
        o = sorted(f["st"])[0]
        row = f["st"][o]["v"][-1]
        m = max([abs(x) for r in f["st"][o]["v"] for x in r if not isinstance(x, str)] + [1e-3])
    k = len(row) // 2
    if isinstance(row[k], str):
        return None
    row[k] += 1e-3 * m
    return t


def seed_of(prop, j):
    s = "%s/%s/%d" % (os.environ.get("VERIF_SEED", "1"), prop, j)
    return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)


def models_of(prop, tier, work, mc, played, errors, violations):
    import models
    import replay
    from concurrent.futures import ThreadPoolExecutor
    def one(jm):
        j, m = jm
        out = os.path.join(work, "model%d.out" % j)
        env = dict(m.get("env") or {})
        if m.get("replay"):
            env["OUT"] = out
        extra = ["-simulate", "num=%d" % m["walks"], "-seed", "%d" % seed_of(prop, j), "-depth", "200"] if "walks" in m else []
        ok, text, gen_, dis = tlc.run(m["module"], consts=m.get("consts"), env=env, workers=4, timeout=m.get("timeout", 400), extra=extra)
        return m, out, ok and ("No error has been found" in text or "walks" in m), text, gen_, dis
    with ProcessPoolExecutor(max_workers=6) as pp, ThreadPoolExecutor(max_workers=2) as tp:
        pp.submit(int, 0).result()          # the processes are forked now, before there are threads
        for j, (m, out, ok, text, gen_, dis) in enumerate(tp.map(one, enumerate(models.of(prop, tier)))):
            name = "%s(%s)%s" % (m["module"], " ".join("%s=%s" % kv for kv in sorted(m.get("consts", {}).items())), " random walks" if "walks" in m else "")
            res = {"model": name, "distinct_states": dis, "states_generated": gen_, "ok": ok}
            mc.append(res)
            if not ok:
                errors.append("%s: %s" % (name, [x[:200] for x in text.split("\n") if "Error" in x or "TIMEOUT" in x][:3]))
            if not m.get("replay"):
                continue
            hs = replay.load(out)
            if not hs:
                errors.append(name + ": no histories")
                continue
            ways = m.get("args", ("plain",))
            jobs = [("%s.m%d.h%d%s" % (prop, j, k, "" if a == "plain" else "." + a), h, a) for k, h in enumerate(hs) for a in ways]
            tests = [("selftest.%d" % k, replay.spoil(h), "plain") for k, h in list(enumerate(hs))[:: max(1, len(hs) // 2)][:2]]
            tests = [t for t in tests if t[1] is not None]
            rs = list(pp.map(replay.judge, jobs + tests, chunksize=4))
            bad = [(jb, r) for jb, r in zip(jobs, rs) if r[2]]
            res.update({"histories": len(jobs), "comparisons": sum(r[1] for r in rs[:len(jobs)]), "different": len(bad)})
            played["histories"] += len(jobs)
            played["comparisons"] += res["comparisons"]
            played["different"] += len(bad)
            played["self_tests"] += len(tests)
            played["objected"] += sum(1 for r in rs[len(jobs):] if r[2])
            for (sid, h, _), r in bad:
                violations.append(({"id": sid, "model": name, "calls": h, "frames": []},
                                   [{"l": 0, "c": r[2]["c"], "w": json.dumps(r[2])}]))


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    import families
    import models
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    budget = 780 if tier == "quick" else 3300
    jobs = []
    for fi, fam in enumerate(families.FAM.get(prop, [])):
        for k in range(fam[tier]):
            if only is None or only in "%s.%s.%d" % (prop, fam["name"], k):
                jobs.append((prop, fi, k, seed))
    tlc.classes()
    violations, states, transitions, notes, errors = [], 0, 0, [], []

    # 1. the specification itself, and its behaviours replayed into the implementation
    mc, played = [], {"histories": 0, "comparisons": 0, "different": 0, "self_tests": 0, "objected": 0}
    if only is None:
        models_of(prop, tier, work, mc, played, errors, violations)
        states += sum(m["distinct_states"] for m in mc)
        transitions += sum(m["states_generated"] for m in mc)

    # 2. behaviours of the implementation against it
    with ProcessPoolExecutor(max_workers=min(8, max(1, len(jobs)))) as ex:
        scen = list(ex.map(make, jobs, chunksize=1))
    t_rec = time.time() - t0
    can = [s for s in scen if any(f["op"] in CORRUPT for f in s["frames"])]
    tests = [c for c in (corrupt(s) for s in can[:: max(1, len(can) // 3)][:3]) if c]
    ok, ver, out, gen_, dis = tlc.decide(scen + tests, work, timeout=max(60, budget - (time.time() - t0)))
    states += dis
    transitions += gen_
    missing = [s for s in scen if s["id"] not in ver]
    if missing and "TIMEOUT" not in out:
        # the specification could not evaluate some observation: find out which
        from concurrent.futures import ThreadPoolExecutor
        def single(s):
            w = os.path.join(work, "single", hashlib.md5(s["id"].encode()).hexdigest())
            _, v, o, a, b = tlc.decide([s], w, workers=1, timeout=120)
            return s, v.get(s["id"]), o
        with ThreadPoolExecutor(max_workers=6) as ex:
            for s, v, o in ex.map(single, missing[:60]):
                if v is not None:
                    ver[s["id"]] = v
                elif "TIMEOUT" in o or "OutOfMemory" in o or "Error:" not in o:
                    errors.append("undecided scenario " + s["id"])
                else:
                    msg = " ".join(x for x in o[o.find("Error:"):].split("\n")[:4])[:300]
                    ver[s["id"]] = {"id": s["id"], "cnt": 0, "fails": [{"l": 0, "c": "evaluable", "w": msg}]}
    elif missing:
        errors.append("timeout: %d of %d scenarios undecided" % (len(missing), len(scen)))
    known = load_known()
    shown = set()
    clauses = 0
    for s in scen:
        v = ver.get(s["id"])
        if v is None:
            continue
        clauses += v["cnt"]
        fails = v["fails"]
        rest = []
        for f in fails:
            kf = match(known, prop, s["id"], f)
            if kf is None:
                rest.append(f)
            elif kf["what"] not in shown:
                shown.add(kf["what"])
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
        if rest:
            violations.append((s, rest))
    caught = sum(1 for c in tests if ver.get(c["id"], {}).get("fails"))
    if violations:
        d = os.path.join(ROOT, "evidence", "replay", prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s, fails in violations[:10]:
            p = os.path.join(d, s["id"].replace("/", "_") + ".json")
            json.dump({"scenario": s, "fails": fails}, open(p, "w"))
            f = fails[0]
            fr = s["frames"][f["l"] - 1] if 0 < f["l"] <= len(s["frames"]) else {}
            print("  %s: clause '%s' fails at frame %d (%s %s) %s" % (s["id"], f["c"], f["l"], fr.get("op", ""), fr.get("o", ""), str(f["w"])[:160]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(d, violations[0][0]["id"] + ".json")))
    evidence(prop, tier, seed, mc, scen, ver, clauses, tests, caught, states, transitions, violations, errors, t0, t_rec, played)
    for e in errors:
        print("ERROR", e)
    if mc:
        print("%s %s: %d models, %d distinct states, %d histories replayed, %d comparisons, self-tests %d/%d" %
              (prop, tier, len(mc), sum(m["distinct_states"] for m in mc), played["histories"], played["comparisons"], played["objected"], played["self_tests"]))
    print("%s %s: %d scenarios (recorded in %.0f s), %d clause instances, %d states, self-tests %d/%d, %d violating, %.0f s" %
          (prop, tier, len(scen), t_rec, clauses, states, caught, len(tests), len(violations), time.time() - t0))
    if violations:
        sys.exit(1)
    sys.exit(2 if errors else 0)


def load_known():
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match(known, prop, sid, f):
    for k in known:
        if k["property"] == prop and k["scenario"] in sid and k["clause"] == f["c"] and k.get("where", "") in str(f["w"]):
            return k
    return None


def evidence(prop, tier, seed, mc, scen, ver, clauses, tests, caught, states, transitions, violations, errors, t0, t_rec, played):
    import collections
    ops = collections.Counter(f["op"] for s in scen for f in s["frames"])
    samples = []
    for s in scen[:: max(1, len(scen) // 4)][:4]:
        samples.append("%s: %s" % (s["id"], " ".join((f["op"] + ("!" if f.get("exc") else "")) for f in s["frames"])[:300]))
    data = {
        "property": prop,
        "tier": tier,
        "seed": int(seed) if seed.isdigit() else 1,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": len([s for s in scen if s["id"] in ver]) + played["histories"],
            "histories_of_the_models_replayed": played,
            "scenarios": len(scen), "steps_of_the_implementation": ops.get("step", 0), "clause_instances": clauses,
            "frames": dict(ops), "models": mc,
            "self_tests": {"corrupted_traces": len(tests), "objected": caught},
            "samples": samples,
        },
        "assumptions": ["exact rational arithmetic of spec/java/Rat.java (checked by MC_Rat)",
                        "TLC evaluates the specification correctly",
                        "the recorder (harness/rec.py) reports the arguments and observations faithfully"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "errors": errors,
    }
    json.dump(data, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
