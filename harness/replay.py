"""Makes the histories that spec/MC_*.tla enumerate on the implementation and compares what happens:
which calls are refused, and after each run the time step, the time, the states and the probe records."""
import sys, os, json
import numpy as np
from fractions import Fraction
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)


def number(x):
    if isinstance(x, str) and x.startswith("#r"):
        return float(Fraction(x[2:]))
    if isinstance(x, list):
        return [number(y) for y in x]
    if isinstance(x, dict):
        return {k: number(v) for k, v in x.items()}
    return x


def unwrap(a):
    """{"s": x} or {"m": ...} or {"v": ...}"""
    return list(a.values())[0]


def make(S, c):
    op, o, a = c["op"], c["o"], c["a"]
    f = lambda p: [float(x) for x in p]
    if op == "mtl":
        S.mtl(o, unwrap(a["l"]), unwrap(a["c"]), pts=[f(p) for p in a["pts"]], ndiv=[int(n) for n in a["ndiv"]], r=unwrap(a["r"]),
              g=unwrap(a["g"]), zs=unwrap(a["zs"]), zl=unwrap(a["zl"]))
    elif op == "bundle":
        S.bundle(o, [[x["o"] for x in lv] for lv in a["levels"]], name=a["name"])
    elif op == "net":
        S.net(o, [{"level": p["level"], "nodes": p["nodes"], "br": p["br"]} for p in a["parts"]])
    elif op == "system":
        S.system(o, a["bundles"], a["nets"])
    elif op == "addbundle":
        S.addbundle(o, a["b"])
    elif op == "addnet":
        S.addnet(o, a["net"])
    elif op == "source":
        S.source(o, f(a["pos"]), a["cond"], a["w"])
    elif op == "res":
        S.res(o, f(a["a"]), f(a["b"]), a["cond"], a["val"])
    elif op == "cond":
        S.cond(o, f(a["a"]), f(a["b"]), a["cond"], a["val"])
    elif op == "lumped":
        S.lumped(o, f(a["pos"]), a["cond"], a["d"], a["e"], a["p"], a["q"])
    elif op == "probe":
        S.probe(o, a["name"], f(a["pos"]), a["type"])
    elif op in ("zt", "ztc"):
        S.zt(o, a["ol"], a["oc"], a["il"], a["ic"], a["dir"], a["d"], a["e"], a["p"], a["q"], a["f"], side=a.get("side"))
    elif op == "dist":
        S.dist(o, f(a["a"]), f(a["b"]), a["cond"], a["w"])
    elif op == "field":
        S.field(o, a["f"], a["dist"], [f(p) for p in a["loc"]])
    elif op == "copy":
        S.copy(o, a["of"])
    elif op == "setdt":
        S.setdt(o, a["T"], int(a["n"]))
    elif op == "state":
        S.state(o, a["v"], a["i"])
    elif op == "doc":
        import docs
        for k in a["coords"]:
            k["p"] = [float(x) for x in k["p"]]
        docs.doc(S, o, a)
    else:
        raise KeyError(op)


def held(S, cell, x):
    """what a cell of the caller holds, in the form in which calls take it"""
    import rec
    if cell in ("md", "zm"):
        return rec.model(x["d"], x["e"], x["p"], x["q"], x.get("f"), x.get("dir"))
    if cell == "lv":
        return {k: [S.objs[y] for y in lv if y in S.objs] for k, lv in enumerate(x)}
    return [int(y) for y in x] if cell in ("nd", "cn") else np.array(x, dtype=float)


def close(x, y, scale, tol):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    return bool(np.all(np.abs(x - y) <= tol * scale)) if x.size else True     # (a NaN is not close)


def wave(c):
    """the values of a waveform: numeric, and symbolic at several places"""
    import families3
    w, ts, vals = c["a"]["w"], [float(t) for t in c["a"]["ts"]], c["see"]["vals"]
    m = max([1e-3] + [abs(v) for v in vals])
    f, args = families3.numeric(w)
    got = [("values of the waveform", [float(f(t, *args)) for t in ts], vals, m)]
    v = 2.0
    for name, g, coords in families3.symbolic(w, v):
        for p in ((0.0, 0.0, 0.0), (0.5, -0.25, 1.5)):
            move = sum(p["xyz".index(q)] / v for q in coords)
            got.append((name, [float(g(*p, t - move)) for t in ts], vals, m))
    return got


def look(S, c):
    """what a line or bundle reports of its geometry"""
    x, see = S.objs[c["o"]], c["see"]
    m = max([1.0] + [abs(z) for p in see["u"] for z in p])
    return [("nodes", x.u, see["u"], m), ("cells", x.du, see["du"], m), ("time step", x.dt, see["dt"], see["dt"])]


def history(job):
    """Replays one history; returns (number of comparisons, first difference or None)."""
    import rec
    sid, calls, tol, args = job
    S = rec.Scenario(sid, [], args)
    n = 0
    for j, c0 in enumerate(calls):
        c = number(c0)
        where = "call %d: %s %s" % (j + 1, c["op"], c["o"])
        if c["op"] == "cell":
            try:
                S.cell(c["o"], *[held(S, c["o"], c["a"][k]) for k in ("is", "becomes")])
            except ValueError as ex:
                return n, {"at": j, "c": "arguments kept", "w": "%s %s" % (where, str(ex)[:200])}
            continue
        if c["op"] in ("wave", "look"):
            try:
                got = wave(c) if c["op"] == "wave" else look(S, c)
            except Exception as ex:                             # noqa: BLE001
                return n, {"at": j, "c": "observable", "w": "%s %s: %s" % (where, type(ex).__name__, str(ex)[:80])}
            for what, obs, exp, scale in got:
                n += 1
                if not close(obs, exp, scale, tol):
                    return n, {"at": j, "c": what, "w": where, "is": repr(np.asarray(obs).tolist())[:400], "should be": repr(exp)[:400]}
            continue
        if c["op"] not in ("run", "walk"):
            exc = ""
            S.by = c.get("by") or {}
            try:
                make(S, c)
            except rec.Stop:
                pass
            except Exception as ex:                             # noqa: BLE001
                exc = type(ex).__name__ + ": " + str(ex)[:80]
            kept = [fr for fr in S.frames if fr["op"] == "flag"]
            S.frames = [fr for fr in S.frames if fr["op"] != "flag"]
            exc = exc or S.frames[-1]["exc"]
            n += 1
            if not all(fr["ok"] for fr in kept):
                return n, {"at": j, "c": kept[-1]["c"], "w": where + " " + kept[-1]["w"]}
            if (exc == "") != c["ok"]:
                return n, {"at": j, "c": "accepted" if c["ok"] else "refused", "w": "%s %s" % (where, exc or "was accepted")}
            continue
        o, a, see = c["o"], c["a"], c["see"]
        x = S.objs[o]
        try:
            if c["op"] == "walk":
                for _ in range(int(a["n"])):
                    x.step()
            else:
                x.run_until(a["T"], a["dt"]) if a["dt"] else x.run_until(a["T"])
        except Exception as ex:                                 # noqa: BLE001
            return n, {"at": j, "c": "accepted", "w": "%s %s: %s" % (where, type(ex).__name__, str(ex)[:80])}
        got = []
        try:
            got += [("time step", x.dt, see["dt"], see["dt"])]
            if hasattr(x, "step"):                              # (a parsed document keeps its system to itself)
                got += [("time", x.time, see["time"], see["time"] + see["dt"])]
            parts = {}
            for p in see["parts"]:
                y = S.objs[p["o"]]
                m = max([1e-3] + [abs(z) for k in "vi" for r in p[k] for z in r])
                for q in see["probes"]:
                    if q["o"] == p["o"]:
                        m = max([m] + [abs(z) for r in q["val"] for z in r])
                parts[p["o"]] = m
            M = max(parts.values())
            for p in see["parts"]:
                y = S.objs[p["o"]]
                got += [("time step of " + p["o"], y.dt, p["dt"], p["dt"]), ("voltages of " + p["o"], y.v, p["v"], M), ("currents of " + p["o"], y.i, p["i"], M)]
            real = {(b, k): pr for b in S.parts(o) for k, pr in S.declared.get(b, [])}
            for q in see["probes"]:
                pr = real[(q["o"], q["name"])]
                val = np.asarray(q["val"], dtype=float)
                got += [("times of probe " + q["name"], pr.t, q["t"], max([see["dt"]] + [abs(z) for z in q["t"]])),
                        ("records of probe " + q["name"], np.reshape(pr.val, val.shape) if np.size(pr.val) == val.size else pr.val, val, M)]
        except Exception as ex:                                 # noqa: BLE001
            return n, {"at": j, "c": "observable", "w": "%s %s: %s" % (where, type(ex).__name__, str(ex)[:80])}
        for what, obs, exp, scale in got:
            n += 1
            if not close(obs, exp, scale, tol):
                return n, {"at": j, "c": what, "w": where, "is": repr(np.asarray(obs).tolist())[:400], "should be": repr(exp)[:400]}
    return n, None


def tolerance(calls):
    """Ideal connections are conductances of 1e10 in the implementation: digits are lost there."""
    ks = {b["k"] for c in calls if c["op"] == "net" for p in c["a"]["parts"] for b in p["br"]}
    for c in calls:
        if c["op"] == "doc":
            ks |= {{"Conn_short": "short"}.get(k, k) for n in c["a"]["conns"] for k in [n["kind"]] + n["kinds"]}
            ks |= {"shortn"} if c["a"]["juncs"] else set()
    return 1e-5 if "shortn" in ks else 1e-7 if "short" in ks else 1e-9


def judge(job):
    """(id, comparisons, difference or None); never raises."""
    sid, calls, args = job
    try:
        n, bad = history((sid, calls, tolerance(calls), args))
    except Exception as ex:                                     # noqa: BLE001
        n, bad = 0, {"at": 0, "c": "replayable", "w": "%s: %s" % (type(ex).__name__, str(ex)[:100])}
    return sid, n, bad


def spoil(calls):
    """The history with one of its predictions changed: the comparison must object."""
    t = json.loads(json.dumps(calls))
    for c in reversed(t):
        if c["op"] == "run" and c["see"]["parts"] and len(c["see"]["parts"][0]["v"][0]) > 1:
            row = c["see"]["parts"][0]["v"][0]
            row[1] = number(row[1]) + 1e-3 * max([1.0] + [abs(number(x)) for x in row])
            return t
    for c in reversed(t):
        if c["op"] == "wave":
            c["see"]["vals"][0] = number(c["see"]["vals"][0]) + 1e-3
            return t
        if c["op"] != "run":
            c["ok"] = not c["ok"]
            return t
    return None


def load(path):
    """Histories written by a model: one JSON list of calls per line."""
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from concurrent.futures import ProcessPoolExecutor
    for p in sys.argv[1:]:
        hs = load(p)
        with ProcessPoolExecutor(8) as ex:
            rs = list(ex.map(judge, [("%s.%d" % (p, k), h, os.environ.get("ARGS", "plain")) for k, h in enumerate(hs)], chunksize=4))
        bad = [(k, r[2]) for k, r in enumerate(rs) if r[2]]
        print(p, len(hs), "histories", sum(r[1] for r in rs), "comparisons", len(bad), "different")
        for k, b in bad[:6]:
            print("  ", k, b, [(c["op"], c["o"], c.get("ok")) for c in hs[k]][-5:])
