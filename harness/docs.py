"""Documents (the JSON files the library reads): random abstract ones, their file form, and
changes of notation that leave what they describe alone."""
import copy
import json
import os
import sys
import tempfile
import numpy as np
import gen
import rec
from rec import model

Z = {"k": "zero"}


# ---------------------------------------------------------------- file form
def wire_json(w):
    scalar = "s" in w["l"]
    n = 1 if scalar else len(w["l"]["m"])
    m = {"materialId": w["id"], "name": "w%d" % w["id"], "materialType": "Wire" if n == 1 else "Multiwire"}
    if scalar:
        m.update(inductance=w["l"]["s"], capacitance=w["c"]["s"])
        if "s" in w["r"]:
            m["resistance"] = float(w["r"]["s"])
    else:
        m.update(inductanceMatrix=w["l"]["m"], capacitanceMatrix=w["c"]["m"])
        if "m" in w["r"]:
            m["resistanceVector"] = [w["r"]["m"][j][j] for j in range(n)]
    for z in w["zt"]:
        m["transferImpedance"] = zt_json(z)
    return m


def zt_json(z):
    return model(z["d"], z["e"], z["p"], z["q"], None if z["f"] == 1 and not z.get("keep") else z["f"], z["dir"])


def conn_json(c):
    m = {"materialId": c["id"], "name": "c%d" % c["id"], "materialType": "Connector", "connectorType": c["kind"]}
    if c["kind"] == "MultiwireConnector":
        m["connections"] = c["kinds"]
        m.update({k: v for k, v in (("resistanceVector", c["Rv"]), ("inductanceVector", c["Lv"]), ("capacitanceVector", c["Cv"])) if v})
    else:
        m.update(resistance=c["R"], inductance=c["L"], capacitance=c["C"])
    for z in c["zt"]:
        m["transferImpedance"] = zt_json(z)
    for z in c["model"]:
        m["model"] = model(z["d"], z["e"], z["p"], z["q"])
    return m


def nested(tree):
    if all(not t["kids"] for t in tree):
        return " ".join(str(t["el"]) for t in tree)
    return {str(t["el"]): nested(t["kids"]) for t in tree}


def magnitude(w):
    k = w["k"]
    if k == "trapezoidal": return {"type": k, "amplitude": w["A"], "rise_time": w["rise"], "fall_time": w["fall"], "f0": w["f0"], "D": w["D"]}
    if k in ("ramp", "exp"): return {"type": k, "amplitude": w["A"], "t0": w["x0"]}
    if k == "gaussian": return {"type": k, "x0": w["x0"], "s0": w["s0"]}
    if k == "gaussian_2": return {"type": k, "amplitude": w["A"], "x0": w["x0"], "s0": w["s0"]}
    if k in ("sin", "sin_sq"): return {"type": k, "amplitude": w["A"], "frequency": w["w"]}
    return {"type": "null"}


def to_json(d):
    def co(c): return "%d   %r %r %r" % ((c["id"],) + tuple(c["p"]))
    m = {
        "materials": [None] * 0,
        "layers": [{"id": 1, "name": "layer"}],
        "coordinates": [co(c) for c in d["coords"]],
        "elements": {d.get("linekey", "line"): ["%d 0 1 %s" % (l["id"], " ".join(map(str, l["cs"]))) for l in d["lines"]],
                     "node": ["%d 0 1 %d" % (n["id"], n["c"]) for n in d["nodes"]]},
        "cables": [{"name": c["name"], "materialId": c["mat"], "initialConnectorId": c["ini"], "endConnectorId": c["end"],
                    "elemIds": c["elems"], "ndiv": c["ndiv"][0] if len(c["ndiv"]) == 1 and not d.get("ndivlist") else c["ndiv"]} for c in d["cables"]],
        "bundles": [{"name": b["name"], "nestedElemIds": nested(b["tree"])} for b in d["bundles"]],
        "terminations": [{"name": "t%d" % j, "coordIds": t} for j, t in enumerate(d["terms"])],
        "junctions": [{"name": "j%d" % j, "unitedCoordIds": t} for j, t in enumerate(d["juncs"])],
    }
    mats = [("w", w) for w in d["wires"]] + [("c", c) for c in d["conns"]]
    if "matorder" in d:
        mats = [mats[j] for j in d["matorder"]]
    m["materials"] = [wire_json(x) if k == "w" else conn_json(x) for k, x in mats]
    src = [{"sourceType": "TerminalSource", "type": "voltage", "elemIds": [s["node"]], "magnitude": magnitude(s["w"])} for s in d["tsrc"]]
    for s in d["dsrc"]:
        x = {"sourceType": "DistributedSource", "type": "localized efield drive", "cable": s["cable"], "elemIds": [s["e1"], s["e2"]],
             "magnitude": magnitude(s["w"])}
        if s["cond"] or s.get("say"):
            x["conductor"] = s["cond"]
        src.append(x)
    if "srcorder" in d:
        src = [src[j] for j in d["srcorder"]]
    if src or d.get("full"):
        m["sources"] = src
    pr = [dict({"name": p["name"], "type": p["type"], "elemIds": [p["el"]]}, **({"cable": p["cable"]} if p["cable"] else {})) for p in d["probes"]]
    if pr or d.get("full"):
        m["probes"] = pr
    if d["ends"] or d.get("full"):
        m["cableEnds"] = [{"name": "e%d" % j, "materialId": e["mat"], "coordIds": [e["c"]]} for j, e in enumerate(d["ends"])]
    if d["lumped"] or d.get("full"):
        m["lumpedElements"] = [{"materialId": x["mat"], "cable": x["cable"], "coordIds": [x["c"]], "conductor": x["cond"]} for x in d["lumped"]]
    for k in ("terminations", "junctions"):
        if not m[k]:
            del m[k]
    keys = list(m)
    if "keyorder" in d:
        keys = [keys[j % len(keys)] for j in d["keyorder"] if j < len(keys)]
        keys += [k for k in m if k not in keys]
    return {"_format": "Semba Data File in JSON format", "_version": "0.16", "model": {k: m[k] for k in keys}}


PUBLIC = ("coords", "lines", "nodes", "wires", "conns", "cables", "bundles", "terms", "juncs", "ends", "lumped", "tsrc", "dsrc", "probes")


def abstract(d):
    return {k: d[k] for k in PUBLIC}


class Parsed:
    """What a document became: looks like a system to the recorder."""
    def __init__(self, parser):
        self.p = parser
        self.time = 0.0
        self.how = None

    @property
    def dt(self):
        return self.p.bundles[0].dt

    def run_until(self, T, dt=0.0):
        if self.how is None:
            self.p.run(T, dt) if dt else self.p.run(T)
        elif self.how[0] == "all":
            self.p.runWithExternalField(T, dt, self.how[1], self.how[2])
        else:
            self.p.runWithLocalizedExternalField(T, dt, *self.how[1:])


def parse(d):
    import src.jsonParser as jp
    fd, name = tempfile.mkstemp(suffix=".smb.json", prefix="mtln")
    with os.fdopen(fd, "w") as f:
        json.dump(to_json(d), f)
    try:
        return jp.Parser(name)
    finally:
        os.remove(name)


def doc(S, o, d):
    """the call: reading a document makes a system of bundles"""
    names = {b["name"]: b["o"] for b in d["bundles"]}
    def obs(p):
        out = []
        for b in p.bundles:
            out.append(dict(S.look(b), o=names[b.name]))
        return out
    def keep(p):
        S.objs[o] = Parsed(p)
        for b in p.bundles:
            S.objs[names[b.name]] = b
        S.desc[o] = [b["o"] for b in d["bundles"]]
        for q in d["probes"]:
            S.declared.setdefault(owner(d, q), []).append((q["name"], p.probes[q["name"]]))
    return S.call("doc", o, abstract(d), lambda: parse(d), obs=obs, keep=keep)


# -------------------------------------------------------- facts of a document
def walk(tree, lev=0):
    for t in tree:
        yield t, lev
        yield from walk(t["kids"], lev + 1)


def cable_of(d, el):
    return next(c for c in d["cables"] if el in c["elems"])


def rows(d, b):
    """element of each row of a bundle"""
    out, lev = [], 0
    while True:
        els = [t["el"] for t, l in walk(b["tree"]) if l == lev]
        if not els:
            return out
        seen = []
        for e in els:
            c = cable_of(d, e)
            if c["name"] not in seen:
                seen.append(c["name"])
                out += c["elems"]
        lev += 1


def owner(d, p):
    if p["cable"]:
        el = next(c for c in d["cables"] if c["name"] == p["cable"])["elems"][0]
    else:
        c = next(n for n in d["nodes"] if n["id"] == p["el"])["c"]
        el = next(l for l in d["lines"] if c in l["cs"])["id"]
    return next(b for b in d["bundles"] if el in [t["el"] for t, _ in walk(b["tree"])])["o"]


# ----------------------------------------------------------------- generation
class Ids:
    def __init__(self, g, big):
        self.g, self.big, self.used = g, big, set()

    def __call__(self):
        while True:
            k = self.g.randint(1, self.big)
            if k not in self.used:
                self.used.add(k)
                return k
            self.big += 1


KINDS = ["trapezoidal", "ramp", "gaussian_2", "gaussian", "sin_sq", "sin", "exp", "zero"]


def drive(g):
    k = g.choice(KINDS)
    A = g.num(-3, 3, 16) or 1.0
    if k == "trapezoidal":
        rise, fall, top = g.num(0.3, 1.5), g.num(0.3, 1.5), g.num(0.2, 1.5)
        P = (rise + fall + top) * g.choice([1.25, 2.0])
        return {"k": k, "A": A, "rise": rise, "fall": fall, "f0": 1 / P, "D": (top + 0.5 * (rise + fall)) / P}
    if k in ("ramp", "exp"): return {"k": k, "A": A, "x0": g.num(0.3, 2.0)}
    if k == "gaussian": return {"k": k, "x0": g.num(0.3, 2.0), "s0": g.num(0.4, 1.5)}
    if k == "gaussian_2": return {"k": k, "A": A, "x0": g.num(0.3, 2.0), "s0": g.num(0.4, 1.5)}
    if k in ("sin", "sin_sq"): return {"k": k, "A": A, "w": g.num(0.4, 2.0)}
    return dict(Z)


def shield(g, dt, rich=True):
    p, q = g.poles(dt, g.randint(0, 1), 0) if rich and g.random() < 0.4 else ([], [])
    f = g.choice([1, 1, 2.0, 0.5])
    return {"dir": g.choice(["in", "out", "both"]), "d": g.num(0.05, 0.3), "e": g.choice([0.0, g.num(0.02, 0.1)]),
            "p": p, "q": [[x * 0.1 for x in y] for y in q], "f": f, "keep": int(g.random() < 0.3)}


def random_doc(g, bundles=None, maxlev=3, rich=True, sources=True, prefix="", deep=0, wide=0):
    """A document of bundles with terminations at all ends, some of them joined.
    deep: so many levels, with little in each; wide: a cable of so many conductors."""
    nb = bundles or g.choice([1, 1, 2, 2, 3])
    big = g.choice([20, 60, 900])
    cid, eid, mid = Ids(g, big), Ids(g, big), Ids(g, big)
    d = {k: [] for k in PUBLIC}
    hub = g.point()
    free = []            # (level, bundle, side, [ (coord, cable, cond) ], cable)
    names = ["%s%s" % (w, j) for w in ("line_", "cable ", "wire-") for j in range(12)]
    g.shuffle(names)
    d["full"] = int(g.random() < 0.3)
    d["ndivlist"] = int(g.random() < 0.3)
    d["linekey"] = g.choice(["line", "line", "polyline"])
    for jb in range(nb):
        pts, nd, _ = g.line(2, 3)
        if sum(nd) > 4:
            nd = [min(x, 2) for x in nd]
        if nb > 1 and g.random() < 0.7:          # bundles that meet
            pts = [[x + y - z for x, y, z in zip(p, hub, pts[0])] for p in pts]
            if g.random() < 0.5:
                pts, nd = pts[::-1], nd[::-1]
        size = float(sum(np.linalg.norm(np.subtract(a, b)) for a, b in zip(pts, pts[1:])))
        dt = 0.4 * size / sum(nd)
        depth = deep - 1 if deep else g.randint(0, maxlev - 1)
        def element():
            el = eid()
            cs = []
            for p in pts:
                c = cid()
                d["coords"].append({"id": c, "p": [float(x) for x in p]})
                cs.append(c)
            d["lines"].append({"id": el, "cs": cs})
            return el, cs
        def cable(n, lev, kids):
            els = [element() for _ in range(n)]
            name = prefix + names.pop()
            w = {"id": mid(), "zt": []}
            if n == 1 and g.random() < 0.6:
                w["l"], w["c"] = {"s": g.pos()}, {"s": g.pos()}
                w["r"] = {"s": g.choice([0, g.num(0.1, 0.8)])}
            else:
                w["l"], w["c"] = {"m": g.spd(n, False)}, {"m": g.spd(n, True)}
                w["r"] = g.choice([{"s": 0}, {"m": [[g.num(0.1, 0.8) if a == b else 0.0 for b in range(n)] for a in range(n)]}])
            if kids or g.random() < 0.2:
                if g.random() < 0.85:
                    w["zt"] = [shield(g, dt, rich)]
            d["wires"].append(w)
            d["cables"].append({"name": name, "elems": [e for e, _ in els], "mat": w["id"], "ndiv": list(nd), "ini": 0, "end": 0})
            for side in ("ini", "end"):
                free.append({"lev": lev, "b": jb, "side": side, "cable": d["cables"][-1], "n": n,
                             "cs": [cs[0 if side == "ini" else -1] for _, cs in els]})
            return els
        def grow(lev, els):
            """children of the elements of a cable"""
            trees = []
            for e, _ in els:
                kids = []
                if deep and lev < depth and (e == els[0][0] or g.random() < 0.2):
                    for m in range(1 if g.random() < 0.8 else 2):
                        sub = cable(wide if wide and lev == depth - 1 and m == 0 else 1 + int(g.random() < 0.15), lev + 1, lev + 1 < depth)
                        kids += grow(lev + 1, sub)
                elif not deep and lev < depth and g.random() < (0.8 if len(els) == 1 else 0.5):
                    for _ in range(g.choice([1, 1, 2])):
                        if len([f for f in free if f["b"] == jb]) >= 8:
                            break
                        sub = cable(g.choice([1, 1, 2]), lev + 1, lev + 1 < depth)
                        kids += grow(lev + 1, sub)
                    if g.random() < 0.3:
                        g.shuffle(kids)
                trees.append({"el": e, "kids": kids})
            return trees
        root = cable(wide if wide and not depth else 1 if deep else g.choice([1, 1, 2]), 0, depth > 0)
        tree = grow(0, root)
        d["bundles"].append({"name": prefix + "bundle %d" % (jb + 1) if g.random() < 0.5 else prefix + "B%d" % jb, "o": prefix + "b%d" % jb, "tree": tree})
    # ---- which ends are joined
    for f in free:
        f["use"] = None
    if nb > 1:
        for lev in range(maxlev):
            here = [f for f in free if f["lev"] == lev and f["use"] is None]
            g.shuffle(here)
            while len(here) >= 2 and g.random() < 0.75:
                take = [here.pop()]
                for f in list(here):
                    if len(take) < 3 and all(f["cable"] is not t["cable"] for t in take) and any(f["b"] != t["b"] for t in take) and \
                            (f["n"] == take[0]["n"] or g.random() < 0.3) and g.random() < (1.0 if len(take) < 2 else 0.4):
                        take.append(f)
                        here.remove(f)
                if len(take) < 2:
                    continue
                # pairs: every conductor of every cable is joined to something
                pairs, base = [], list(take[0]["cs"])
                g.shuffle(base)
                done = set()
                for t in take[1:]:
                    cs = list(t["cs"])
                    g.shuffle(cs)
                    for j, c in enumerate(cs):
                        a = base[j % len(base)]
                        pairs.append([a, c] if g.random() < 0.5 else [c, a])
                        done |= {a, c}
                for a in base:
                    if a not in done:
                        pairs.append([a, g.choice(take[1]["cs"])])
                if len(take) == 3 and g.random() < 0.4 and take[1]["n"] == take[2]["n"] == 1 == take[0]["n"]:
                    pairs.append([take[1]["cs"][0], take[2]["cs"][0]])
                g.shuffle(pairs)
                d["juncs"].append(pairs)
                for t in take:
                    t["use"] = "j"
    g.shuffle(d["juncs"])
    # ---- connectors and terminations
    entries = []
    for f in free:
        n = f["n"]
        multi = n > 1 and g.random() < 0.5
        groups = None
        joined = f["use"] == "j"
        kinds = ["Conn_R", "Conn_R", "Conn_sRLC", "Conn_short"] + ([] if joined else ["Conn_C", "Conn_LCpRs"])
        c = {"id": mid(), "kind": "", "R": g.choice([g.pos(0.25, 4.0), 2]), "L": g.pos(0.25, 2.0), "C": g.pos(0.25, 2.0),
             "kinds": [], "Rv": [], "Lv": [], "Cv": [], "zt": [], "model": []}
        f["group"] = multi
        if multi or (joined and g.random() < 0.3):
            c["kind"] = "MultiwireConnector"
            c["kinds"] = [g.choice(kinds) for _ in range(n)]
            c["Rv"] = [g.pos(0.25, 4.0) for _ in range(n)]
            if any(k in ("Conn_C", "Conn_LCpRs") for k in c["kinds"]) or g.random() < 0.5:
                c["Cv"] = [1e22 if k == "Conn_sRLC" else g.pos(0.25, 2.0) for k in c["kinds"]]
            if "Conn_LCpRs" in c["kinds"] or g.random() < 0.5:
                c["Lv"] = [0.0 if k == "Conn_sRLC" else g.pos(0.25, 2.0) for k in c["kinds"]]
        else:
            c["kind"] = g.choice(kinds)
            if c["kind"] == "Conn_sRLC":
                c["L"], c["C"] = 0.0, 1e22
        reuse = [x for x in d["conns"] if x["kind"] == c["kind"] == "Conn_R"]
        if reuse and g.random() < 0.2:
            c = g.choice(reuse)
        else:
            d["conns"].append(c)
        f["cable"][f["side"]] = c["id"]
        if not joined:
            groups = [list(f["cs"])] if multi else [[x] for x in f["cs"]]
            if multi:
                g.shuffle(groups[0])
            g.shuffle(groups)
            entries.append((f["lev"], f["b"], f["side"], f["cable"]["name"], groups, multi))
    # entries of a level may be merged (never both ends of one cable)
    g.shuffle(entries)
    merged = []
    for lev, b, side, cname, groups, multi in entries:
        into = [m for m in merged if m["lev"] == lev and cname not in m["cables"]]
        if into and g.random() < 0.35:
            m = g.choice(into)
            if multi and g.random() < 0.4:
                wide = [x for x in m["groups"] if len(x) > 1]
                if wide:
                    wide[0].extend(groups.pop(0))
            m["groups"] += groups
            m["cables"].add(cname)
        else:
            merged.append({"lev": lev, "cables": {cname}, "groups": groups})
    d["terms"] = [m["groups"] for m in merged]
    # ---- sources
    def node_at(c):
        n = {"id": eid(), "c": c}
        d["nodes"].append(n)
        return n["id"]
    def conn_of(c):
        for f in free:
            if c in f["cs"]:
                x = next(q for q in d["conns"] if q["id"] == f["cable"][f["side"]])
                k = x["kind"]
                return x["kinds"][f["cs"].index(c)] if k == "MultiwireConnector" else k
    allc = [c for f in free for c in f["cs"]]
    def resistive(pairs):
        return [c for p in pairs for c in p if any(conn_of(x) in ("Conn_R", "Conn_sRLC") for x in p)]
    if sources:
        can = [c for f in free if f["use"] is None for c in f["cs"] if conn_of(c) != "Conn_short"]
        for j in d["juncs"]:
            can += [c for c in set(resistive(j)) if all(c not in p or any(conn_of(x) in ("Conn_R", "Conn_sRLC") for x in p) for p in j)]
        can = sorted(set(can))
        g.shuffle(can)
        for c in can[:g.randint(0, 3)]:
            d["tsrc"].append({"node": node_at(c), "w": drive(g)})
    # ---- things along the lines
    def u_of(b):
        el = d["bundles"][b]["tree"][0]["el"]
        ln = next(l for l in d["lines"] if l["id"] == el)
        ps = [next(c for c in d["coords"] if c["id"] == k)["p"] for k in ln["cs"]]
        nd = cable_of(d, el)["ndiv"]
        u = []
        for a, b_, n in zip(ps, ps[1:], nd):
            u += [[x + (y - x) * m / n for x, y in zip(a, b_)] for m in range(n)]
        return u + [ps[-1]]
    def new_coord(p):
        c = {"id": cid(), "p": [float(x) for x in p]}
        d["coords"].append(c)
        return c["id"]
    us = [u_of(b) for b in range(nb)]
    bcables = [[cable_of(d, t["el"]) for t, _ in walk(b["tree"])] for b in d["bundles"]]
    for b in range(nb):
        u, cs = us[b], {c["name"]: c for c in bcables[b]}
        ln = {c["name"]: next(l for l in d["lines"] if l["id"] == c["elems"][0]) for c in bcables[b]}
        for _ in range(g.randint(0, 2)):
            if sources:
                c = g.choice(sorted(cs))
                p = [g.on_line(u), g.on_line(u)]
                arc = lambda q: min((sum(np.linalg.norm(np.subtract(u[m + 1], u[m])) for m in range(k)) + np.linalg.norm(np.subtract(q, u[k])),)
                                    for k in range(len(u) - 1)
                                    if abs(np.linalg.norm(np.subtract(q, u[k])) + np.linalg.norm(np.subtract(q, u[k + 1])) - np.linalg.norm(np.subtract(u[k + 1], u[k]))) < 1e-9)
                if arc(p[1]) < arc(p[0]):
                    p.reverse()
                if arc(p[1]) > arc(p[0])  :
                    d["dsrc"].append({"cable": c, "cond": g.randrange(len(cs[c]["elems"])), "e1": node_at(new_coord(p[0])),
                                      "e2": node_at(new_coord(p[1])), "w": drive(g), "say": int(g.random() < 0.5)})
        busy = set()
        for _ in range(g.choice([0, 0, 1, 2, 3])):
            c = g.choice(sorted(cs))
            k = g.randrange(len(u))
            key = (c, min(k, len(u) - 2))
            cond = g.randrange(len(cs[c]["elems"]))
            if key in busy:
                continue
            busy.add(key)
            vert = [x for x in ln[c]["cs"] if next(q for q in d["coords"] if q["id"] == x)["p"] == u[k]]
            pos = vert[0] if vert and g.random() < 0.7 else new_coord(u[k])
            p, q = g.poles(0.3, g.randint(0, 1), g.randint(0, 1)) if rich and g.random() < 0.5 else ([], [])
            m = {"id": mid(), "kind": "Dispersive", "R": 0.0, "L": 0.0, "C": 0.0, "kinds": [], "Rv": [], "Lv": [], "Cv": [], "zt": [],
                 "model": [{"d": g.num(0.1, 1.0), "e": g.choice([0.0, g.num(0.05, 0.5)]), "p": p, "q": [[x * 0.3 for x in y] for y in q]}]}
            d["conns"].append(m)
            d["lumped"].append({"cable": c, "mat": m["id"], "c": pos, "cond": cond})
        for t, _ in walk(d["bundles"][b]["tree"]):
            for side in (0, -1):
                if g.random() < 0.25:
                    l = next(l for l in d["lines"] if l["id"] == t["el"])
                    m = {"id": mid(), "kind": "Conn_sRLC", "R": g.num(0.1, 1.0), "L": 0.0, "C": 1e22, "kinds": [], "Rv": [], "Lv": [], "Cv": [],
                         "zt": [shield(g, 0.3, rich)] if t["kids"] or g.random() < 0.3 else [], "model": []}
                    d["conns"].append(m)
                    d["ends"].append({"c": l["cs"][side], "mat": m["id"]})
        for j in range(g.randint(0, 3)):
            c = g.choice(sorted(cs))
            if g.random() < 0.5:
                el = g.choice(cs[c]["elems"])
                l = next(l for l in d["lines"] if l["id"] == el)
                d["probes"].append({"name": "%sp%d_%d" % (prefix, b, j), "type": g.choice(["voltage", "current"]), "el": node_at(g.choice(l["cs"])), "cable": ""})
            else:
                d["probes"].append({"name": "%sp%d_%d" % (prefix, b, j), "type": g.choice(["voltage", "current"]),
                                    "el": node_at(new_coord(g.on_line(u))), "cable": c})
    d["_el"] = [l["id"] for l in d["lines"]]
    # lists come in any order
    for k in ("coords", "lines", "nodes", "wires", "conns", "cables", "terms", "ends", "lumped", "tsrc", "dsrc", "probes"):
        if g.random() < 0.5:
            g.shuffle(d[k])
    return d


# ------------------------------------------------------- changes of notation
def renumber(g, d, what):
    """new ids of one kind (or names)"""
    d = copy.deepcopy(d)
    def perm(ids):
        ids = sorted(ids)
        how = g.randrange(3)
        if how == 0:
            new = list(ids)
            g.shuffle(new)
        else:
            new = g.sample(range(1, 3 * len(ids) + (2000 if how == 2 else 5)), len(ids))
        return dict(zip(ids, new))
    if what == "coordinates":
        m = perm([c["id"] for c in d["coords"]])
        for c in d["coords"]: c["id"] = m[c["id"]]
        for l in d["lines"]: l["cs"] = [m[c] for c in l["cs"]]
        for k in ("nodes", "ends", "lumped"):
            for x in d[k]: x["c"] = m[x["c"]]
        for k in ("terms", "juncs"):
            d[k] = [[[m[c] for c in gr] for gr in t] for t in d[k]]
    elif what == "elements":
        m = perm([x["id"] for k in ("lines", "nodes") for x in d[k]])
        for k in ("lines", "nodes"):
            for x in d[k]: x["id"] = m[x["id"]]
        d["_el"] = [m[x] for x in d["_el"]]
        for c in d["cables"]: c["elems"] = [m[e] for e in c["elems"]]
        for b in d["bundles"]:
            for t, _ in walk(b["tree"]): t["el"] = m[t["el"]]
        for s in d["tsrc"]: s["node"] = m[s["node"]]
        for s in d["dsrc"]: s["e1"], s["e2"] = m[s["e1"]], m[s["e2"]]
        for p in d["probes"]: p["el"] = m[p["el"]]
    elif what == "materials":
        m = perm([x["id"] for k in ("wires", "conns") for x in d[k]])
        for k in ("wires", "conns"):
            for x in d[k]: x["id"] = m[x["id"]]
        for c in d["cables"]:
            for k in ("mat", "ini", "end"): c[k] = m[c[k]]
        for k in ("ends", "lumped"):
            for x in d[k]: x["mat"] = m[x["mat"]]
    elif what == "names":
        cn = [c["name"] for c in d["cables"]]
        new = list(cn)
        if g.random() < 0.5:
            new = ["z%d" % k for k in g.sample(range(100), len(cn))]
        else:
            g.shuffle(new)
        m = dict(zip(cn, new))
        for c in d["cables"]: c["name"] = m[c["name"]]
        for k in ("lumped", "dsrc"):
            for x in d[k]: x["cable"] = m[x["cable"]]
        for p in d["probes"]:
            if p["cable"]: p["cable"] = m[p["cable"]]
        bn = [b["name"] for b in d["bundles"]]
        g.shuffle(bn)
        if g.random() < 0.5:
            bn = ["n%d" % k for k in g.sample(range(100), len(bn))]
        for b, n in zip(d["bundles"], bn): b["name"] = n
    return d


LISTS = ("coords", "lines", "nodes", "wires", "conns", "cables", "bundles", "terms", "juncs", "ends", "lumped", "tsrc", "dsrc", "probes")


def reorder(g, d, what):
    d = copy.deepcopy(d)
    if what in LISTS:
        g.shuffle(d[what])
    elif what == "pairs":
        for k in ("juncs", "terms"):
            for t in d[k]:
                g.shuffle(t)
        for t in d["juncs"]:
            for p in t:
                if g.random() < 0.5 and not any(s["node"] == n["id"] and n["c"] in p for s in d["tsrc"] for n in d["nodes"]):
                    p.reverse()
        for t in d["terms"]:
            for p in t:
                g.shuffle(p)
    elif what == "nesting":
        for b in d["bundles"]:
            def sh(tr, top=False):
                if not top:
                    g.shuffle(tr)
                for t in tr:
                    sh(t["kids"])
            sh(b["tree"], g.random() < 0.5)
    elif what == "materials order":
        n = len(d["wires"]) + len(d["conns"])
        d["matorder"] = g.sample(range(n), n)
    elif what == "sources order":
        n = len(d["tsrc"]) + len(d["dsrc"])
        d["srcorder"] = g.sample(range(n), n)
    elif what == "keys":
        d["keyorder"] = g.sample(range(16), 16)
        d["full"], d["ndivlist"] = 1 - d["full"], 1 - d["ndivlist"]
    return d


def relabel_objects(d, tag):
    """the recorder's names of the bundles (not part of the document)"""
    d = copy.deepcopy(d)
    for b in d["bundles"]:
        b["o"] = tag + b["o"]
    return d


if __name__ == "__main__":            # run a document in a fresh interpreter: final state to standard output
    spec = json.load(sys.stdin)
    p = parse(spec["doc"])
    for b in p.bundles:
        v, i = spec["state"][b.name]
        b.v[:, :], b.i[:, :] = np.array(v), np.array(i)
    p.run(spec["T"], spec["dt"])
    print(json.dumps(sorted([b.name, b.v.tolist(), b.i.tolist(), [l.name for lv in b.levels.values() for l in lv]] for b in p.bundles)))
