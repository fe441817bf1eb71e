"""Drives the library through its public calls and records what it does as a scenario that
spec/Trace.tla decides.  Nothing here judges anything."""
import sys, os, math, warnings
REPO = os.environ.get("MTLN_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))
warnings.filterwarnings("ignore")
import numpy as np
import sympy as sp
np.seterr(all="ignore")
import src.mtl as mtl
import src.mtln as mtln
import src.networks as networks

ALL = ["accepted", "rejected", "node", "cell", "end", "kcl", "ideal", "steps", "one dt", "final"]


def plain(x):
    """JSON value of an observation; not-a-number and infinities become the undefined number."""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else "#NaN"
    if isinstance(x, (complex, np.complexfloating)):
        return [plain(x.real), plain(x.imag)]
    return x


# ------------------------------------------------------------------ waveforms
def wave(w):
    """A function of time for a waveform description (the formulas of the library are not used)."""
    k = w["k"]
    if k == "zero":
        def f(t): return 0.0
    elif k == "poly":
        cs = w["c"]
        def f(t):
            y = 0.0
            for c in reversed(cs):
                y = y * t + c
            return y
    elif k == "step":
        a, t0 = w["a"], w["t0"]
        def f(t): return a if t >= t0 else 0.0
    elif k == "pwl":
        pts = w["pts"]
        def f(t):
            if t <= pts[0][0]: return pts[0][1]
            if t >= pts[-1][0]: return pts[-1][1]
            for (a, x), (b, y) in zip(pts, pts[1:]):
                if a < t <= b: return x + (y - x) * ((t - a) / (b - a))
    elif k == "scaled":
        g, s = wave(w["w"]), w["f"]
        def f(t): return s * g(t)
    elif k == "sum":
        gs = [wave(x) for x in w["ws"]]
        def f(t): return sum(g(t) for g in gs)
    else:
        raise KeyError(k)
    return f


def field(f):
    x, y, z, t, v = sp.symbols("x y z t v")
    if f["k"] == "poly":
        def comp(ms):
            return sum((m[0] * x**m[1] * y**m[2] * z**m[3] * t**m[4] for m in ms), sp.Float(0.0))
        return mtl.Field(comp(f["x"]), comp(f["y"]), comp(f["z"]))
    if f["k"] == "moving":
        d = f["d"]
        s = t + (d[0] * x + d[1] * y + d[2] * z) / v
        comp = lambda cs: sum((c * s**n for n, c in enumerate(cs)), sp.Float(0.0))
        return mtl.Field(comp(f["x"]), comp(f["y"]), comp(f["z"]))
    if f["k"] == "plane":
        cs = f["c"]
        def mag(s): return sum(c * s**n for n, c in enumerate(cs))
        return mtl.PlaneWave(mag, f["polar"], f["azimuth"], f["pol"])
    raise KeyError(f["k"])


def model(d, e, p, q, f=None, direction=None):
    m = {"cte": d, "prop": e,
         "poles": {"real": [x[0] for x in p], "imag": [x[1] for x in p]},
         "residues": {"real": [x[0] for x in q], "imag": [x[1] for x in q]}}
    if f is not None:
        m["factor"] = f
    if direction is not None:
        m["direction"] = direction
    return m


class Stop(Exception):
    """The scenario cannot go on: a valid request was refused (already recorded)."""


def holds(x):
    """the containers of an argument, from the inside out (objects of the library are not looked into)"""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, dict)):
        for y in (x if isinstance(x, list) else x.values()):
            yield from holds(y)
        yield x


def content(x):
    """what an argument says, to be compared with what it says later"""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(content(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((content(k), content(y)) for k, y in x.items())
    if isinstance(x, (str, int, float, type(None))):
        return x
    return id(x)


def poison(x):
    """what a caller may do with its own arguments once a call has returned"""
    for y in list(holds(x)):
        if isinstance(y, np.ndarray):
            y.fill(77 if y.dtype.kind in "iu" else math.nan)
        else:
            y.clear()


class Scenario:
    def __init__(self, id, act, args="plain"):
        """args: what the caller does with the arrays, lists and dictionaries it gives to calls: "plain" nothing,
        "poison" spoils them as soon as the call returns, "shared" gives the same ones to every call that takes equal ones."""
        self.id, self.act, self.args = id, list(act), args
        self.given, self.kept, self.pool = [], [], {}
        self.plain = 0
        self.cells, self.by = {}, {}         # what the caller holds in its cells; which of them the call takes
        self.frames = []
        self.objs = {}
        self.declared = {}      # object -> [(probe name, real probe)]
        self.watched = {}       # object -> (voltage probes, current probes)
        self.desc = {}
        self.bundles = {}       # bundle -> number of conductors of its first level
        self.portsof = {}       # line -> ports
        self.nlab = 0
        self.singles = []

    def cell(self, name, old, new):
        """The caller changes what it holds in a cell, in place."""
        if name in self.cells:
            if content(self.cells[name]) != content(old):
                raise ValueError("the caller's %s was changed by the library: %r" % (name, self.cells[name]))
            x = self.cells[name]
            if isinstance(x, np.ndarray):
                x[...] = new
            elif isinstance(x, list):
                x[:] = new
            else:
                x.clear()
                x.update(new)

    def arg(self, x, key=""):
        """An argument for the call being made."""
        if key in self.by:
            x2 = self.cells.setdefault(self.by[key], x)
            self.given.append((x2, content(x)))
            return x2
        if self.args == "plain":
            return x
        if self.args == "shared":
            if isinstance(x, np.ndarray) or not any(isinstance(y, dict) and "connections" in y for y in holds(x)):
                x = self.pool.setdefault(content(x), x)
        self.given.append((x, content(x)))
        return x

    def settle(self):
        """The call has returned: its arguments still say what they said."""
        if self.args == "plain" and not self.by:
            return
        self.kept += self.given
        bad = [c for x, c in self.kept if content(x) != c]
        self.frames.append({"op": "flag", "c": "arguments kept", "ok": not bad, "w": repr(bad[:1])[:100]})
        if self.args == "poison":
            for x, c in self.given:
                poison(x)
        if self.args == "poison" or self.by:
            self.kept = []
        self.given = []

    def data(self):
        return plain({"id": self.id, "act": self.act, "frames": self.frames})

    # -------------------------------------------------------------- calls
    def call(self, op, o, a, do, obs=None, valid=True, keep=None):
        """Make a call, record it and its outcome.  valid: the caller needs it to be accepted."""
        fr = {"op": op, "o": o, "a": a, "exc": ""}
        r = None
        try:
            r = do()
        except Exception as ex:                                  # noqa: BLE001
            fr["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
        if fr["exc"] == "":
            if keep is not None:
                keep(r)
            if obs is not None:
                try:
                    fr["obs"] = obs(r)
                except Exception as ex:                          # noqa: BLE001
                    fr["exc"] = "observation: " + repr(ex)[:80]
        self.frames.append(fr)
        self.settle()
        if fr["exc"] != "" and valid:
            raise Stop()
        return r

    def put(self, name):
        def k(r):
            self.objs[name] = r
        return k

    @staticmethod
    def look(o):
        return {"u": o.u, "du": o.du, "dt": o.dt, "vels": o.get_phase_velocities()}

    def mtl(self, name, l, c, pts=((0., 0., 0.), (0., 0., 1.)), ndiv=(4,), r=0.0, g=0.0, zs=0.0, zl=0.0,
            form="", lname=None, valid=True):
        """l, c: scalar or matrix; r, g: scalar or matrix; zs, zl: scalar or list per conductor.
        form: letters choosing among equivalent ways of writing the call."""
        def arg(x):
            return {"m": x} if isinstance(x, (list, tuple)) else {"s": float(x)}
        def ends(x):
            return {"v": list(x)} if isinstance(x, (list, tuple)) else {"s": float(x)}
        a = {"l": arg(l), "c": arg(c), "r": arg(r), "g": arg(g), "zs": ends(zs), "zl": ends(zl),
             "pts": [list(p) for p in pts], "ndiv": list(ndiv)}
        def val(x, key):
            return self.arg(np.array(x, dtype=float), key) if isinstance(x, (list, tuple)) else float(x)
        def zval(x, key):
            if not isinstance(x, (list, tuple)):
                return float(x)
            z = np.array(x, dtype=float)
            return self.arg(z.reshape(1, -1) if "h" in form else z.reshape(-1, 1) if "v" in form else z, key)
        kw = dict(r=val(r, "r"), g=val(g, "g"), Zs=zval(zs, "zs"), Zl=zval(zl, "zl"), name=name if lname is None else lname)
        if "z" in form:            # straight along z, given by its length
            kw["length"] = float(pts[1][2])
        else:
            kw["node_positions"] = self.arg(np.array(pts, dtype=float), "pts")
        kw["ndiv"] = int(ndiv[0]) if "i" in form else self.arg(np.array(ndiv) if "a" in form else list(ndiv), "ndiv")
        if "d" in form:            # leave out what has its default value
            for k, d in (("r", 0.0), ("g", 0.0), ("Zs", 0.0), ("Zl", 0.0)):
                if isinstance(kw[k], float) and kw[k] == d and not (k in ("Zs", "Zl") and type(kw["Zs"]) != type(kw["Zl"])):
                    del kw[k]
        return self.call("mtl", name, a, lambda: mtl.MTL(val(l, "l"), val(c, "c"), **kw),
                         obs=self.look, keep=self.put(name), valid=valid)

    def pos(self, p, plain_number=False, key="pos"):
        """A position of the z axis may also be given as a number."""
        if plain_number and p[0] == 0.0 and p[1] == 0.0:
            self.plain += 1
            if p[2] == int(p[2]) and self.plain % 2:
                return int(p[2])
            return (float, np.float64)[self.plain // 2 % 2](p[2])
        return self.arg(np.array(p, dtype=float), key)

    def source(self, o, pos, cond, w, number=False):
        self.call("source", o, {"pos": list(pos), "cond": cond, "w": w},
                  lambda: self.objs[o].add_voltage_source(self.pos(pos, number), cond, wave(w)))

    def res(self, o, a, b, cond, val, number=False, point=False, valid=True):
        x = self.objs[o]
        def do():
            if point and hasattr(x, "set_resistance_at_point"):
                x.set_resistance_at_point(self.pos(a, number, "a"), cond, val)
            else:
                x.set_resistance_in_region(self.pos(a, number, "a"), self.pos(b, number, "b"), cond, val)
        self.call("res", o, {"a": list(a), "b": list(b), "cond": cond, "val": val}, do, valid=valid)

    def cond(self, o, a, b, cond, val, number=False, point=False, valid=True):
        x = self.objs[o]
        def do():
            if point and hasattr(x, "add_conductance_at_point"):
                x.add_conductance_at_point(self.pos(a, number, "a"), cond, val)
            else:
                x.add_conductance_in_region(self.pos(a, number, "a"), self.pos(b, number, "b"), cond, val)
        self.call("cond", o, {"a": list(a), "b": list(b), "cond": cond, "val": val}, do, valid=valid)

    def lumped(self, o, pos, cond, d=0.0, e=0.0, p=(), q=(), valid=True):
        self.call("lumped", o, {"pos": list(pos), "cond": cond, "d": d, "e": e, "p": p, "q": q},
                  lambda: self.objs[o].add_dispersive_connector(self.pos(pos), cond, self.arg(model(d, e, p, q), "model")),
                  valid=valid)

    def probe(self, o, name, pos, type, number=False, valid=True):
        def keep(r):
            self.declared.setdefault(o, []).append((name, r))
        return self.call("probe", o, {"name": name, "pos": list(pos), "type": type},
                         lambda: self.objs[o].add_probe(self.pos(pos, number), type), keep=keep, valid=valid)

    def bundle(self, o, levels, name=None, valid=True):
        """levels: list of lists of line objects (their registered names)"""
        name = o if name is None else name
        a = {"name": name, "levels": [[{"name": self.objs[x].name, "o": x} for x in lv] for lv in levels]}
        def do():
            return mtl.MTLD(self.arg({k: [self.objs[x] for x in lv] for k, lv in enumerate(levels)}, "levels"), name=name)
        def keep(r):
            self.objs[o] = r
            self.bundles[o] = sum(self.objs[x].v.shape[0] for x in levels[0])
        return self.call("bundle", o, a, do, obs=self.look, keep=keep, valid=valid)

    def zt(self, o, ol, oc, il, ic, direction, d=0.0, e=0.0, p=(), q=(), f=None, side=None, valid=True):
        a = {"ol": ol, "oc": list(oc), "il": il, "ic": list(ic), "dir": direction, "d": d, "e": e, "p": p, "q": q,
             "f": 1.0 if f is None else f}
        m = self.arg(model(d, e, p, q, f, direction), "model")
        rows, cols = self.arg(list(oc), "oc"), self.arg(list(ic), "ic")
        if side is None:
            self.call("zt", o, a, lambda: self.objs[o].add_transfer_impedance(ol, rows, il, cols, m), valid=valid)
        else:
            a["side"] = side
            self.call("ztc", o, a, lambda: self.objs[o].set_connector_transfer_impedance(side, ol, rows, il, cols, m), valid=valid)

    def dist(self, o, a, b, cond, w, number=False, valid=True):
        self.call("dist", o, {"a": list(a), "b": list(b), "cond": cond, "w": w},
                  lambda: self.objs[o].add_localized_longitudinal_field(self.pos(a, number, "a"), self.pos(b, number, "b"), cond, wave(w), "Lumped"),
                  valid=valid)

    def field(self, o, f, dist, loc=(), valid=True):
        a = {"f": f, "dist": dist, "loc": [list(p) for p in loc]}
        def do():
            d = self.arg(np.array(dist, dtype=float), "dist")
            F = field(f)
            if self.args == "shared":
                F = self.pool.setdefault(("field", repr(f)), F)
            if f["k"] == "plane":
                self.objs[o].add_planewave(F, d)
            elif loc:
                self.objs[o].add_external_field(F, d, self.arg([np.array(p, dtype=float) for p in loc]))
            else:
                self.objs[o].add_external_field(F, d)
        self.call("field", o, a, do, valid=valid)

    def sysfield(self, o, f, dist, bundle_=None, loc=()):
        """through the system: on all its bundles, or on a region of one"""
        d = self.arg(np.array(dist, dtype=float), "dist")
        x = self.objs[o]
        exc = ""
        try:
            if bundle_ is None:
                x.add_external_field(field(f), d)
            else:
                x.add_localized_external_field(self.objs[bundle_].name, field(f), d, self.arg([np.array(p, dtype=float) for p in loc]))
        except Exception as ex:                                  # noqa: BLE001
            exc = type(ex).__name__ + ": " + str(ex)[:80]
        self.settle()
        self.fieldframes(o, f, dist, bundle_, loc, exc)
        if exc:
            raise Stop()

    def fieldframes(self, o, f, dist, bundle_, loc, exc=""):
        for b in ([bundle_] if bundle_ is not None else self.parts(o)):
            self.frames.append({"op": "field", "o": b, "a": {"f": f, "dist": dist, "loc": [list(p) for p in loc]}, "exc": exc})

    def copy(self, o, of):
        self.call("copy", o, {"of": of}, lambda: self.objs[of].create_clean_copy(), keep=self.put(o))
        self.declared[o] = [(n, p) for (n, _), p in zip(self.declared.get(of, []), self.objs[o].probes)]

    def setdt(self, o, T, n):
        self.call("setdt", o, {"T": T, "n": n}, lambda: self.objs[o].set_time_step(n, T), obs=lambda r: {"dt": self.objs[o].dt})

    def state(self, o, v, i):
        def do():
            self.objs[o].v[:, :] = np.array(v)
            self.objs[o].i[:, :] = np.array(i)
        self.call("state", o, {"v": v, "i": i}, do)

    # ------------------------------------------------------------ networks
    @staticmethod
    def connector(kind, br):
        if kind == "C": return {"connectorType": "Conn_C"}
        if kind == "LCpRs": return {"connectorType": "Conn_LCpRs"}
        return {"connectorType": "Conn_R"}

    def net(self, o, parts, valid=True, how="levels", style=0):
        """parts: one per level: {"level", "nodes": [{id, line (object), bundle, side, cond}], "br": [...]}"""
        a = {"parts": []}
        for p in parts:
            a["parts"].append({"level": p["level"],
                               "nodes": [dict(nd, line=self.objs[nd["line"]].name) for nd in p["nodes"]],
                               "br": [dict({"k": "R", "b": 0, "R": 1.0, "L": 1.0, "C": 1.0, "w": {"k": "zero"}}, **b) for b in p["br"]]})
        def do():
            levels = {}
            for p in parts:
                kinds = {}
                for b in p["br"]:
                    if b["k"] == "LCpRs" or b["k"] == "C" and kinds.get(b["a"]) != "LCpRs":
                        kinds[b["a"]] = b["k"]
                desc = {}
                names = {"C": "Conn_C", "LCpRs": "Conn_LCpRs"}
                for nd in p["nodes"]:
                    line = self.objs[nd["line"]]
                    ent = desc.setdefault(line, {"bundle": self.objs[nd["bundle"]], "connections": [], "side": nd["side"]})
                    con = self.connector(kinds.get(nd["id"]), None)
                    if style >= 2:              # one connector for all wires of the line
                        con = {"connectorType": "MultiwireConnector", "connections": ["Conn_R"] * line.v.shape[0]}
                        for o2 in p["nodes"]:
                            if o2["line"] == nd["line"]:
                                con["connections"][o2["cond"]] = names.get(kinds.get(o2["id"]), "Conn_R")
                    ent["connections"].append([nd["id"], nd["cond"], con])
                nw = networks.Network(self.arg(desc))
                for b in p["br"]:
                    w = wave(b["w"]) if "w" in b and b["w"]["k"] != "zero" else 0
                    if b["k"] == "R":
                        (nw.connect_to_ground if style % 2 else nw.connect_to_ground_R)(b["a"], R=b["R"], Vt=w)
                    elif b["k"] == "C":
                        nw.connect_to_ground_C(b["a"], C=b["C"], Vt=w)
                    elif b["k"] == "LCpRs":
                        nw.connect_to_ground_LCpRs(b["a"], R=b["R"], L=b["L"], C=b["C"], Vt=w)
                    elif b["k"] == "short":
                        nw.short_to_ground(b["a"])
                    elif b["k"] == "shortn":
                        nw.short_nodes(b["a"], b["b"])
                    elif b["k"] == "Rn":
                        nw.connect_nodes(b["a"], b["b"], b["R"], w)
                levels[p["level"]] = nw
            return networks.NetworkD(self.arg(levels))
        return self.call("net", o, a, do, keep=self.put(o), valid=valid)

    def system(self, o, bundles=(), nets=(), how=0, valid=True):
        def do():
            if how == 0:
                return mtln.MTLN(bundles=self.arg([self.objs[b] for b in bundles]), networks=self.arg([self.objs[n] for n in nets]))
            s = mtln.MTLN()
            for b in bundles:
                s.add_bundle(self.objs[b])
            if how == 1:
                for n in nets:
                    s.add_network(self.objs[n])
            else:
                s.add_networks(self.arg([self.objs[n] for n in nets]))
            return s
        self.desc[o] = list(bundles)
        return self.call("system", o, {"bundles": list(bundles), "nets": list(nets)}, do, keep=self.put(o), valid=valid)

    def addbundle(self, o, b, valid=True):
        self.call("addbundle", o, {"b": b}, lambda: self.objs[o].add_bundle(self.objs[b]),
                  keep=lambda r: self.desc[o].append(b), valid=valid)

    def addnet(self, o, n, valid=True):
        self.call("addnet", o, {"net": n}, lambda: self.objs[o].add_network(self.objs[n]), valid=valid)

    def invalid(self, what, do):
        """A request that makes no sense: it must be refused."""
        self.call("invalid", " ", {"what": what}, do, valid=False)

    # ---------------------------------------------------------------- runs
    def parts(self, o):
        return self.desc.get(o, [o])

    def watch(self, o):
        for b in self.parts(o):
            x = self.objs[b]
            vs = [x.add_probe(x.u[k], "voltage") for k in range(x.u.shape[0])]
            cs = [x.add_probe(x.u[k], "current") for k in range(x.u.shape[0] - 1)]
            self.watched[b] = (vs, cs)

    def state_of(self, o):
        return {b: {"v": self.objs[b].v.copy(), "i": self.objs[b].i.copy()} for b in self.parts(o)}

    def steps_of(self, o):
        """states after each step of the last run, from probes at every node and cell"""
        out = []
        n = min(len(p.t) for b in self.parts(o) for ps in self.watched[b] for p in ps)
        for j in range(n):
            out.append({b: {"v": np.array([p.val[j] for p in self.watched[b][0]]).T,
                            "i": np.array([p.val[j] for p in self.watched[b][1]]).T} for b in self.parts(o)})
        return out

    def run(self, o, T, dt=0.0, lab=None, like="", map=None, single=False, exact=False):
        """One call of run_until.  single: the run has at most one step, seen in the state after it."""
        x = self.objs[o]
        if lab is None:
            self.nlab += 1
            lab = "run%d" % self.nlab
        t0 = x.time
        self.singles.append(single)
        self.frames.append({"op": "run", "o": o, "lab": lab, "a": {"T": T, "dt": dt}})
        before = self.state_of(o)
        exc = ""
        try:
            if dt:
                x.run_until(T, dt)
            else:
                x.run_until(T)
        except Exception as ex:                                  # noqa: BLE001
            exc = type(ex).__name__ + ": " + str(ex)[:80]
        if exc == "":
            if single:
                if x.time != t0:
                    self.frames.append({"op": "step", "o": o, "lab": lab, "st": self.state_of(o)})
            elif all(b in self.watched for b in self.parts(o)):
                for st in self.steps_of(o):
                    self.frames.append({"op": "step", "o": o, "lab": lab, "st": st})
        probes = [{"o": b, "name": n, "t": p.t.copy(), "val": p.val.copy()} for b in self.parts(o) for n, p in self.declared.get(b, [])]
        self.frames.append({"op": "endrun", "o": o, "lab": lab, "a": {"T": T, "dt": dt}, "exc": exc, "t0": t0,
                            "time": x.time, "dt": x.dt, "dts": {b: self.objs[b].dt for b in self.parts(o)},
                            "st": self.state_of(o), "probes": probes, "like": like, "map": map or {"": ""}})
        if exc:
            raise Stop()
        return lab

    def walk(self, o, n, lab):
        """n steps made by hand after the run `lab`"""
        x = self.objs[o]
        t0, exc = x.time, ""
        try:
            for _ in range(n):
                x.step()
                self.frames.append({"op": "step", "o": o, "lab": lab, "st": self.state_of(o)})
        except Exception as ex:                                  # noqa: BLE001
            exc = type(ex).__name__ + ": " + str(ex)[:80]
        probes = [{"o": b, "name": q, "t": np.array(p.t), "val": np.array(p.val)} for b in self.parts(o) for q, p in self.declared.get(b, [])]
        self.frames.append({"op": "endwalk", "o": o, "lab": lab, "a": {"n": n}, "exc": exc, "t0": t0, "time": x.time, "dt": x.dt,
                            "dts": {b: self.objs[b].dt for b in self.parts(o)}, "probes": probes})
        if exc:
            raise Stop()

    def steps(self, o, n, dt=0.0, lab=None):
        """n runs of one step each, all with one label"""
        if lab is None:
            self.nlab += 1
            lab = "run%d" % self.nlab
        for _ in range(n):
            h = dt or self.objs[o].dt
            self.run_one(o, 1.5 * h, dt, lab)
        return lab

    def run_one(self, o, T, dt, lab):
        self.run(o, T, dt, lab=lab, single=True)

    def rel(self, c, k, labs, w="", **kw):
        self.frames.append(dict({"op": "rel", "c": c, "k": k, "labs": list(labs), "w": w}, **kw))

    def lin(self, c, terms, tol=1e-8, w="", fi=None):
        """terms: (label, factor, [(object, row)...], reversed); fi: factors of the currents, if they are others"""
        ts = [{"lab": t[0], "f": t[1], "map": [{"o": o, "r": r} for o, r in t[2]], "rev": int(t[3]) if len(t) > 3 else 0} for t in terms]
        for t, f in zip(ts, fi or [t["f"] for t in ts]):
            t["fi"] = f
        self.rel(c, "lin", [t[0] for t in terms], w, terms=ts, tol=tol)

    def same(self, c, a, b, w=""):
        """two observations that have to be equal"""
        self.frames.append({"op": "same", "c": c, "a": a, "b": b, "w": w})

    # --------------------------------------------------------------- ports
    def ports(self, o, both=True):
        x = self.objs[o]
        ps = x.add_port_probes() if both else [x.add_port_probe(0), x.add_port_probe(1)]
        self.portsof[o] = ps
        for p, nm, ks in zip(ps, "SL", ((0, 1), (-2, -1))):
            for pr, what, k, ty in ((p.v0, "v0", ks[0], "voltage"), (p.v1, "v1", ks[1], "voltage"), (p.i0, "i0", ks[0], "current")):
                name = "port%s_%s_%d" % (nm, what, len(self.declared.get(o, [])))
                self.frames.append({"op": "probe", "o": o, "a": {"name": name, "pos": x.u[k].tolist(), "type": ty}, "exc": ""})
                self.declared.setdefault(o, []).append((name, pr))

    def port_waves(self, o, zs, zl):
        import src.networkExtraction as nx
        x = self.objs[o]
        for p, term, z in zip(self.portsof[o], "SL", (zs, zl)):
            for c in range(x.v.shape[0]):
                f, a, b = p.get_incident_and_reflected_power_wave(c)
                self.frames.append({"op": "port", "o": o, "term": term, "v0": p.v0.val[:, c].copy(), "v1": p.v1.val[:, c].copy(),
                                    "i0": p.i0.val[:, c].copy(), "z0": float(z[c]), "dt": x.dt, "a": a, "b": b, "f": f})
                self.same("port terminal", p.getTerminal(), term)
        pS, pL = self.portsof[o]
        n = x.v.shape[0]
        for c, d in ((0, 0), (n - 1, 0)):
            _, a1, b1 = pS.get_incident_and_reflected_power_wave(c)
            _, a2, b2 = pL.get_incident_and_reflected_power_wave(d)
            f, s = nx.extract_s_reciprocal((pS, c), (pL, d))
            self.frames.append({"op": "sparam", "o": o, "a1": a1, "b1": b1, "a2": a2, "b2": b2,
                                "s": [[[s[m, j, k] for k in range(2)] for j in range(2)] for m in range(len(f))]})

    def two_port(self, names, lossless):
        """names: line excited at S, at L, and at S with another amplitude"""
        import src.networkExtraction as nx
        out = []
        for j, nm in enumerate(names):
            pS, pL = self.portsof[nm]
            p, q = (pL, pS) if j == 1 else (pS, pL)
            f, s = nx.extract_s_reciprocal((p, 0), (q, 0))
            m = [k for k in range(len(f)) if abs(f[k]) * 40 * self.objs[nm].dt <= 1.0]
            out.append([[s[k, 0, 0], s[k, 1, 0]] for k in m])
        self.frames.append({"op": "twoport", "o": names[0], "a": out[0], "b": out[1], "c": out[2], "lossless": int(lossless)})

    def flag(self, c, ok, w=""):
        self.frames.append({"op": "flag", "c": c, "ok": bool(ok), "w": w})
