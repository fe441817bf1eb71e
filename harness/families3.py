"""Scenario families of C20, C21 and C23 (see families.py)."""
import math
import numpy as np
import sympy as sp
import gen
import docs
from families import family


# ------------------------------------------------------------ C23 waveforms
def wave_ts(g, brk, span, kind=""):
    """instants: breakpoints, their neighbours on both sides, others before, between and after"""
    ts = []
    for b in brk:
        ts += [b, b + 1e-9 * span, b - 1e-9 * span]
        # (where a waveform jumps, the neighbours in the last bit are left to rounding)
        ts += [b + 1e-13 * span, b - 1e-13 * span] if kind in ("square", "triangle") else [math.nextafter(b, 1e9), math.nextafter(b, -1e9)]
    for _ in range(12):
        ts.append(g.uniform(-1.5, 4.0) * span)
    ts += [0.0, -span, 10 * span]
    return ts


def params(g, kind):
    A = g.choice([1.0, -1.0, g.num(-5, 5) or 2.0, 1e-3, 50.0])
    sc = g.choice([1.0, 1.0, 0.125, 16.0, 1e-9, 1e-6])
    r = lambda lo, hi: g.num(lo, hi) * sc
    if kind == "trapezoidal":
        rise, fall, top = r(0.1, 1.0), r(0.1, 1.0), g.choice([0.0, r(0.1, 1.0)])
        if g.random() < 0.3:
            fall = rise
        P = (rise + fall + top) * g.choice([1.0, 1.25, 2.0, 5.0])
        f0 = 1 / P
        w = {"k": kind, "A": A, "rise": rise, "fall": fall, "f0": f0, "D": (top + 0.5 * (rise + fall)) * f0}
        brk = [j * P + q for j in (0, 1, 7, -1) for q in (0.0, rise, rise + top, rise + top + fall)]
        return w, (A, rise, fall, f0, w["D"]), brk, P
    x0 = r(0.2, 2.0)
    if kind in ("ramp", "square", "triangle", "exp"):
        return {"k": kind, "A": A, "x0": x0}, (A, x0), [0.0, x0], x0
    if kind == "gaussian":
        s0 = r(0.2, 1.0)
        return {"k": kind, "x0": x0, "s0": s0}, (x0, s0), [x0], s0
    if kind == "gaussian_2":
        s0 = r(0.2, 1.0)
        return {"k": kind, "A": A, "x0": x0, "s0": s0}, (A, x0, s0), [x0], s0
    if kind in ("sin", "sin_sq"):
        om = 1 / x0
        return {"k": kind, "A": A, "w": om}, (A, om), [0.0, math.pi / om, 2 * math.pi / om], x0
    a, b = g.num(0.2, 1.0) / sc, g.num(1.2, 4.0) / sc
    return {"k": "double_exp", "A": A, "a": a, "b": b}, (A, a, b), [0.0], sc


NUMERIC = {"trapezoidal": "trapezoidal_wave", "ramp": "ramp_pulse", "square": "square_pulse", "triangle": "triangle_pulse", "exp": "exp",
           "gaussian": "gaussian", "gaussian_2": "gaussian_2", "sin": "sin_pulse", "sin_sq": "sin_sq_pulse", "double_exp": "double_exp"}


def numeric(w):
    """the library's function for a waveform, with its parameters"""
    import src.waveforms as wf
    names = {"trapezoidal": ("A", "rise", "fall", "f0", "D"), "gaussian": ("x0", "s0"), "gaussian_2": ("A", "x0", "s0"), "sin": ("A", "w"), "sin_sq": ("A", "w"),
             "double_exp": ("A", "a", "b")}.get(w["k"], ("A", "x0"))
    args = [w[n] for n in names]
    return getattr(wf, NUMERIC[w["k"]]), args


def symbolic(w, v):
    """the library's symbolic forms of a waveform: [(function of (x, y, z, t), coordinates it moves along)]"""
    import src.waveforms as wf
    x, y, z, t, vs = sp.symbols("x y z t v")
    out = []
    for kind, name, coords, vel in SYMBOLIC:
        if kind == w["k"]:
            args = numeric(w)[1]
            e = getattr(wf, name)(*args, v) if vel is not None and vel is not False else getattr(wf, name)(*args)
            out.append((name, sp.lambdify((x, y, z, t), sp.sympify(e).subs(vs, v)), coords))
    return out


@family("C23", 60, 600)
def c23_numeric(S, g, k):
    import src.waveforms as wf
    kind = sorted(NUMERIC)[k % len(NUMERIC)]
    w, args, brk, span = params(g, kind)
    f = getattr(wf, NUMERIC[kind])
    ts = wave_ts(g, brk, span, kind)
    S.frames.append({"op": "wave", "c": "wave", "w": w, "ts": ts, "vals": [float(f(t, *args)) for t in ts]})
    if kind != "double_exp":
        S.frames.append({"op": "wave", "c": "wave", "w": w, "ts": ts, "vals": np.asarray(f(np.array(ts), *args), dtype=float) + np.zeros(len(ts))})
    else:
        S.frames.append({"op": "wave", "c": "wave", "w": w, "ts": ts, "vals": [float(f(float(t), *args)) for t in ts[::-1]][::-1]})


SYMBOLIC = [("trapezoidal", "trapezoidal_wave_x_sp", "x", True), ("trapezoidal", "trapezoidal_wave_sp", "x", True),
            ("ramp", "ramp_pulse_sp", "", False), ("ramp", "ramp_pulse_x_sp", "x", "sym"), ("ramp", "ramp_pulse_y_sp", "y", "sym"),
            ("ramp", "ramp_pulse_z_sp", "z", "sym"), ("gaussian_2", "gaussian_2_sp", "", False), ("double_exp", "double_exp_sp", "", False),
            ("double_exp", "double_exp_xy_sp", "xy", None), ("double_exp", "double_exp_yz_sp", "yz", None), ("double_exp", "double_exp_xz_sp", "xz", None)]


@family("C23", 44, 400)
def c23_symbolic(S, g, k):
    """the symbolic form, as an expression and as the function the library makes of it"""
    import src.waveforms as wf
    kind, name, coords, vel = SYMBOLIC[k % len(SYMBOLIC)]
    w, args, brk, span = params(g, kind)
    v = g.choice([0.5, 1.0, 2.0, 4.0]) / (1.0 if span > 1e-3 else span)
    e = getattr(wf, name)(*args, v) if vel is not None and vel is not False else getattr(wf, name)(*args)
    x, y, z, t, vs = sp.symbols("x y z t v")
    ts, vals, vals2 = [], [], []
    for t0 in wave_ts(g, brk, span):
        p = [g.num(-1, 1, 8), g.num(-1, 1, 8), g.num(-1, 1, 8)]
        s = t0 + sum(dict(zip("xyz", p))[c] / v for c in coords)
        q = sp.sympify(e).subs(vs, v).subs(dict(zip((x, y, z), p)))
        ts.append(s)
        vals.append(float(sp.sympify(q).subs(t, t0)))
        vals2.append(float(sp.lambdify(t, q)(t0)))
    S.frames.append({"op": "wave", "c": "wave", "w": w, "ts": ts, "vals": vals})
    S.frames.append({"op": "wave", "c": "wave", "w": w, "ts": ts, "vals": vals2})


@family("C23", 1, 1)
def c23_null(S, g, k):
    import src.waveforms as wf
    n = sp.sympify(wf.null())
    S.frames.append({"op": "wave", "c": "wave", "w": {"k": "zero"}, "ts": [0.0, 1.5, -2.0], "vals": [float(n.subs("n", 3.0))] * 3})


# ------------------------------------------------------------ C20 documents
DOC = ["nodes", "modes", "default dt", "probe frames", "probe times", "probe values"]


def doc_run(S, g, o, d, n=None, dt=None, lab=None, single=True):
    """initial state inside, then a run of some steps (or of one)"""
    for b in d["bundles"]:
        gen.rest_state(S, g, b["o"])
    h = min(S.objs[b["o"]].dt for b in d["bundles"])
    dt = h * g.choice([1.0, 0.5, 0.875]) if dt is None else dt
    S.watch(o)
    return S.run(o, ((n or g.randint(2, 4)) + 0.5) * (dt or h), dt, lab=lab)


@family("C20", 120, 900, DOC)
def c20_random(S, g, k):
    S.act.remove("steps")
    d = docs.random_doc(g)
    docs.doc(S, "M", d)
    doc_run(S, g, "M", d, dt=0.0 if g.random() < 0.3 else None)


@family("C20", 14, 140, DOC)
def c20_deep(S, g, k):
    """shields within shields within shields; cables of many conductors"""
    S.act.remove("steps")
    d = docs.random_doc(g, bundles=1 + int(k % 7 == 6), deep=(1, 4, 2, 5, 1, 4, 1)[k % 7], wide=(5, 0, 4, 0, 6, 3, 4)[k % 7])
    docs.doc(S, "M", d)
    doc_run(S, g, "M", d, n=2, dt=0.0 if g.random() < 0.3 else None)


@family("C20", 16, 120, DOC)
def c20_field(S, g, k):
    """the same with an incident field given with the run"""
    import rec
    from families2 import moving_field, poly_field, distances
    S.act.remove("steps")
    d = docs.random_doc(g, bundles=1 + k % 2)
    docs.doc(S, "M", d)
    for b in d["bundles"]:
        gen.rest_state(S, g, b["o"])
    S.watch("M")
    h = min(S.objs[b["o"]].dt for b in d["bundles"])
    dt = h * g.choice([1.0, 0.5])
    f = moving_field(g) if g.random() < 0.3 else poly_field(g)
    b = g.choice(d["bundles"])
    x = S.objs[b["o"]]
    N = x.u.shape[0] - 1
    dist = distances(g, x.levels[0][0].number_of_conductors, N)
    if len(d["bundles"]) == 1 and g.random() < 0.5:
        S.objs["M"].how = ("all", rec.field(f), np.array(dist, dtype=float))
        S.fieldframes("M", f, dist, None, ())
    else:
        u = x.u.tolist()
        j = sorted(g.sample(range(N + 1), 2))
        loc = (u[j[0]], u[j[1]])
        S.objs["M"].how = ("region", b["name"], rec.field(f), np.array(dist, dtype=float), [np.array(p, dtype=float) for p in loc])
        S.fieldframes("M", f, dist, b["o"], loc)
    S.run("M", 2.5 * dt, dt)


# --------------------------------------------------- C21 notation of documents
CHANGES = [("renumber", w) for w in ("coordinates", "elements", "materials", "names")] + \
          [("reorder", w) for w in docs.LISTS + ("pairs", "nesting", "materials order", "sources order", "keys")]


@family("C21", 3 * len(CHANGES), 12 * len(CHANGES), DOC)
def c21_notation(S, g, k):
    """a document and another way of writing it: same behaviour, row by row"""
    S.act.remove("steps")
    how, what = CHANGES[k % len(CHANGES)]
    d = docs.random_doc(g, bundles=g.choice([1, 2, 2, 3])) if k % 5 < 4 else docs.random_doc(g, bundles=1, deep=g.choice([1, 2, 4]), wide=g.choice([0, 3, 4]))
    e = (docs.renumber if how == "renumber" else docs.reorder)(g, d, what)
    if g.random() < 0.3:
        how2, what2 = g.choice(CHANGES)
        e = (docs.renumber if how2 == "renumber" else docs.reorder)(g, e, what2)
    e = docs.relabel_objects(e, "x")
    for p in e["probes"]:
        p["name"] = p["name"]
    docs.doc(S, "M", d)
    docs.doc(S, "Mx", e)
    # elements of the two documents correspond by the place of their conductors in the model
    first = {c["id"]: j for j, c in enumerate(d["coords"])}
    key = element_keys(d, e)
    pairs = []
    for b in d["bundles"]:
        o = b["o"]
        ra = docs.rows(d, b)
        be = next(x for x in e["bundles"] if x["o"] == "x" + o)
        rb = docs.rows(e, be)
        pairs.append((o, "x" + o, [(r, rb.index(key[el])) for r, el in enumerate(ra)]))
    dt = min(S.objs[o].dt for b in d["bundles"] for o in (b["o"], "x" + b["o"])) * 0.875
    for o, x, m in pairs:
        v, i = g.state(S.objs[o].v.shape[0], S.objs[o].i.shape[1], False)
        S.state(o, v, i)
        q = {y: r for r, y in m}
        S.state(x, [v[q[y]] for y in range(len(v))], [i[q[y]] for y in range(len(v))])
    n = g.randint(3, 5)
    for o, lab in (("M", "R"), ("Mx", "Rx")):
        S.watch(o)
        S.run(o, (n + 0.5) * dt, dt, lab=lab)
    ideal = any(k2 == "Conn_short" for c in d["conns"] for k2 in [c["kind"]] + c["kinds"])
    S.lin("same document", [("R", 1.0, [(o, r) for o, x, m in pairs for r, y in m]),
                            ("Rx", -1.0, [(x, y) for o, x, m in pairs for r, y in m])], 1e-4 if ideal else 1e-7)


def element_keys(d, e):
    """element of d -> element of e, through the lists in which both kept the order of their construction"""
    if "_el" in d:
        return dict(zip(d["_el"], e["_el"]))
    raise KeyError("_el")


@family("C21", 12, 60, ["same"])
def c21_hash(S, g, k):
    """reading again, and reading in another process with other string hashes"""
    import json, os, subprocess, sys
    d = docs.random_doc(g, bundles=g.choice([1, 2, 3]), maxlev=3)
    ps = [docs.parse(d) for _ in range(2)]
    state = {}
    for b in ps[0].bundles:
        state[b.name] = g.state(b.v.shape[0], b.i.shape[1], False)
    dt = min(b.dt for b in ps[0].bundles)
    spec = {"doc": d, "state": state, "T": 3.5 * dt, "dt": dt}
    outs = []
    for seed in ("1", "2", "3"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        r = subprocess.run([sys.executable, docs.__file__], input=json.dumps(spec), env=env, capture_output=True, text=True)
        outs.append(json.loads(r.stdout) if r.returncode == 0 else ["failed", r.stderr[-200:]])
    for p in ps:
        for b in p.bundles:
            v, i = state[b.name]
            b.v[:, :], b.i[:, :] = np.array(v), np.array(i)
        p.run(spec["T"], spec["dt"])
        outs.append(sorted([b.name, b.v.tolist(), b.i.tolist(), [l.name for lv in b.levels.values() for l in lv]] for b in p.bundles))
    S.flag("usable", outs[0][0] != "failed", str(outs[0])[:100])
    for j in range(1, len(outs)):
        S.same("same document", outs[0], outs[j], "reading %d" % j)
