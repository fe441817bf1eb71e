"""Scenario families: for each property, what is built and run on the library.  A family is a
function of a scenario recorder, a seeded generator and the number of the scenario."""
import copy
import gen
from gen import Z, line, bundle, closed_bundle, terminate, rest_state, run_some, cells, branch, side_nodes, levels
from rec import ALL

FAM = {}


def family(prop, quick, thorough, act=(), args=("plain",)):
    """args: what the caller does with its arguments (see rec.Scenario), scenario by scenario"""
    def deco(f):
        FAM.setdefault(prop, []).append({"fn": f, "name": f.__name__, "quick": quick, "thorough": thorough, "act": ALL + list(act), "args": args})
        return f
    return deco


# ---------------------------------------------------------------- C01 interior
@family("C01", 40, 400)
def c01_line(S, g, k):
    n = line(S, g, "a", n=1 + k % 4)
    if g.random() < 0.3:
        S.setdt("a", S.objs["a"].dt * g.num(0.3, 0.95) * 8, 8)
    v, i = g.state(n, cells(S, "a"))
    S.state("a", v, i)
    run_some(S, g, "a")
    if g.random() < 0.3:
        run_some(S, g, "a", 2)


@family("C01", 24, 240)
def c01_bundle(S, g, k):
    closed_bundle(S, g, "B", kinds=["R", "R", "C", "LCpRs"])
    rest_state(S, g, "B")
    S.system("M", ["B"], ["BS", "BL"], how=k % 3)
    run_some(S, g, "M", dt=S.objs["M"].dt * g.choice([0.0, 0.0, 0.5, 0.75]))


@family("C01", 6, 40)
def c01_physical(S, g, k):
    """the size of real cables: L ~ 1e-7 H/m, C ~ 1e-10 F/m, cells of centimetres"""
    n = 1 + k % 3
    sc = lambda m, f: [[x * f for x in r] for r in m]
    l, c = sc(g.spd(n, False), 3e-7), sc(g.spd(n, True), 7e-11)
    pts = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.25], [0.1, 0.0, 0.4]]
    S.mtl("a", l, c, pts=pts, ndiv=[4, 3], r=sc(g.lossm(n), 10.0), g=sc(g.lossm(n), 1e-4),
          zs=[50.0 * x for x in g.ends(n)], zl=[50.0 * x for x in g.ends(n)])
    v, i = g.state(n, 7)
    S.state("a", v, [[x / 50 for x in r] for r in i])
    run_some(S, g, "a", 5)


# ------------------------------------------------------------------ C02 ends
@family("C02", 60, 500)
def c02_ends(S, g, k):
    n = 1 + k % 3
    kind = k % 6
    zs, zl = g.ends(n, 0.3), g.ends(n, 0.3)
    if kind == 1:
        zs, zl = g.num(0.0, 4.0), g.num(0.25, 4.0)        # one value for all conductors
    if kind == 2:
        zs = [0.0] * n
    if kind == 3:
        zl = [0.0] * n
    line(S, g, "a", n=n, ends=(zs, zl))
    u = S.objs["a"].u
    for c in range(n):
        for end in (0, -1):
            if g.random() < 0.6:
                S.source("a", u[end].tolist(), c, g.wave())
    if g.random() < 0.2:                                   # a generator replaces another one
        S.source("a", u[0].tolist(), 0, g.wave())
    if g.random() < 0.3:
        S.setdt("a", S.objs["a"].dt * g.num(0.3, 0.95) * 8, 8)
    if g.random() < 0.6:
        v, i = g.state(n, cells(S, "a"))
        S.state("a", v, i)
    run_some(S, g, "a")


# ----------------------------------------------------------------- C03 energy
EN = ["energy", "energy grows"]


def no_sources(br):
    for b in br:
        b["w"] = dict(Z)
    return br


@family("C03", 24, 240, EN)
def c03_line(S, g, k):
    n = line(S, g, "a", n=1 + k % 3)
    for c in range(n):
        if g.random() < 0.4:
            S.lumped("a", g.on_line(S.objs["a"].u), c, d=g.pos(), e=g.pos(0.0, 1.0))
    v, i = g.state(n, cells(S, "a"))
    S.state("a", v, i)
    run_some(S, g, "a", 4)


@family("C03", 24, 240, EN)
def c03_system(S, g, k):
    """bundles and junctions with resistive and reactive terminations"""
    m = 1 + k % 2
    geo = g.line(maxseg=2, maxdiv=2)
    nets, lv, nm = [], {}, {}
    names = []
    for b in range(m):
        B = "BD"[b]
        lv[B] = levels(g, 2, 2, 2) if m == 1 else [[g.randint(1, 2)]]
        nm[B] = bundle(S, g, B, lv[B], geo)
        names.append(B)
    for j, B in enumerate(names):
        for side in "SL":
            if m == 2 and ((j == 0 and side == "L") or (j == 1 and side == "S")):
                continue
            terminate(S, g, B + side, B, nm[B], lv[B], side, None, 0.0)
            nets.append(B + side)
    if m == 2:
        nodes = side_nodes(g, "B", nm["B"], lv["B"], 0, "L") + side_nodes(g, "D", nm["D"], lv["D"], 0, "S", start=11)
        S.net("J", [{"level": 0, "nodes": nodes, "br": no_sources(junction_branches(g, [x["id"] for x in nodes]))}])
        nets.append("J")
    for B in names:
        rest_state(S, g, B)
    g.shuffle(nets)
    S.system("M", names, nets)
    run_some(S, g, "M", 4)


def junction_branches(g, ids, ideal=0.5, src=0.4):
    """every node is joined to something"""
    br = []
    ids = list(ids)
    g.shuffle(ids)
    left = list(ids)
    for a in ids:
        k = g.random()
        others = [x for x in ids if x != a]
        if k < ideal and others:
            br.append(branch(g, a, "shortn", b=g.choice(others)))
        elif k < 0.85 and others:
            br.append(branch(g, a, "Rn", src, b=g.choice(others)))
        else:
            br.append(branch(g, a, g.choice(["R", "R", "C", "LCpRs"]), src))
    # a loop of two ideal connections between the same nodes says nothing new
    seen, out = set(), []
    for b in br:
        key = (b["k"], frozenset((b["a"], b["b"])))
        if b["k"] == "shortn" and key in seen:
            continue
        seen.add(key)
        out.append(b)
    return out


@family("C03", 10, 100, EN + ["energy kept"])
def c03_lossless(S, g, k):
    """nothing dissipates: short-circuited ends"""
    n = 1 + k % 3
    if k % 2:
        line(S, g, "a", n=n, losses=False, ends=([0.0] * n, [0.0] * n))
        v, i = g.state(n, cells(S, "a"), False)
        S.state("a", v, i)
        run_some(S, g, "a", 5)
    else:
        closed_bundle(S, g, "B", [[n]], losses=False, kinds=["short"])
        rest_state(S, g, "B")
        S.system("M", ["B"], ["BS", "BL"])
        run_some(S, g, "M", 5)


@family("C03", 6, 40)
def c03_long(S, g, k):
    """thousands of steps at the default time step: the energy at the end is not above that of the start"""
    n = 1 + k % 3
    line(S, g, "a", n=n, losses=bool(k % 2))
    v, i = g.state(n, cells(S, "a"))
    S.state("a", v, i)
    S.steps("a", 1, lab="L")
    S.run("a", (1500 + 0.5) * S.objs["a"].dt)
    S.steps("a", 1, lab="L")
    S.rel("bounded", "bound", ["L"], objs=["a"])


# ---------------------------------------------------------- C04 Courant limit
@family("C04", 60, 600, ["modes", "default dt"])
def c04(S, g, k):
    n = 1 + k % 5
    if k % 3 == 0:
        lev = levels(g, 3, 2, 3)
        geo = g.line()
        bundle(S, g, "B", lev, geo)
    else:
        l, c = g.lc(n)
        if n > 1 and k % 7 == 0:
            c = [[float(x) if a == b else 0.0 for b, x in enumerate(r)] for a, r in enumerate(c)]
        pts, nd, f = g.line(maxseg=4, maxdiv=3)
        S.mtl("a", l, c, pts=pts, ndiv=nd, form=f)


@family("C04", 12, 100, ["modes", "default dt"])
def c04_system(S, g, k):
    """the time step of a network is the smallest among its bundles"""
    bs, nets = [], []
    for b in range(g.randint(1, 3)):
        B = "BDE"[b]
        closed_bundle(S, g, B, levels(g, 2, 2, 2), kinds=["R"], src=0.3)
        bs.append(B)
        nets += [B + "S", B + "L"]
        if g.random() < 0.5:
            rest_state(S, g, B)
    S.system("M", bs, nets, how=k % 3)
    S.run("M", 2.5 * min(S.objs[b].dt for b in bs))
    S.watch("M")


@family("C04", 48, 400, ["modes", "default dt"])
def c04_close(S, g, k):
    """members, or cells, that differ a little; many of them"""
    far = g.choice([[2, 6, 9, 12, 16, 20], [10, 11, 12], [12, 16, 20]])
    near = lambda: 1 + g.choice([-1, 1]) * 2.0 ** -g.choice(far)
    m = g.randint(2, 5)
    x = g.pos()
    if k % 4 == 0:                                   # cells of one line
        ax = g.randrange(3)
        pts = [[0.0, 0.0, 0.0]]
        for _ in range(m):
            q = list(pts[-1])
            q[ax] += x * near()
            pts.append(q)
        S.mtl("a", g.pos(), g.pos(), pts=pts, ndiv=[1] * m)
    elif k % 4 == 1:                                 # modes of one line
        l = [[g.pos() if a == b and a < 0 else (x if a == b else 0.0) for a in range(m)] for b in range(m)]
        c = [[x * near() if a == b else 0.0 for a in range(m)] for b in range(m)]
        S.mtl("a", l, c, pts=g.line(maxseg=1, maxdiv=2)[0], ndiv=[2])
    elif k % 4 == 2:                                 # lines of a bundle
        geo = g.line(maxseg=1, maxdiv=2)
        for j in range(m):
            S.mtl("a%d" % j, x * near(), x * near(), pts=geo[0], ndiv=geo[1], form=geo[2])
        S.bundle("B", [["a0"], ["a%d" % j for j in range(1, m)]])
    else:                                            # bundles of a system
        for j in range(m):
            geo = g.line(maxseg=1, maxdiv=2)
            L = sum((a - b) ** 2 for a, b in zip(*geo[0])) ** 0.5 / geo[1][0]
            S.mtl("a%d" % j, x / L * near(), x / L, pts=geo[0], ndiv=geo[1], form=geo[2])
            S.bundle("B%d" % j, [["a%d" % j]])
            for side in "SL":
                S.net("N%d%s" % (j, side), [{"level": 0, "nodes": [{"id": 1, "line": "a%d" % j, "bundle": "B%d" % j, "side": side, "cond": 0, "kind": "R"}],
                                             "br": [branch(g, 1, "R")]}])
        S.system("M", ["B%d" % j for j in range(m)], ["N%d%s" % (j, s) for j in range(m) for s in "SL"], how=k % 3)
        S.run("M", 2.5 * S.objs["M"].dt)


# ------------------------------------------------------------- C05 causality
@family("C05", 20, 160)
def c05_magic(S, g, k):
    """uniform lossless line at the default time step: exact delay, absorption and reflection"""
    l, c = g.choice([(1.0, 1.0), (4.0, 1.0), (1.0, 0.25), (2.25, 4.0), (g.pos(), g.pos())])
    z = (l / c) ** 0.5
    d = g.point(1.0)
    while sum(x * x for x in d) < 0.2:
        d = g.point(1.0)
    o = g.point()
    zl = [z, 0.0, 1e9, g.pos(0.1, 5.0)][k % 4]
    zs = [z, g.pos(0.1, 5.0), 0.0][k % 3]
    if k % 5 == 0:
        S.mtl("a", l, c, pts=[[0., 0., 0.], [0., 0., 2.0]], ndiv=[6], zs=zs, zl=zl, form="z")
    else:
        S.mtl("a", l, c, pts=[o, [a + b for a, b in zip(o, d)]], ndiv=[g.randint(4, 8)], zs=zs, zl=zl)
    if k % 2:
        S.source("a", S.objs["a"].u[0].tolist(), 0, g.wave(1.0))
    else:
        v, i = g.state(1, cells(S, "a"))
        S.state("a", v, i)
    S.watch("a")
    S.run("a", (2 * cells(S, "a") + 0.5) * S.objs["a"].dt, lab="R")
    S.rel("ideal line", "magic", ["R"], o="a", tol=1e-8)


@family("C05", 16, 120)
def c05_magic_modes(S, g, k):
    """the same with several conductors in one homogeneous medium"""
    n = 2 + k % 3
    import numpy as np
    a = np.array([[g.uniform(-0.4, 0.4) for _ in range(n)] for _ in range(n)])
    l = a @ a.T + np.diag([g.pos(0.5, 2.0) for _ in range(n)])
    v2 = g.choice([1.0, 4.0, 0.25, g.pos()])
    c = np.linalg.inv(l) / v2
    c = (c + c.T) / 2
    geo = [g.point(), g.point()]
    while sum((x - y) ** 2 for x, y in zip(*geo)) < 0.2:
        geo = [g.point(), g.point()]
    z = [[g.pos(0.1, 4.0) if g.random() < 0.7 else 0.0 for _ in range(n)] for _ in "SL"]
    S.mtl("a", l.tolist(), c.tolist(), pts=geo, ndiv=[g.randint(3, 6)], zs=z[0], zl=z[1])
    v, i = g.state(n, cells(S, "a"))
    S.state("a", v, i)
    if k % 2:
        S.source("a", S.objs["a"].u[0].tolist(), n - 1, g.wave(1.0))
    S.watch("a")
    S.run("a", (2 * cells(S, "a") + 0.5) * S.objs["a"].dt, lab="R")
    S.rel("ideal line", "magic", ["R"], o="a", tol=1e-8)


@family("C05", 24, 200)
def c05_cone(S, g, k):
    """two identical lines but for one disturbance: equal outside its cone"""
    n = 1 + k % 3
    geo = g.line(maxseg=3, maxdiv=4)
    st = None
    N = sum(geo[1])
    seed = g.random()
    kind = k % 4
    v, i = g.state(n, N)
    t_on = None
    for nm in ("a", "b"):
        h = gen.G(str(seed))
        line(S, h, nm, n=n, geo=geo)
        u = S.objs[nm].u
        S.source(nm, u[0].tolist(), 0, h.wave())
        if h.random() < 0.5:
            S.lumped(nm, h.on_line(u), n - 1, d=h.pos(), e=h.pos(0.0, 1.0))
        v2, i2 = [list(r) for r in v], [list(r) for r in i]
        if nm == "b":
            if kind == 0:
                node = int(g.randrange(N + 1))
                v2[n - 1][node] += 1.0
                start, always, first = [{"o": "a", "q": "v", "k": node}], [], 0
            elif kind == 1:
                cell = int(g.randrange(N))
                i2[0][cell] += 1.0
                start, always, first = [{"o": "a", "q": "i", "k": cell}], [], 0
            elif kind == 2:
                dt = S.objs[nm].dt
                m = g.randint(0, 2)
                S.source(nm, u[-1].tolist(), n - 1, {"k": "step", "a": 1.0, "t0": (m - 0.5) * dt})
                start, always, first = [], [{"o": "a", "q": "v", "k": N}], m
            else:
                cell = int(g.randrange(N))
                S.res(nm, u[cell].tolist(), u[cell + 1].tolist(), 0, g.pos())
                start, always, first = [], [{"o": "a", "q": "i", "k": cell}], 0
        S.state(nm, v2, i2)
        S.watch(nm)
        S.run(nm, (min(N, 5) + 0.5) * S.objs["a"].dt, lab="R" + nm)
    S.rel("cone", "cone", ["Ra", "Rb"], start=start, always=always, first=first, sys="", pairs=[{"a": "a", "b": "b"}])


@family("C05", 12, 120)
def c05_cone_later(S, g, k):
    """the disturbance comes after a longer run"""
    n = 1 + k % 3
    geo = g.line(maxseg=3, maxdiv=4)
    N = sum(geo[1])
    seed, kind, m = g.random(), k % 4, g.choice([3, 12, 60, 250])
    node, cell, late = int(g.randrange(N + 1)), int(g.randrange(N)), g.randint(0, 2)
    for nm in ("a", "b"):
        h = gen.G(str(seed))
        line(S, h, nm, n=n, geo=geo)
        u, dt = S.objs[nm].u, S.objs[nm].dt
        S.source(nm, u[0].tolist(), 0, h.wave())
        if h.random() < 0.5:
            S.lumped(nm, h.on_line(u), n - 1, d=h.pos(), e=h.pos(0.0, 1.0))
        S.run(nm, (m + 0.5) * dt)
        v, i = S.objs[nm].v.tolist(), S.objs[nm].i.tolist()
        big = max(max(abs(x) for r in y for x in r) for y in (v, i)) or 1.0
        start, always, first = [], [], 0
        if kind == 0:
            v[n - 1][node] += big * (nm == "b")
            start = [{"o": "a", "q": "v", "k": node}]
        elif kind == 1:
            i[0][cell] += big * (nm == "b")
            start = [{"o": "a", "q": "i", "k": cell}]
        elif kind == 2:
            always, first = [{"o": "a", "q": "v", "k": N}], late
            if nm == "b":
                S.source(nm, u[-1].tolist(), n - 1, {"k": "step", "a": big, "t0": S.objs[nm].time + (late - 0.5) * dt})
        else:
            always = [{"o": "a", "q": "i", "k": cell}]
            if nm == "b":
                S.res(nm, u[cell].tolist(), u[cell + 1].tolist(), 0, g.pos())
        S.state(nm, v, i)
        S.watch(nm)
        S.run(nm, (min(N, 5) + 0.5) * dt, lab="R" + nm)
    S.rel("cone", "cone", ["Ra", "Rb"], start=start, always=always, first=first, sys="", pairs=[{"a": "a", "b": "b"}])


@family("C05", 12, 100)
def c05_cone_system(S, g, k):
    """the same through a junction"""
    seed = g.random()
    src = [dict(Z), {"k": "poly", "c": [1.0, 0.5]}]
    for w, sfx in ((0, ""), (1, "x")):
        h = gen.G(str(seed))
        geo1, geo2 = h.line(maxseg=2, maxdiv=3), h.line(maxseg=2, maxdiv=3)
        n1, n2 = h.randint(1, 2), h.randint(1, 2)
        A, B = "A" + sfx, "B" + sfx
        na = bundle(S, h, A, [[n1]], geo1, prefix="A")
        nb = bundle(S, h, B, [[n2]], geo2, prefix="B")
        for o in (A, B):
            rest_state(S, h, o)
        nodes = side_nodes(h, A, na, [[n1]], 0, "L") + side_nodes(h, B, nb, [[n2]], 0, "S", start=11)
        S.net("J" + sfx, [{"level": 0, "nodes": nodes, "br": junction_branches(h, [x["id"] for x in nodes], ideal=0.3)}])
        for o, nm, lv, side in ((A, na, [[n1]], "S"), (B, nb, [[n2]], "L")):
            nd = side_nodes(h, o, nm, lv, 0, side)
            br = [branch(h, x["id"], h.choice(["R", "C", "LCpRs"]), 0.0) for x in nd]
            if o == A and side == "S":
                br[0] = {"k": "R", "a": nd[0]["id"], "R": 1.5, "w": src[w]}
            S.net(o + side, [{"level": 0, "nodes": nd, "br": br}])
        S.system("M" + sfx, [A, B], ["J" + sfx, A + "S", B + "L"])
        S.watch("M" + sfx)
        S.run("M" + sfx, 5.5 * S.objs["M" + sfx].dt, lab="R" + sfx)
    S.rel("cone", "cone", ["R", "Rx"], start=[], always=[{"o": "A", "q": "v", "k": 0}], first=0, sys="M",
          pairs=[{"a": "A", "b": "Ax"}, {"a": "B", "b": "Bx"}])


# ------------------------------------------------------------- C06 linearity
def excite_line(S, g, nm, what, f):
    """put excitation `what` with factor f on line nm"""
    u = S.objs[nm].u
    n, N = S.objs[nm].v.shape[0], S.objs[nm].i.shape[1]
    def sc(w):
        return {"k": "scaled", "f": f, "w": w}
    if what == "gen0":
        S.source(nm, u[0].tolist(), 0, sc({"k": "pwl", "pts": [[0.11, 0.0], [0.7, 1.5], [1.9, -0.5]]}))
    elif what == "gen1":
        S.source(nm, u[-1].tolist(), n - 1, sc({"k": "poly", "c": [0.5, -1.0, 0.25]}))
    elif what == "field":
        S.field(nm, {"k": "poly", "x": [[f * 0.5, 0, 1, 0, 1], [f, 0, 0, 0, 0]], "y": [[f * 0.75, 1, 0, 0, 0]], "z": [[-f, 0, 1, 1, 0]]},
                [[[0.125, 0.0625 * (c + 1), 0.03125]] * (N + 1) for c in range(n)])
    elif what == "field2":
        S.field(nm, {"k": "poly", "x": [[f, 0, 0, 1, 0]], "y": [[-f, 0, 0, 0, 1]], "z": [[f * 0.5, 1, 0, 0, 1]]},
                [[[0.0, 0.125 * (c + 1), 0.0625]] * (N + 1) for c in range(n)])


@family("C06", 20, 200)
def c06_line(S, g, k):
    """response to a combination of excitations and initial states = combination of the responses"""
    n = 1 + k % 2
    geo = g.line(maxseg=2, maxdiv=2)
    N = sum(geo[1])
    seed = g.random()
    kinds = ["gen0", "gen1", "field", "field2", "state"]
    what = [g.choice(kinds), g.choice(kinds)]
    if what[0] == what[1] and what[0].startswith("gen"):
        what[1] = "state"
    f = [g.num(-2, 2, 8) or 1.5, g.num(-2, 2, 8) or -0.5]
    sts = [g.state(n, N), g.state(n, N)]
    lump = g.random() < 0.6
    p, q = g.poles(0.2, 1, 0)
    combos = [("a", [1.0, 0.0]), ("b", [0.0, 1.0]), ("c", f)]
    for nm, fs in combos:
        h = gen.G(str(seed))
        line(S, h, nm, n=n, geo=geo)
        if lump:
            S.lumped(nm, S.objs[nm].u[1].tolist(), 0, d=0.5, e=0.25, p=p, q=q)
        v = [[0.0] * (N + 1) for _ in range(n)]
        i = [[0.0] * N for _ in range(n)]
        for wht, fac, st in zip(what, fs, sts):
            if wht == "state":
                v = [[x + fac * y for x, y in zip(r, s)] for r, s in zip(v, st[0])]
                i = [[x + fac * y for x, y in zip(r, s)] for r, s in zip(i, st[1])]
            elif fac != 0.0:
                excite_line(S, g, nm, wht, fac)
        S.state(nm, v, i)
        S.watch(nm)
        S.run(nm, 4.5 * S.objs["a"].dt, lab="R" + nm)
    rows = lambda nm: [(nm, r) for r in range(n)]
    S.lin("superposition", [("Rc", 1.0, rows("c")), ("Ra", -f[0], rows("a")), ("Rb", -f[1], rows("b"))], 1e-8)


@family("C06", 16, 160)
def c06_system(S, g, k):
    seed = g.random()
    f = [g.num(-2, 2, 8) or 1.5, g.num(-2, 2, 8) or -0.5]
    lev = levels(g, 2, 2, 2)
    geo = g.line(maxseg=2, maxdiv=2)
    n = sum(map(sum, lev))
    N = sum(geo[1])
    what = [g.choice(["src", "src", "dist", "field"]), g.choice(["state", "dist", "dist2", "field"])]
    W = [{"k": "pwl", "pts": [[0.11, 0.0], [0.7, 1.5], [1.9, -0.5]]}, {"k": "poly", "c": [0.5, -1.0, 0.25]}]
    st = g.state(n, N, False)
    for nm, fs in (("A", [1.0, 0.0]), ("B", [0.0, 1.0]), ("C", f)):
        h = gen.G(str(seed))
        names = bundle(S, h, nm, lev, geo)
        u = S.objs[nm].u
        mid = [(a + b) / 2 for a, b in zip(u[0].tolist(), u[1].tolist())]
        for side in "SL":
            parts = []
            for lv in range(len(lev)):
                nodes = side_nodes(h, nm, names, lev, lv, side)
                br = [branch(h, x["id"], h.choice(["R", "C", "LCpRs"]), 0.0) for x in nodes]
                if what[0] == "src" and side == "S":
                    for b in br:
                        b["w"] = {"k": "scaled", "f": fs[0], "w": W[0]}
                parts.append({"level": lv, "nodes": nodes, "br": br})
            S.net(nm + side, parts)
        if len(lev) > 1:
            p, q = h.poles(0.2, 1, 1)
            S.zt(nm, 0, [0], 1, [0], "both", d=0.25, e=0.125, p=p, q=q, f=2.0)
        for wht, fac in zip(what, fs):
            if fac == 0.0:
                continue
            if wht == "dist":
                S.dist(nm, u[0].tolist(), u[2].tolist(), 0, {"k": "scaled", "f": fac, "w": W[1]})
            elif wht == "dist2":
                S.dist(nm, mid, u[-1].tolist(), n - 1, {"k": "scaled", "f": fac, "w": W[0]})
            elif wht == "field":
                excite_line_bundle(S, nm, lev[0][0], N, fac)
            elif wht == "state":
                S.state(nm, [[fac * x for x in r] for r in st[0]], [[fac * x for x in r] for r in st[1]])
        S.system("M" + nm, [nm], [nm + "S", nm + "L"])
        S.watch("M" + nm)
        S.run("M" + nm, 4.5 * S.objs[nm].dt, lab="R" + nm)
    rows = lambda nm: [(nm, r) for r in range(n)]
    S.lin("superposition", [("RC", 1.0, rows("C")), ("RA", -f[0], rows("A")), ("RB", -f[1], rows("B"))], 1e-8)


def excite_line_bundle(S, nm, n0, N, f):
    S.field(nm, {"k": "poly", "x": [[f * 0.5, 0, 1, 0, 1], [f, 0, 0, 0, 0]], "y": [[f * 0.75, 1, 0, 0, 0]], "z": [[-f, 0, 1, 1, 0]]},
            [[[0.125, 0.0625 * (c + 1), 0.03125]] * (N + 1) for c in range(n0)])


@family("C06", 6, 40)
def c06_zero(S, g, k):
    if k % 2:
        n = line(S, g, "a", n=1 + k % 3)
        S.lumped("a", S.objs["a"].u[0].tolist(), 0, 0.5, 0.5, *g.poles(0.3))
        S.source("a", S.objs["a"].u[0].tolist(), 0, {"k": "step", "a": 1.0, "t0": 1e3})
        S.watch("a")
        S.run("a", 6.5 * S.objs["a"].dt, lab="R")
    else:
        closed_bundle(S, g, "B", src=0.0)
        S.system("M", ["B"], ["BS", "BL"])
        S.watch("M")
        S.run("M", 6.5 * S.objs["M"].dt, lab="R")
    S.rel("nothing from nothing", "zero", ["R"])


import families2  # noqa: E402,F401
import families3  # noqa: E402,F401
import families4  # noqa: E402,F401
import families5  # noqa: E402,F401
import families6  # noqa: E402,F401
import families7  # noqa: E402,F401
import families8  # noqa: E402,F401
