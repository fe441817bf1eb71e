"""Scenario families of C07-C19, C22, C24 and C25 (see families.py)."""
import math
import gen
from gen import Z, line, bundle, closed_bundle, terminate, rest_state, run_some, cells, branch, side_nodes, levels
from rec import ALL
from families import family, junction_branches, excite_line, excite_line_bundle, no_sources

PROBES = ["probe frames", "probe times", "probe values"]


def off_ties(g, u, p, r):
    """p moved by at most r, while the nearest node stays clear"""
    for _ in range(50):
        q = [a + g.num(-r, r) for a in p]
        d = sorted(sum((a - b) ** 2 for a, b in zip(q, n)) ** 0.5 for n in u)
        if d[1] - d[0] > 0.02 * (d[1] + 1e-9):
            return q
    return p


def mid(u, k, s=0.5):
    return [float(a + s * (b - a)) for a, b in zip(u[k], u[k + 1])]


# ------------------------------------------------------------ C07 geometry
@family("C07", 60, 600, ["nodes"])
def c07_nodes(S, g, k):
    geo = g.line(maxseg=6, maxdiv=5, straight=(k % 8 == 0) or None)
    if k % 4 == 1:                                   # many segments, divisions all different
        nd = list(range(1, 6))
        g.shuffle(nd)
        pts = [g.point()]
        for _ in nd:
            pts.append([a + b for a, b in zip(pts[-1], [g.num(0.125, 1, 8), g.num(-1, 1, 8), g.num(-1, 1, 8)])])
        geo = (pts, nd, "")
    if k % 5 == 0:
        lev = levels(g, 2, 2, 2)
        bundle(S, g, "B", lev, geo)
    else:
        line(S, g, "a", geo=geo)


@family("C07", 30, 300, PROBES)
def c07_positions(S, g, k):
    """whatever is attached to a position acts at the nearest node"""
    straight = k % 3 == 0
    geo = g.line(maxseg=3, maxdiv=3, straight=straight or None)
    n = line(S, g, "a", n=1 + k % 2, geo=geo)
    u = S.objs["a"].u.tolist()
    num = straight
    for j in range(g.randint(1, 3)):
        c = g.randrange(n)
        p = g.on_line(u)
        q = g.on_line(u)
        if g.random() < 0.4 and not straight:
            p, q = off_ties(g, u, p, 0.1), off_ties(g, u, q, 0.1)
        kind = g.randrange(3)
        near = lambda x: min(range(len(u)), key=lambda m: sum((a - b) ** 2 for a, b in zip(u[m], x)))
        if near(p) > near(q):
            p, q = q, p
        if kind == 0:
            S.res("a", p, q, c, g.pos(), number=num and g.random() < 0.5)
        elif kind == 1:
            S.cond("a", p, q, c, g.pos(), number=num and g.random() < 0.5)
        else:
            end = u[0] if g.random() < 0.5 else u[-1]
            S.source("a", off_ties(g, u, end, 0.05) if not straight else end, c, g.wave(), number=num and g.random() < 0.5)
    for j in range(3):
        S.probe("a", "p%d" % j, g.on_line(u), g.choice(["voltage", "current"]), number=num and g.random() < 0.5)
    v, i = g.state(n, cells(S, "a"))
    S.state("a", v, i)
    run_some(S, g, "a", multi=True)


def norms_differ(g, u, a, b):
    """a point whose nearest node is a, though another distance than the Euclidean one prefers another"""
    import numpy as np
    u = np.array(u)
    span = float(np.max(np.abs(u - u[0]))) or 1.0
    for _ in range(400):
        p = u[g.randrange(a, b + 1)] + np.array([g.num(-1, 1, 32) for _ in range(3)]) * span * g.choice([0.1, 0.3, 0.6])
        d = [np.sort(np.linalg.norm(u - p, q, axis=1)) for q in (2, 1, np.inf)]
        k = [int(np.argmin(np.linalg.norm(u - p, q, axis=1))) for q in (2, 1, np.inf)]
        if a <= k[0] <= b and k[0] != k[1 + g.randrange(2)] and d[0][1] - d[0][0] > 0.02 * d[0][1]:
            return [float(x) for x in p], k[0]
    return None


@family("C07", 30, 300, PROBES)
def c07_metric(S, g, k):
    """the nearest node is the one at the smallest Euclidean distance, however a position is written"""
    if k % 3 == 0:                                   # along z, starting anywhere; positions as plain numbers
        a, L = g.choice([-2.0, -1.0, 1.0, 2.5]), g.choice([1.0, 2.0, 3.0, 4.0])
        x, y = (0.0, 0.0) if g.random() < 0.7 else (0.5, -0.25)
        geo = ([[x, y, a], [x, y, a + L]], [g.choice([2, 3, 4, 5, 6])], "")
    else:
        geo = g.line(maxseg=4, maxdiv=2, straight=False)
        x = 1.0
    bun = k % 2 == 1
    if bun:
        names, lev, parts = closed_bundle(S, g, "B", levels(g, 2, 1, 2), geo, kinds=["R"])
        o = "B"
        n = S.objs["B"].v.shape[0]
    else:
        o = "a"
        n = line(S, g, "a", n=1 + k % 2, geo=geo)
    u = S.objs[o].u.tolist()
    N = len(u) - 1

    def place(lo=0, hi=N):
        if k % 3 == 0:
            m = g.randint(lo, hi)
            h = u[1][2] - u[0][2]
            z = u[m][2] + h * g.choice([0.0, 0.0, g.num(-0.4, 0.4)])
            return [0.0, 0.0, z], m
        return norms_differ(g, u, lo, hi) or (list(u[lo]), lo)

    for j in range(g.randint(2, 4)):
        c = g.randrange(n)
        kind = g.randrange(2 if bun else 4)
        (p, mp), (q, mq) = place(), place()
        if mp > mq:
            p, q = q, p
        if kind == 0:
            S.res(o, p, q, c, g.pos(), number=True)
        elif kind == 1:
            S.cond(o, p, q, c, g.pos(), number=True)
        else:
            # a source acts at the ends only: near one of them, or near another node and without effect
            m = g.choice([0, N]) if kind == 2 else g.randint(0, N)
            S.source(o, place(m, m)[0], c, g.wave(), number=True)
    for j in range(2):
        pos = g.on_line(u)
        S.probe(o, "p%d" % j, pos, g.choice(["voltage", "current"]), number=True)
    run = o
    if bun:
        S.system("Y", ["B"], parts)
        rest_state(S, g, "B")
        run = "Y"
    else:
        v, i = g.state(n, cells(S, "a"))
        S.state("a", v, i)
    run_some(S, g, run, multi=True)


# ------------------------------------------------------------- C08 probes
def probe_twin(S, g, k, make, names):
    """make(prefix) builds the object to run; `names` its parts.  The first is observed in runs of
    one step, the second by probes in runs of several steps."""
    o1, parts1 = make("")
    o2, parts2 = make("x")
    mp = dict(zip(parts2, parts1))
    m = 0
    runs = g.randint(1, 3)
    for r in range(runs):
        for _ in range(g.randint(1, 3)):
            b = g.choice(parts2)
            u = S.objs[b].u.tolist()
            pos = g.on_line(u)
            if g.random() < 0.3:
                pos = g.choice([u[0], u[-1], u[len(u) // 2]])
            S.probe(b, "p%d" % m, pos, g.choice(["voltage", "current"]), number=(pos[0] == 0 and pos[1] == 0 and g.random() < 0.5))
            m += 1
            if g.random() < 0.5:
                off_line_probe(S, g, b, u)
        dt = g.choice([0.0, 0.0, 0.6]) * S.objs[o1].dt if len(parts1) > 1 or o1 != parts1[0] else 0.0
        h = dt or S.objs[o1].dt
        n = g.randint(1, 4)
        lab = "one%d" % r
        S.steps(o1, n, dt, lab=lab)
        S.run(o2, (n + g.num(0.2, 0.8)) * h, dt, like=lab, map=mp)


def off_line_probe(S, g, b, u):
    import numpy as np
    u = np.array(u)
    k = g.randrange(3)
    if k == 0:
        p = u[0] - (u[1] - u[0]) * g.choice([0.01, 0.3, 2.0])
    elif k == 1:
        p = u[-1] + (u[-1] - u[-2]) * g.choice([0.01, 0.3, 2.0])
    else:
        j = g.randrange(len(u) - 1)
        d = (u[j + 1] - u[j])
        w = np.cross(d, [0.3, -0.7, 0.55])
        p = u[j] + 0.4 * d + w / np.linalg.norm(w) * g.choice([0.01, 0.1])
    if min_dist(u, p) < 1e-3:
        return
    S.probe(b, "off", [float(x) for x in p], g.choice(["voltage", "current"]), valid=False)


def min_dist(u, p):
    import numpy as np
    out = 1e9
    for a, b in zip(u[:-1], u[1:]):
        t = min(1.0, max(0.0, float(np.dot(p - a, b - a) / np.dot(b - a, b - a))))
        out = min(out, float(np.linalg.norm(a + t * (b - a) - p)))
    return out


@family("C08", 40, 300, PROBES + ["final like"])
def c08_line(S, g, k):
    seed = g.random()
    geo = g.line(maxseg=3, maxdiv=3)
    n = 1 + k % 3
    st = g.state(n, sum(geo[1]))

    def make(x):
        h = gen.G(str(seed))
        nm = "a" + x
        line(S, h, nm, n=n, geo=geo)
        S.source(nm, S.objs[nm].u[0].tolist(), 0, h.wave())
        S.state(nm, *st)
        return nm, [nm]
    probe_twin(S, g, k, make, ["a"])


@family("C08", 16, 140, PROBES + ["final like"])
def c08_system(S, g, k):
    seed = g.random()

    def make(x):
        h = gen.G(str(seed))
        bs, nets = [], []
        for b in range(1 + k % 2):
            B = "BD"[b] + x
            closed_bundle(S, h, B, levels(h, 2, 2, 2), geo=h.line(maxseg=2, maxdiv=2), kinds=["R", "LCpRs", "short"], prefix="BD"[b])
            rest_state(S, h, B)
            bs.append(B)
            nets += [B + "S", B + "L"]
        S.system("M" + x, bs, nets, how=k % 3)
        return "M" + x, bs
    probe_twin(S, g, k, make, None)


@family("C08", 24, 200)
def c08_positions(S, g, k):
    """every point of a line is accepted, none beyond it"""
    geo = g.line(maxseg=4, maxdiv=3, straight=(k % 6 == 0) or None)
    big = g.choice([1.0, 1.0, 1e-6, 0.001, 30.0, 1e6])
    if k % 2:                                        # coordinates that binary fractions do not hold
        geo = ([[x + y / 3 for x, y in zip(p, (j * 0.01, j * 0.007, j * 0.003))] for j, p in enumerate(geo[0])], geo[1], "")
    pts = [[x * big for x in p] for p in geo[0]]
    if k % 3 == 2:
        bundle(S, g, "a", [[1], [1]], (pts, geo[1], ""))
    else:
        S.mtl("a", 1.0, 1.0, pts=pts, ndiv=geo[1])
    u = S.objs["a"].u.tolist()
    import numpy as np
    for j in range(8):
        c = g.randrange(len(u) - 1)
        S.probe("a", "p%d" % j, mid(u, c, g.choice([0.0, 1.0, g.num(0, 1), g.random()])), g.choice(["voltage", "current"]))
    uu = np.array(u)
    for j in range(10):                              # the same nodes, rounded in another way
        c = g.randrange(len(geo[1]))
        a, b, t = np.array(pts[c]), np.array(pts[c + 1]), g.randint(0, geo[1][c]) / geo[1][c]
        q = [a + t * (b - a), (1 - t) * a + t * b, b + (1 - t) * (a - b)][j % 3]
        S.probe("a", "r%d" % j, [float(x) for x in q], g.choice(["voltage", "current"]))
    for j in range(6):
        c = g.randrange(len(u) - 1)
        d = uu[c + 1] - uu[c]
        w = np.cross(d, [0.3, -0.7, 0.55])
        w = w / np.linalg.norm(w) * np.linalg.norm(d)
        L = np.linalg.norm(d)
        p = uu[c] + g.num(0, 1) * d + w * g.choice([0.05, 0.5, 1.0, -0.3])
        if j == 0:
            p = uu[0] - d * 0 - (uu[1] - uu[0]) * 0.1
        if j == 1:
            p = uu[-1] + (uu[-1] - uu[-2]) * 0.1
        if min_dist(uu, p) > 1e-2 * L:
            S.probe("a", "off", [float(x) for x in p], "voltage", valid=False)


# ---------------------------------------------------------------- C09 runs
def loaded_line(S, g, nm, n, geo, st=None, poles=True):
    line(S, g, nm, n=n, geo=geo)
    u = S.objs[nm].u.tolist()
    S.source(nm, u[0], 0, g.wave())
    S.source(nm, u[-1], n - 1, g.wave())
    if poles:
        c = g.randrange(len(u) - 1)
        p, q = g.poles(S.objs[nm].dt)
        S.lumped(nm, mid(u, c, 0.1), g.randrange(n), g.pos(), g.pos(), p, q)
    if st:
        S.state(nm, *st)


@family("C09", 30, 240)
def c09_line(S, g, k):
    geo = g.line(maxseg=2, maxdiv=3)
    n = 1 + k % 3
    loaded_line(S, g, "a", n, geo, g.state(n, sum(geo[1])))
    for r in range(g.randint(2, 3)):
        if r > 0 or g.random() < 0.5:
            S.setdt("a", S.objs["a"].dt * g.num(0.4, 0.95) * g.choice([3, 8]), g.choice([3, 8]))
        if g.random() < 0.4:
            S.res("a", S.objs["a"].u[0].tolist(), S.objs["a"].u[-1].tolist(), g.randrange(n), g.pos())
        if g.random() < 0.4:
            S.cond("a", S.objs["a"].u[0].tolist(), S.objs["a"].u[1].tolist(), g.randrange(n), g.pos())
        h = S.objs["a"].dt
        k2 = g.randrange(4)
        if k2 == 0:
            S.run("a", g.num(0.1, 0.9) * h)              # not a single step fits
        elif k2 == 1:
            if "a" not in S.watched:
                S.watch("a")
            S.run("a", g.randint(3, 12) * h + g.num(0.1, 0.9) * h)
        else:
            run_some(S, g, "a")
    run_some(S, g, "a", 2, multi=False)


@family("C09", 24, 200)
def c09_split(S, g, k):
    """one long run = consecutive runs"""
    seed = g.random()
    n1, n2, n3 = g.randint(1, 4), g.randint(1, 4), g.randint(0, 2)
    f = [g.num(0.1, 0.9) for _ in range(4)]
    tot = n1 + n2 + n3

    def make(x):
        h = gen.G(str(seed))
        if k % 3:
            geo = h.line(maxseg=2, maxdiv=3)
            n = 1 + k % 2
            loaded_line(S, h, "a" + x, n, geo, h.state(n, sum(geo[1])))
            return "a" + x, n
        lev = levels(h, 2, 2, 2)
        closed_bundle(S, h, "B" + x, lev, geo=h.line(maxseg=2, maxdiv=2), prefix="B")
        rest_state(S, h, "B" + x)
        if len(lev) > 1:
            S.zt("B" + x, 0, [0], 1, [0], "both", h.pos(), h.pos(), *h.poles(0.3))
        S.system("M" + x, ["B" + x], ["B" + x + "S", "B" + x + "L"])
        return "M" + x, sum(map(sum, lev))
    o1, n = make("")
    o2, n = make("x")
    S.watch(o1)
    S.watch(o2)
    dt = S.objs[o1].dt
    for m, x in zip((n1, n2, n3), f):
        if m:
            S.run(o1, (m + x) * dt, lab="split")
    S.run(o2, (tot + f[3]) * dt, lab="long")
    pa, pb = S.parts(o1)[0], S.parts(o2)[0]
    S.lin("split run", [("split", 1.0, [(pa, r) for r in range(n)]), ("long", -1.0, [(pb, r) for r in range(n)])], 1e-10)


@family("C09", 24, 200)
def c09_system(S, g, k):
    """bundles with different steps: every part of a run uses the same one"""
    bs, nets = [], []
    m = g.randint(1, 3)
    for b in range(m):
        B = "BDE"[b]
        lev = levels(g, 2, 2, 2)
        geo = g.line(maxseg=2, maxdiv=2)
        names = bundle_with_dt(S, g, B, lev, geo)
        for side in "SL":
            terminate(S, g, B + side, B, names, lev, side, ["R", "R", "LCpRs"] if k % 2 else ["R", "LCpRs", "C"])
        rest_state(S, g, B)
        if len(lev) > 1:
            S.zt(B, 0, [0], 1, [0], g.choice(["in", "out", "both"]), g.pos(), g.pos(), *g.poles(0.3))
        u = S.objs[B].u.tolist()
        S.dist(B, u[0], u[1], 0, g.wave())
        bs.append(B)
        nets += [B + "S", B + "L"]
    S.system("M", bs, nets, how=k % 3)
    lim = min(S.objs[b].dt for b in bs)
    if k % 2:                                            # time step changes between runs
        for f in (0.0, 0.8, 0.0, 0.5):
            S.steps("M", g.randint(1, 2), f * lim)
    else:
        f = g.choice([0.0, 0.7, 0.9])
        if g.random() < 0.5:
            S.watch("M")
            S.run("M", (3 + g.num(0.1, 0.9)) * (f * lim or lim), f * lim)
        else:
            S.steps("M", 3, f * lim)


def bundle_with_dt(S, g, name, lev, geo):
    names = [["%s_%d%s" % (name, a, "pqrs"[b]) for b in range(len(x))] for a, x in enumerate(lev)]
    for x, ns in zip(lev, names):
        for n, nm in zip(x, ns):
            line(S, g, nm, n, geo, scalar=False)
            if g.random() < 0.5:
                S.setdt(nm, S.objs[nm].dt * g.num(0.4, 0.95) * 8, 8)
            if g.random() < 0.5:
                u = S.objs[nm].u.tolist()
                S.lumped(nm, mid(u, g.randrange(len(u) - 1), 0.1), g.randrange(n), g.pos(), g.pos(), *g.poles(0.3))
    S.bundle(name, names)
    return names


# -------------------------------------------------------------- C10 copies
def lumped_cells(S, nm):
    """(cell, conductor) of the elements of a line, those it had when it was copied included"""
    out = {}
    for f in S.frames:
        if f["op"] == "copy":
            out[f["o"]] = set(out.get(f["a"]["of"], ()))
        elif f["op"] == "lumped" and not f["exc"]:
            u = S.objs[f["o"]].u
            k = min(((u - f["a"]["pos"]) ** 2).sum(axis=1).argmin(), len(u) - 2)
            out.setdefault(f["o"], set()).add((int(k), f["a"]["cond"]))
    return out.get(nm, set())


def change(S, g, nm, n):
    u = S.objs[nm].u.tolist()
    k = g.randrange(8)
    if k >= 6:
        free = sorted({(c, q) for c in range(len(u) - 1) for q in range(n)} - lumped_cells(S, nm))
        if free:
            c, q = g.choice(free)
            S.lumped(nm, mid(u, c, 0.1), q, g.pos(), g.pos(), *g.poles(S.objs[nm].dt, g.randint(0, 3)))
        return
    if k == 0:
        S.res(nm, u[0], u[1], g.randrange(n), g.pos())
    elif k == 1:
        S.cond(nm, u[1], u[2], g.randrange(n), g.pos())
    elif k == 2:
        S.source(nm, g.choice([u[0], u[-1]]), g.randrange(n), g.wave())
    elif k == 3:
        S.state(nm, *g.state(n, len(u) - 1))
    elif k == 4:
        S.setdt(nm, S.objs[nm].dt * 0.75 * 8, 8)
    else:
        S.field(nm, {"k": "poly", "x": [[1.0, 0, 1, 0, 1]], "y": [[0.75, 1, 0, 0, 0]], "z": [[-1.0, 0, 1, 1, 0]]},
                [[[0.125, 0.0625 * (c + 1), 0.03125]] * len(u) for c in range(n)])


@family("C10", 40, 300, PROBES)
def c10(S, g, k):
    geo = g.line(maxseg=2, maxdiv=3)
    n = 1 + k % 3
    loaded_line(S, g, "a", n, geo, g.state(n, sum(geo[1])), poles=k % 4 != 3)
    u = S.objs["a"].u.tolist()
    if g.random() < 0.6:
        S.probe("a", "p", g.on_line(u), g.choice(["voltage", "current"]))
    if g.random() < 0.6:
        run_some(S, g, "a", 2)
    alive = ["a"]
    for r in range(g.randint(2, 4)):
        of = g.choice(alive)
        if len(alive) < 4 and (r == 0 or g.random() < 0.5):
            nm = "abcdefgh"[len(alive)]
            S.copy(nm, of)
            alive.append(nm)
            rec = [[p.t.tolist(), p.val.tolist()] for _, p in S.declared.get(of, [])]
            run_some(S, g, nm, 2, multi=False)
            S.same("record of the original", rec, [[p.t.tolist(), p.val.tolist()] for _, p in S.declared.get(of, [])])
        else:
            change(S, g, of, n)
        for nm in g.sample(alive, len(alive)):
            if g.random() < 0.7:
                run_some(S, g, nm, g.randint(1, 2), multi=False)


@family("C10", 12, 120, PROBES)
def c10_both(S, g, k):
    """after copying, the same is done to original and copy with other values; then their steps change"""
    geo = g.line(maxseg=2, maxdiv=3)
    n = 1 + k % 3
    loaded_line(S, g, "a", n, geo, g.state(n, sum(geo[1])), poles=k % 2 == 0)
    if k % 3:
        run_some(S, g, "a", 2)
    S.copy("b", "a")
    both = g.sample(["a", "b"], 2)
    u = S.objs["a"].u.tolist()
    free = sorted({(c, q) for c in range(len(u) - 1) for q in range(n)} - lumped_cells(S, "a"))
    for c, q in g.sample(free, min(2, len(free))):
        for nm in both:
            if g.random() < 0.9:
                S.lumped(nm, mid(u, c, 0.1), q, g.pos(), g.pos(), *g.poles(S.objs[nm].dt, g.randint(1, 3)))
    q, e = g.randrange(n), g.choice([u[0], u[-1]])
    for nm in both:
        S.res(nm, u[0], u[1], q, g.pos())
        S.cond(nm, u[0], u[1], q, g.pos())
        S.source(nm, e, q, g.wave())
        S.probe(nm, "p" + nm, g.on_line(u), "current")
    S.state("b", *g.state(n, len(u) - 1))
    for nm in both[::-1] if g.random() < 0.5 else both:
        if g.random() < 0.8:
            S.setdt(nm, S.objs[nm].dt * g.choice([0.5, 0.75]) * 8, 8)
        run_some(S, g, nm, 2, multi=False)
    run_some(S, g, "a", 1, multi=False)


@family("C10", 20, 150)
def c10_new(S, g, k):
    """copy of a line that has been run = the same line newly built"""
    seed = g.random()
    n = 1 + k % 3
    for nm in ("a", "b"):
        h = gen.G(str(seed))
        geo = h.line(maxseg=2, maxdiv=3)
        loaded_line(S, h, nm, n, geo)
    S.state("a", *g.state(n, cells(S, "a")))
    S.run("a", g.randint(2, 9) * 1.01 * S.objs["a"].dt)
    S.copy("c", "a")
    for nm in ("b", "c"):
        S.watch(nm)
        S.run(nm, 4.5 * S.objs["b"].dt, lab="R" + nm)
    S.lin("as new", [("Rb", 1.0, [("b", r) for r in range(n)]), ("Rc", -1.0, [("c", r) for r in range(n)])], 1e-12)


# -------------------------------------------------------- C11 terminations
def multi_branches(g, nodes, src=0.5, one_reactive=True):
    """one to three branches at each node"""
    br = []
    for nd in nodes:
        kinds = g.choice([["R"], ["C"], ["LCpRs"], ["short"], ["R", "R"], ["R", "C"], ["LCpRs", "R"], ["LCpRs", "C"],
                          ["C", "C"], ["R", "R", "LCpRs"], ["short", "R"]])
        for kd in kinds:
            br.append(branch(g, nd["id"], kd, src))
    return br


@family("C11", 48, 400)
def c11(S, g, k):
    lev = levels(g, 2, 2, 3)
    names = bundle(S, g, "B", lev, g.line(maxseg=2, maxdiv=2))
    for side in "SL":
        parts = []
        for lv in range(len(lev)):
            nodes = side_nodes(g, "B", names, lev, lv, side, start=g.choice([0, 1, 5]))
            br = multi_branches(g, nodes)
            g.shuffle(br)
            blocks = {}
            for nd in nodes:
                blocks.setdefault(nd["line"], []).append(nd)
            ks = list(blocks)
            g.shuffle(ks)
            for x in ks:
                g.shuffle(blocks[x])
            parts.append({"level": lv, "nodes": [nd for x in ks for nd in blocks[x]], "br": br})
        g.shuffle(parts)
        S.net("B" + side, parts, style=g.randint(0, 3))
    rest_state(S, g, "B")
    S.system("M", ["B"], g.choice([["BS", "BL"], ["BL", "BS"]]), how=k % 3)
    run_some(S, g, "M")
    if g.random() < 0.4:
        run_some(S, g, "M", 2, multi=False)


@family("C11", 20, 160)
def c11_order(S, g, k):
    """the order of declaration does not matter"""
    seed, geo, lev = g.random(), g.line(maxseg=2, maxdiv=2), levels(g, 2, 2, 2)
    ideal = False
    for x in ("", "x"):
        h = gen.G(str(seed))
        o = gen.G(str(seed) + x)
        B = "B" + x
        names = bundle(S, h, B, lev, geo, prefix="B" + x)
        for side in "SL":
            parts = []
            for lv in range(len(lev)):
                nodes = side_nodes(h, B, names, lev, lv, side)
                br = multi_branches(h, nodes)
                ideal = ideal or any(b["k"] == "short" for b in br)
                o.shuffle(br)
                blocks = {}
                for nd in nodes:
                    blocks.setdefault(nd["line"], []).append(nd)
                ks = list(blocks)
                o.shuffle(ks)
                for y in ks:
                    o.shuffle(blocks[y])
                parts.append({"level": lv, "nodes": [nd for y in ks for nd in blocks[y]], "br": br})
            o.shuffle(parts)
            S.net(B + side, parts, style=o.randint(0, 3))
        rest_state(S, h, B)
        S.system("M" + x, [B], o.sample([B + "S", B + "L"], 2), how=o.randrange(3))
        S.watch("M" + x)
        S.run("M" + x, 4.5 * S.objs["M" + x].dt, lab="R" + x)
    n = sum(map(sum, lev))
    S.lin("order of declaration", [("R", 1.0, [("B", r) for r in range(n)]), ("Rx", -1.0, [("Bx", r) for r in range(n)])], 1e-4 if ideal else 1e-7)


@family("C11", 6, 40)
def c11_physical(S, g, k):
    """ohms, microhenries, picofarads"""
    sc = lambda m, f: [[x * f for x in r] for r in m]
    n = 1 + k % 2
    S.mtl("B_0p", sc(g.spd(n, False), 3e-7), sc(g.spd(n, True), 7e-11), pts=[[0, 0, 0], [0, 0, 0.2], [0.1, 0, 0.3]], ndiv=[3, 2])
    S.bundle("B", [["B_0p"]])
    for side in "SL":
        nodes = side_nodes(g, "B", [["B_0p"]], [[n]], 0, side)
        br = [{"k": g.choice(["R", "C", "LCpRs", "short"]), "a": nd["id"], "R": g.choice([0.001, 1.0, 50.0, 1e4, 1e8]),
               "L": g.choice([1e-9, 1e-6]), "C": g.choice([1e-13, 1e-11, 1e-9]), "w": dict(Z)} for nd in nodes]
        for b in br:
            if b["k"] != "short" and g.random() < 0.5:
                b["w"] = {"k": "pwl", "pts": [[1.03e-10, 0.0], [1.17e-9, 1.0], [3.03e-9, -0.5]]}
        S.net("B" + side, [{"level": 0, "nodes": nodes, "br": br}])
    v, i = g.state(n, 5, False)
    S.state("B", v, [[x / 50 for x in r] for r in i])
    S.system("M", ["B"], ["BS", "BL"])
    run_some(S, g, "M", 4)


# ------------------------------------------------------------ C12 junctions
def star(S, g, x="", m=None, order=None, rev=None, ideal=0.5, src=0.4, nlev=1):
    """m bundles meeting at a junction, far ends terminated.  rev: set of bundles described from their other end."""
    o = order or g
    m = m or g.randint(2, 4)
    rev = rev or set()
    bs, nets, jn, sizes, ends = [], [], [], [], []
    for b in range(m):
        B = "BDEF"[b] + x
        lev = [[g.randint(1, 2)]]
        pts, nd, f = g.line(maxseg=2, maxdiv=2)
        if b in rev:
            pts, nd, f = pts[::-1], nd[::-1], ""
        near = "L" if b in rev else "S"
        if g.random() < 0.5 and not rev and order is None:
            near = g.choice("SL")
        names = bundle(S, g, B, lev, (pts, nd, "" if f == "z" else f), prefix="BDEF"[b])
        nodes = side_nodes(g, B, names, lev, 0, near, start=1 + 10 * b)
        jn += nodes
        far = "S" if near == "L" else "L"
        fn = side_nodes(g, B, names, lev, 0, far, start=1)
        br = [branch(g, q["id"], g.choice(["R", "C", "LCpRs"]), src) for q in fn]
        S.net(B + far, [{"level": 0, "nodes": fn, "br": br}])
        v, i = g.state(lev[0][0], sum(nd), False)
        if b in rev:
            v, i = [r[::-1] for r in v], [[-q for q in r[::-1]] for r in i]
        S.state(B, v, i)
        bs.append(B)
        nets.append(B + far)
        sizes.append(lev[0][0])
    br = junction_branches(g, [q["id"] for q in jn], ideal, src)
    if order:
        order.shuffle(br)
        swap = [dict(b) for b in br]
        for b in swap:
            if b["k"] == "shortn" and order.random() < 0.5:
                b["a"], b["b"] = b["b"], b["a"]
        br = swap
        by = {}
        for q in jn:
            by.setdefault(q["line"], []).append(q)
        ks = list(by)
        order.shuffle(ks)
        jn = [q for y in ks for q in order.sample(by[y], len(by[y]))]
    S.net("J" + x, [{"level": 0, "nodes": jn, "br": br}])
    nets.append("J" + x)
    bs2, nets2 = list(bs), list(nets)
    o.shuffle(bs2)
    o.shuffle(nets2)
    S.system("M" + x, bs2, nets2, how=o.randrange(3))
    return bs, sizes, any(b["k"] == "shortn" for b in br)


@family("C12", 40, 320)
def c12(S, g, k):
    star(S, g, m=2 + k % 3, ideal=[0.0, 0.5, 1.0][k % 3])
    run_some(S, g, "M")


@family("C12", 24, 180)
def c12_order(S, g, k):
    """order of nodes, branches, lines; which end of each line is joined"""
    seed = g.random()
    m = 2 + k % 2
    out = []
    rev = set(b for b in range(m) if g.random() < 0.5)
    for x in ("", "x"):
        out.append(star(S, gen.G(str(seed)), x, m, gen.G(str(seed) + x), rev if x else set(), ideal=[0.0, 0.7][k % 2]))
        S.watch("M" + x)
    h = min(S.objs["M"].dt, S.objs["Mx"].dt) * 0.9
    for x in ("", "x"):
        S.run("M" + x, 4.5 * h, h, lab="R" + x)
    (bs, sz, ideal), (bx, _, _) = out
    for b in range(m):
        S.lin("order of declaration", [("R", 1.0, [(bs[b], r) for r in range(sz[b])]),
                                       ("Rx", -1.0, [(bx[b], r) for r in range(sz[b])], b in rev)], 1e-4 if ideal else 1e-7, w=bs[b])


@family("C12", 12, 90)
def c12_levels(S, g, k):
    """junctions of bundles with shields: one part per level"""
    bs, nets, parts = [], [], {}
    lev = levels(g, 2, 2, 2)
    if len(lev) == 1:
        lev.append([g.randint(1, 2)])
    for b in range(2):
        B = "BD"[b]
        names = bundle(S, g, B, lev, g.line(maxseg=2, maxdiv=2))
        near, far = g.choice([("S", "L"), ("L", "S")])
        for lv in range(len(lev)):
            parts.setdefault(lv, []).append(side_nodes(g, B, names, lev, lv, near, start=1 + 10 * b, shuffle=False))
        terminate(S, g, B + far, B, names, lev, far, ["R", "LCpRs", "C"])
        S.zt(B, 0, [0], 1, [0], g.choice(["in", "out", "both"]), g.pos(), g.pos(), *g.poles(0.3))
        rest_state(S, g, B)
        bs.append(B)
        nets.append(B + far)
    ps = []
    for lv in parts:
        a, b = parts[lv]
        br = []
        for p, q in zip(a, b):
            br.append({"k": "shortn", "a": p["id"], "b": q["id"]} if g.random() < 0.5 else branch(g, p["id"], "Rn", 0.5, b=q["id"]))
        g.shuffle(br)
        ps.append({"level": lv, "nodes": a + b, "br": br})
    g.shuffle(ps)
    S.net("J", ps)
    nets.append("J")
    g.shuffle(nets)
    S.system("M", bs, nets, how=k % 3)
    run_some(S, g, "M", 3)


# ---------------------------------------------------- C13 system from parts
@family("C13", 36, 280)
def c13_direct(S, g, k):
    """a line terminated directly = the line in a bundle terminated by networks"""
    seed = g.random()
    n = 1 + k % 3
    geo = g.line(maxseg=3, maxdiv=2)
    N = sum(geo[1])
    h0 = gen.G(str(seed))
    zs = [h0.num(0.25, 4.0) for _ in range(n)]
    zl = [h0.num(0.25, 4.0) for _ in range(n)]
    short = k % 4 == 0
    w = {}
    if short:
        zl[0] = 0.0
    for side in "SL":
        for c in range(n):
            z = (zs if side == "S" else zl)[c]
            w[side, c] = h0.wave() if z > 0 and h0.random() < 0.6 else dict(Z)
    with_field = k % 2 == 0
    for nm in ("a", "b"):
        h = gen.G(str(seed) + "m")
        line(S, h, nm, n=n, geo=geo, ends=(zs, zl), scalar=False)
        u = S.objs[nm].u.tolist()
        if h.random() < 0.6:
            S.lumped(nm, mid(u, h.randrange(N), 0.1), h.randrange(n), h.pos(), h.pos(), *h.poles(0.3))
        for _ in range(h.randint(0, 3)):
            j = sorted([h.randrange(N + 1), h.randrange(N + 1)])
            (S.res if h.random() < 0.5 else S.cond)(nm, u[j[0]], u[j[1]], h.randrange(n), h.pos())
    for c in range(n):
        for side in "SL":
            if w[side, c]["k"] != "zero":
                S.source("a", u[0 if side == "S" else -1], c, w[side, c])
    S.bundle("B", [["b"]])
    if with_field:
        f = {"k": "poly", "x": [[0.5, 0, 1, 0, 1], [1.0, 0, 0, 0, 0]], "y": [[0.75, 1, 0, 0, 0]], "z": [[-1.0, 0, 1, 1, 0]]}
        d = [[[0.125, 0.0625 * (c + 1), 0.03125]] * (N + 1) for c in range(n)]
        for o in ("a", "B"):
            S.field(o, f, d)
    for side in "SL":
        nodes = side_nodes(g, "B", [["b"]], [[n]], 0, side)
        br = []
        for nd in nodes:
            z = (zs if side == "S" else zl)[nd["cond"]]
            br.append({"k": "R", "a": nd["id"], "R": z, "w": w[side, nd["cond"]]} if z > 0 else {"k": "short", "a": nd["id"]})
        g.shuffle(br)
        S.net("B" + side, [{"level": 0, "nodes": g.sample(nodes, n), "br": br}], style=g.randint(0, 3))
    st = g.state(n, N, False)
    S.state("a", *st)
    S.state("B", *st)
    S.system("M", ["B"], ["BS", "BL"], how=k % 3)
    if k % 3 == 1:                                     # another time step
        S.setdt("a", S.objs["a"].dt * 0.75 * 8, 8)
        dt = S.objs["a"].dt
    else:
        dt = 0.0
    S.watch("a")
    S.watch("M")
    m = 5.5 * S.objs["a"].dt
    S.run("a", m, lab="Ra")
    S.run("M", m, dt, lab="RM")
    S.lin("directly or by networks", [("Ra", 1.0, [("a", r) for r in range(n)]), ("RM", -1.0, [("B", r) for r in range(n)])], 1e-5 if short else 1e-8)


@family("C13", 24, 180)
def c13_alone(S, g, k):
    """bundles without connection evolve as if alone, whatever the order of addition"""
    seed = g.random()
    m = g.randint(2, 3)
    levs = [levels(g, 2, 2, 2) for _ in range(m)]
    geos = [g.line(maxseg=2, maxdiv=2) for _ in range(m)]

    def make(b, x):
        h = gen.G("%s/%d" % (seed, b))
        B = "BDE"[b] + x
        closed_bundle(S, h, B, levs[b], geos[b], kinds=["R", "C", "LCpRs"], prefix="BDE"[b])
        if len(levs[b]) > 1:
            S.zt(B, 0, [0], 1, [0], "both", h.pos(), h.pos(), *h.poles(0.3))
        u = S.objs[B].u.tolist()
        if h.random() < 0.5:
            S.dist(B, u[0], u[1], 0, h.wave())
        rest_state(S, h, B)
        return B
    together = [make(b, "") for b in range(m)]
    alone = [make(b, "x") for b in range(m)]
    again = [make(b, "y") for b in range(m)]
    dt = min(S.objs[b].dt for b in together) * g.choice([1.0, 0.8])
    nets = lambda bs: [b + s for b in bs for s in "SL"]
    S.system("M", together, nets(together), how=0)
    p, q = g.sample(again, m), g.sample(nets(again), 2 * m)
    S.system("My", p, q, how=1 + k % 2)
    for o in ("M", "My"):
        S.watch(o)
        S.run(o, 4.5 * dt, dt, lab="R" + o)
    for b in range(m):
        n = sum(map(sum, levs[b]))
        rows = lambda o: [(o, r) for r in range(n)]
        S.system("M%d" % b, [alone[b]], nets([alone[b]]), how=k % 3)
        S.watch("M%d" % b)
        S.run("M%d" % b, 4.5 * dt, dt, lab="R%d" % b)
        S.lin("alone", [("RM", 1.0, rows(together[b])), ("R%d" % b, -1.0, rows(alone[b]))], 1e-10)
        S.lin("order of addition", [("RM", 1.0, rows(together[b])), ("RMy", -1.0, rows(again[b]))], 1e-10)


# --------------------------------------------------------------- C14 bundles
@family("C14", 48, 400)
def c14(S, g, k):
    nlev = 1 + k % 3
    lev = [[g.randint(1, 3)]] + [[g.randint(1, 2) for _ in range(g.randint(1, 3))] for _ in range(nlev)]
    geo = g.line(maxseg=2, maxdiv=2)
    N = sum(geo[1])
    pool = ["w%d" % j for j in range(20)]
    g.shuffle(pool)
    names = []
    for lv in lev:
        ns = []
        for n in lv:
            nm = pool.pop()
            line(S, g, nm, n, geo, scalar=False)
            u = S.objs[nm].u.tolist()
            if g.random() < 0.4:
                S.lumped(nm, mid(u, g.randrange(N), 0.1), g.randrange(n), g.pos(), g.pos(), *g.poles(0.3))
            if g.random() < 0.3:
                S.res(nm, u[0], u[g.randint(0, N)], g.randrange(n), g.pos())
            if g.random() < 0.3:
                S.cond(nm, u[g.randint(0, N)], u[-1], g.randrange(n), g.pos())
            ns.append(nm)
        names.append(ns)
    S.bundle("B", names)
    for lv in range(len(lev) - 1):
        if g.random() < 0.5:
            S.zt("B", lv, [g.randrange(sum(lev[lv]))], lv + 1, [g.randrange(sum(lev[lv + 1]))], g.choice(["in", "out", "both"]), g.pos(), g.pos())
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, ["R", "R", "R", "C"], src=0.4)
    rest_state(S, g, "B")
    S.system("M", ["B"], ["BS", "BL"], how=k % 3)
    run_some(S, g, "M", 2)


@family("C14", 16, 120)
def c14_later(S, g, k):
    """losses given to conductors of the bundle, networks joined to a line of a level"""
    lev = [[1], [g.randint(1, 2) for _ in range(3)]]
    names = bundle(S, g, "B", lev, g.line(maxseg=2, maxdiv=2))
    u = S.objs["B"].u.tolist()
    n = sum(map(sum, lev))
    for _ in range(3):
        j = sorted([g.randrange(len(u)), g.randrange(len(u))])
        (S.res if g.random() < 0.5 else S.cond)("B", u[j[0]], u[j[1]], g.randrange(n), g.pos())
    # each line of the level has a network of its own
    for side in "SL":
        sys_parts = []
        nd0 = side_nodes(g, "B", names, lev, 0, side)
        S.net("n0" + side, [{"level": 0, "nodes": nd0, "br": [branch(g, q["id"], "R") for q in nd0]}])
        nd1 = side_nodes(g, "B", names, lev, 1, side)
        for j, nm in enumerate(names[1]):
            nd = [q for q in nd1 if q["line"] == nm]
            S.net("n1%d%s" % (j, side), [{"level": 1, "nodes": nd, "br": [branch(g, q["id"]) for q in nd]}])
    nets = ["n0S", "n0L"] + ["n1%d%s" % (j, s) for j in range(3) for s in "SL"]
    g.shuffle(nets)
    rest_state(S, g, "B")
    S.system("M", ["B"], nets, how=k % 3)
    run_some(S, g, "M", 3)


# ------------------------------------------------------ C15 transfer impedance
def random_zt(S, g, B, lev, dt, side=None, used=None):
    lv = g.randrange(len(lev) - 1)
    a, b = (lv, lv + 1) if g.random() < 0.8 else (lv + 1, lv)
    na, nb = sum(lev[a]), sum(lev[b])
    oc = g.sample(range(na), g.randint(1, na))
    ic = g.sample(range(nb), g.randint(1, nb))
    if used is not None:
        pairs = {frozenset(((a, x), (b, y))) for x in oc for y in ic}
        if pairs & used:
            return
        used |= pairs
    kind = g.randrange(5)
    d = g.pos() if kind in (0, 3, 4) else 0.0
    e = g.pos() if kind in (1, 3, 4) else 0.0
    p, q = g.poles(dt) if kind in (2, 4) else ([], [])
    if not p and d == 0.0 and e == 0.0:
        d = 0.75
    S.zt(B, a, oc, b, ic, g.choice(["in", "out", "both"]), d, e, p, q, f=g.choice([None, None, 2.0, 0.5, 10.0]), side=side)


@family("C15", 56, 480)
def c15(S, g, k):
    nlev = 1 + k % 2
    lev = [[g.randint(1, 2)]] + [[g.randint(1, 2) for _ in range(g.randint(1, 2))] for _ in range(nlev)]
    names = bundle(S, g, "B", lev, g.line(maxseg=2, maxdiv=3))
    dt = S.objs["B"].dt
    used = set()
    for _ in range(g.randint(1, 3)):
        random_zt(S, g, "B", lev, dt, used=used)
    for side in ("initial", "end"):
        if g.random() < 0.6:
            random_zt(S, g, "B", lev, dt, side=side)
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, ["R"], src=0.4)
    rest_state(S, g, "B")
    S.system("M", ["B"], ["BS", "BL"])
    if k % 3 == 0:
        S.steps("M", 2, 0.8 * dt)
        S.steps("M", 2, 0.6 * dt)
    else:
        run_some(S, g, "M", 4)


@family("C15", 8, 60)
def c15_physical(S, g, k):
    """the poles and residues of a braided shield"""
    mats = lambda n: ([[x * 3e-7 for x in r] for r in g.spd(n, False)], [[x * 7e-11 for x in r] for r in g.spd(n, True)])
    pts, nd = [[0, 0, 0], [0, 0, 0.25], [0.2, 0, 0.3]], [3, 2]
    for nm, n in (("s", 1), ("i", 2)):
        l, c = mats(n)
        S.mtl(nm, l, c, pts=pts, ndiv=nd)
    S.bundle("B", [["s"], ["i"]])
    p = [[-7.6e7, 0.0], [-1.2e9, 4e8], [-1.2e9, -4e8]]
    q = [[3.0e5, 0.0], [-2e6, 1e6], [-2e6, -1e6]]
    S.zt("B", 0, [0], 1, [0, 1], ["in", "out", "both"][k % 3], 22.9e-3, 1.6e-9, p, q)
    if k % 2:
        S.zt("B", 0, [0], 1, [0], "in", 5e-3, 1e-9, [], [], side="end")
    for side in "SL":
        terminate(S, g, "B" + side, "B", [["s"], ["i"]], [[1], [2]], side, ["R"], src=0.0)
    v, i = g.state(3, 5, False)
    S.state("B", v, [[x / 50 for x in r] for r in i])
    S.system("M", ["B"], ["BS", "BL"])
    run_some(S, g, "M", 6)


# ------------------------------------------------------ C16 lumped elements
@family("C16", 48, 400)
def c16(S, g, k):
    n = 1 + k % 3
    geo = g.line(maxseg=3, maxdiv=2)
    line(S, g, "a", n=n, geo=geo)
    u = S.objs["a"].u.tolist()
    import numpy as np
    dt = S.objs["a"].dt
    for _ in range(g.randint(1, 4)):
        kind = g.randrange(5)
        d = g.pos() if kind in (0, 3, 4) else 0.0
        e = g.pos() if kind in (1, 3, 4) else 0.0
        p, q = g.poles(dt) if kind in (2, 4) else ([], [])
        if kind == 2 and not p:
            d = 0.5
        pos = g.choice([g.on_line(u), u[-1], u[0], u[len(u) // 2]])
        c = g.randrange(n)
        # a place that is taken already is refused (the specification says which)
        S.lumped("a", pos, c, d, e, p, q, valid=False)
        if g.random() < 0.4:
            uu = np.array(u)
            j = g.randrange(len(u) - 1)
            w = np.cross(uu[j + 1] - uu[j], [0.3, -0.7, 0.55])
            off = g.choice([uu[0] - (uu[1] - uu[0]) * 0.3, uu[-1] + (uu[-1] - uu[-2]) * 0.3, uu[j] + w])
            if min_dist(uu, off) > 1e-2:
                S.lumped("a", off.tolist(), c, 1.0, 0.0, valid=False)
    v, i = g.state(n, len(u) - 1)
    if k % 3 == 0:
        S.bundle("B", [["a"]])
        v, i = g.state(n, len(u) - 1, False)
        S.state("B", v, i)
        for side in "SL":
            terminate(S, g, "B" + side, "B", [["a"]], [[n]], side, ["R"], src=0.3)
        S.system("M", ["B"], ["BS", "BL"])
        run_some(S, g, "M", 4)
    else:
        S.state("a", v, i)
        if k % 5 == 1:
            S.setdt("a", dt * 0.75 * 8, 8)
        run_some(S, g, "a", 4)


@family("C16", 6, 50)
def c16_physical(S, g, k):
    S.mtl("a", 3e-7, 7e-11, pts=[[0, 0, 0], [0, 0.1, 0.25], [0.2, 0.1, 0.3]], ndiv=[4, 2], zs=50.0, zl=75.0)
    u = S.objs["a"].u.tolist()
    S.lumped("a", u[g.randrange(7)], 0, g.choice([0.0, 10.0, 1e3]), g.choice([0.0, 1e-8, 1e-6]),
             [[-1e9, 0.0], [-5e8, 3e9], [-5e8, -3e9]][: 1 + 2 * (k % 2)], [[1e10, 0.0], [3e9, 1e9], [3e9, -1e9]][: 1 + 2 * (k % 2)])
    v, i = g.state(1, 6)
    S.state("a", v, [[x / 50 for x in r] for r in i])
    run_some(S, g, "a", 5)


# -------------------------------------------------------- C17 losses of regions
@family("C17", 56, 480)
def c17(S, g, k):
    geo = g.line(maxseg=3, maxdiv=3, straight=(k % 4 == 0) or None)
    isb = k % 3 == 2
    if isb:
        lev = levels(g, 2, 2, 2)
        names = bundle(S, g, "a", lev, geo)
        n = sum(map(sum, lev))
    else:
        n = line(S, g, "a", n=1 + k % 3, geo=geo)
    u = S.objs["a"].u.tolist()
    N = len(u) - 1
    for _ in range(g.randint(1, 3)):
        c = g.randrange(n)
        point = g.random() < 0.3
        j = sorted([g.randrange(N + 1), g.randrange(N + 1)])
        a = g.on_line(u) if g.random() < 0.4 else u[j[0]]
        b = g.on_line(u) if g.random() < 0.4 else u[j[1]]
        near = lambda x: min(range(len(u)), key=lambda m: sum((p - q) ** 2 for p, q in zip(u[m], x)))
        if near(a) > near(b):
            a, b = b, a
        if point:
            b = a
        f = S.res if g.random() < 0.5 else S.cond
        f("a", a, b, c, g.pos(), number=(k % 4 == 0 and g.random() < 0.5), point=point and g.random() < 0.5)
    if isb:
        for side in "SL":
            terminate(S, g, "a" + side, "a", names, lev, side, ["R"], src=0.0)
        rest_state(S, g, "a")
        S.system("M", ["a"], ["aS", "aL"])
        run_some(S, g, "M", 2)
    else:
        v, i = g.state(n, N)
        S.state("a", v, i)
        run_some(S, g, "a", 2)


# ------------------------------------------------------ C18 distributed sources
@family("C18", 56, 480)
def c18(S, g, k):
    geo = g.line(maxseg=3, maxdiv=2, straight=(k % 5 == 0) or None)
    lev = levels(g, 2, 2, 2)
    names = bundle(S, g, "B", lev, geo)
    n = sum(map(sum, lev))
    u = S.objs["B"].u.tolist()
    N = len(u) - 1
    import numpy as np
    for _ in range(g.randint(1, 3)):
        ka = g.randrange(N)
        kb = g.randint(ka, N - 1)
        sa, sb = g.choice([0.0, g.num(0.05, 0.95)]), g.choice([1.0, g.num(0.05, 0.95)])
        if ka == kb and sa >= sb:
            sa, sb = 0.0, 1.0
        S.dist("B", mid(u, ka, sa), mid(u, kb, sb), g.randrange(n), g.wave(), number=(k % 5 == 0 and g.random() < 0.5))
        if g.random() < 0.3:
            uu = np.array(u)
            j = g.randrange(N)
            w = np.cross(uu[j + 1] - uu[j], [0.3, -0.7, 0.55])
            off = g.choice([uu[0] - (uu[1] - uu[0]) * 0.3, uu[-1] + (uu[-1] - uu[-2]) * 0.3, uu[j] + w])
            if min_dist(uu, off) > 1e-2:
                ends = [u[0], off.tolist()]
                g.shuffle(ends)
                S.dist("B", ends[0], ends[1], g.randrange(n), g.wave(), valid=False)
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, ["R"], src=0.2)
    if g.random() < 0.5:
        rest_state(S, g, "B")
    S.system("M", ["B"], ["BS", "BL"])
    run_some(S, g, "M", 3)


# ------------------------------------------------------------ C19 fields
def poly_field(g, deg=2):
    mono = lambda: [g.num(-1.5, 1.5, 8), g.randint(0, deg), g.randint(0, deg), g.randint(0, deg), g.randint(0, 2)]
    comp = lambda: [m if sum(m[1:4]) < 6 else m[:3] + [1] + m[4:] for m in (mono() for _ in range(g.randint(1, 3)))]
    f = {"k": "poly", "x": comp(), "y": comp(), "z": comp()}
    for c in "xyz":
        if g.random() < 0.2:
            f[c] = []
    return f


def moving_field(g):
    w = lambda: [g.num(-1.5, 1.5, 8) for _ in range(3)]
    return {"k": "moving", "d": g.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1]]), "x": w(), "y": w(), "z": w()}


def distances(g, n, N, vary=False):
    """displacement of each conductor (at each node)"""
    out = []
    for c in range(n):
        d = [g.num(-0.5, 0.5, 16) for _ in range(3)]
        if g.random() < 0.3:
            d = [0.0, 0.0, d[2]]
        out.append([[x + (g.num(-0.1, 0.1, 16) if vary else 0.0) for x in d] for _ in range(N + 1)])
    return out


@family("C19", 40, 320)
def c19_line(S, g, k):
    n = 1 + k % 2
    geo = g.line(maxseg=2, maxdiv=2)
    line(S, g, "a", n=n, geo=geo)
    u = S.objs["a"].u.tolist()
    N = len(u) - 1
    for _ in range(g.randint(1, 2)):
        kind = (k // 2) % 4
        if kind == 3:
            f = moving_field(g)
        else:
            f = poly_field(g)
        loc = ()
        if kind == 2:
            j = sorted(g.sample(range(N + 1), 2))
            loc = (u[j[0]], u[j[1]])
        S.field("a", f, distances(g, n, N, g.random() < 0.3), loc)
    if g.random() < 0.5:
        S.source("a", u[0], 0, g.wave())
    if g.random() < 0.4:
        S.state("a", *g.state(n, N))
    run_some(S, g, "a", 2)


@family("C19", 12, 100)
def c19_plane(S, g, k):
    n = 1 + k % 2
    geo = g.line(maxseg=2, maxdiv=2)
    line(S, g, "a", n=n, geo=geo)
    N = sum(geo[1])
    ang = lambda: g.choice([g.num(0.1, 3.0), g.num(0.1, 6.0)])
    polar = 0.0 if k % 6 == 5 else g.num(0.1, 3.0)
    if abs(polar - 1.5708) < 0.05:
        polar = 1.2
    S.field("a", {"k": "plane", "c": [g.num(-1, 1, 8), g.num(-1, 1, 8), g.num(-0.5, 0.5, 8)], "polar": polar, "azimuth": ang(), "pol": ang()},
            distances(g, n, N))
    run_some(S, g, "a", 2)


@family("C19", 20, 160)
def c19_bundle(S, g, k):
    lev = levels(g, 2, 2, 2)
    geo = g.line(maxseg=2, maxdiv=2)
    names = bundle(S, g, "B", lev, geo)
    u = S.objs["B"].u.tolist()
    N = len(u) - 1
    for _ in range(g.randint(1, 2)):
        f = moving_field(g) if g.random() < 0.3 else poly_field(g)
        loc = ()
        if g.random() < 0.3:
            j = sorted(g.sample(range(N + 1), 2))
            loc = (u[j[0]], u[j[1]])
        S.field("B", f, distances(g, lev[0][0], N), loc)
    if g.random() < 0.4:
        S.dist("B", u[0], mid(u, N - 1, 0.5), 0, g.wave())
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, ["R", "C", "LCpRs", "short"], src=0.3)
    if g.random() < 0.4:
        rest_state(S, g, "B")
    S.system("M", ["B"], ["BS", "BL"], how=k % 3)
    run_some(S, g, "M", 2)


@family("C19", 12, 100)
def c19_system(S, g, k):
    """fields given to the system: all bundles, or a region of one of them"""
    n0, N = g.randint(1, 2), g.randint(2, 3)
    nets, levs = [], {}
    for b in "BC"[:1 + (k % 3 > 0)]:
        lev = [[n0]] + levels(g, 2, 2, 2)[1:]
        p = g.point()
        q = [x + y for x, y in zip(p, [g.num(0.5, 1.5, 8), g.num(-1, 1, 8), g.num(-1, 1, 8)])]
        names = bundle(S, g, b, lev, ([p, q], [N], ""))
        levs[b] = lev
        for side in "SL":
            terminate(S, g, b + side, b, names, lev, side, ["R", "C", "LCpRs"], src=0.2)
            nets.append(b + side)
    S.system("M", list(levs), nets, how=k % 3)
    for _ in range(g.randint(1, 2)):
        f = moving_field(g) if g.random() < 0.3 else poly_field(g)
        d = distances(g, n0, N, g.random() < 0.3)
        if g.random() < 0.5:
            S.sysfield("M", f, d)
        else:
            b = g.choice(sorted(levs))
            u = S.objs[b].u.tolist()
            j = sorted(g.sample(range(N + 1), 2))
            S.sysfield("M", f, d, b, (u[j[0]], u[j[1]]))
    for b in levs:
        if g.random() < 0.4:
            rest_state(S, g, b)
    run_some(S, g, "M", 2)


# ---------------------------------------------------------- C22 bad requests
def bad_line(S, g, k):
    import numpy as np
    import src.mtl as mtl
    n = g.randint(2, 3)
    L, C = g.spd(n, False), g.spd(n, True)
    p, d = [[0., 0., 0.], [0., 0., 1.]], [3]
    small = g.spd(n - 1, False)
    rect = [r[:-1] for r in C]
    z = g.ends(n)
    reqs = [
        dict(l=L, c=small), dict(l=small, c=C), dict(l=L, c=rect), dict(l=[r[:-1] for r in L], c=rect),
        dict(l=1.0, c=C), dict(l=L, c=1.0),
        dict(l=L, c=C, r=0.5), dict(l=L, c=C, g=0.5), dict(l=L, c=C, r=small), dict(l=L, c=C, g=small), dict(l=L, c=C, r=rect), dict(l=L, c=C, g=rect),
        dict(l=L, c=C, zs=z[:-1], zl=z[:-1]), dict(l=L, c=C, zs=z + [1.0], zl=z + [1.0]), dict(l=L, c=C, zs=z, zl=1.0), dict(l=L, c=C, zs=1.0, zl=z), dict(l=L, c=C, zs=z, zl=z[:-1]),
        dict(l=L, c=C, ndiv=[2, 2]), dict(l=L, c=C, pts=p + [[0., 1., 1.]], ndiv=[3]), dict(l=L, c=C, pts=p + [[0., 1., 1.]], ndiv=[1, 2, 3]),
    ]
    rq = reqs[k % len(reqs)]
    rq.setdefault("pts", p)
    rq.setdefault("ndiv", d)
    S.mtl("bad", valid=False, form=g.choice(["", "h", "v"]) if "zs" in rq else "", **rq)


@family("C22", 40, 200)
def c22_line(S, g, k):
    bad_line(S, g, k)
    bad_line(S, g, k + 7)


def bad_requests(S, g, o, k):
    """requests on line or bundle o that make no sense"""
    import numpy as np
    x = S.objs[o]
    u = x.u
    n = x.v.shape[0]
    N = len(u) - 1
    d = u[1] - u[0]
    w = np.cross(d, [0.3, -0.7, 0.55])
    off = g.choice([u[0] - 0.3 * d, u[-1] + 0.3 * (u[-1] - u[-2]), u[0] + 0.4 * d + w / np.linalg.norm(w) * 0.2])
    if min_dist(u, off) < 1e-2:
        off = u[0] + 100.0
    off = off.tolist()
    c = g.randrange(n)
    isb = o in S.bundles
    todo = []
    todo.append(lambda: S.probe(o, "off", off, g.choice(["voltage", "current"]), valid=False))
    far = [j for j in range(1, N + 1)]
    j = g.choice(far)
    todo.append(lambda: S.res(o, u[j].tolist(), u[g.randrange(j)].tolist(), c, g.pos(), valid=False))
    todo.append(lambda: S.cond(o, u[j].tolist(), u[g.randrange(j)].tolist(), c, g.pos(), valid=False))
    f = {"k": "poly", "x": [[1.0, 0, 0, 0, 1]], "y": [[1.0, 1, 0, 0, 0]], "z": [[1.0, 0, 1, 0, 0]]}
    rows = n if not isb else S.bundles[o]
    bad = g.choice([[[[0.1, 0.1, 0.1]] * N] * rows, [[[0.1, 0.1, 0.1]] * (N + 1)] * (rows + 1), [[[0.1, 0.1, 0.1]] * (N + 2)] * rows])
    todo.append(lambda: S.field(o, f, bad, valid=False))
    if isb:
        todo.append(lambda: S.dist(o, u[0].tolist(), off, c, g.wave(), valid=False))
        todo.append(lambda: S.dist(o, off, u[-1].tolist(), c, g.wave(), valid=False))
    else:
        todo.append(lambda: S.lumped(o, off, c, 1.0, 0.5, valid=False))
        todo.append(lambda: S.lumped(o, u[0].tolist(), 0, 1.0, 0.5, valid=False))      # taken
        todo.append(lambda: S.lumped(o, u[0].tolist(), 0, 0.0, 0.0, *g.poles(0.3, 1, 0), valid=False))
        m = {"cte": 1.0, "prop": 0.0, "poles": {"real": [-1.0, -2.0], "imag": [0.0, 0.0]}, "residues": {"real": [1.0], "imag": [0.0]}}
        m2 = {"cte": 1.0, "prop": 0.0, "poles": {"real": [-1.0, -2.0], "imag": [0.0]}, "residues": {"real": [1.0, 1.0], "imag": [0.0, 0.0]}}
        mm = g.choice([m, m2])
        todo.append(lambda: S.invalid("poles and residues", lambda: x.add_dispersive_connector(np.array(u[-1]), c, mm)))
    todo[k % len(todo)]()
    todo[g.randrange(len(todo))]()


@family("C22", 40, 300)
def c22_leaves(S, g, k):
    """a refused request leaves the object as it was"""
    n = 1 + k % 2
    geo = g.line(maxseg=2, maxdiv=2)
    line(S, g, "a", n=n, geo=geo)
    u = S.objs["a"].u.tolist()
    S.lumped("a", u[0], 0, 0.5, 0.25, *g.poles(0.3))
    S.state("a", *g.state(n, len(u) - 1))
    bad_requests(S, g, "a", k)
    run_some(S, g, "a", 2, multi=False)
    bad_requests(S, g, "a", k + 1)
    run_some(S, g, "a", 2, multi=False)


@family("C22", 40, 300)
def c22_bundle(S, g, k):
    import numpy as np
    import src.mtl as mtl
    import src.networks as networks
    import src.mtln as mtln
    geo = g.line(maxseg=2, maxdiv=2)
    lev = [[1], [g.randint(1, 2)], [1]]
    names = bundle(S, g, "B", lev, geo)
    # lines that do not fit together
    other = g.line(maxseg=2, maxdiv=2)
    line(S, g, "odd", 1, (other[0], other[1], ""), scalar=False)
    bad = [lambda: S.bundle("X", [[names[0][0]], ["odd"]], valid=False),
           lambda: S.bundle("X", [[names[0][0], names[1][0]]], valid=False),
           lambda: S.zt("B", 0, [0], 2, [0], "both", 1.0, valid=False),
           lambda: S.zt("B", 1, [0], 1, [0], "in", 1.0, valid=False),
           lambda: S.zt("B", 0, [0], 1, [0], "in", 1.0, side="middle", valid=False),
           lambda: S.zt("B", 0, [0], 2, [0], "in", 1.0, side="end", valid=False)]
    bad[k % len(bad)]()
    S.zt("B", 0, [0], 1, [0], "both", 0.5, 0.25, *g.poles(0.3))
    bad_requests(S, g, "B", k)
    nd = side_nodes(g, "B", names, lev, 1, "S")
    br = [branch(g, q["id"], "R") for q in nd]
    one = [{"level": 1, "nodes": [dict(nd[0], side="X")], "br": [dict(br[0], a=nd[0]["id"])]}]
    dup = [{"level": 1, "nodes": [nd[0], dict(nd[0], cond=min(1, lev[1][0] - 1))], "br": [dict(br[0], a=nd[0]["id"])]}]
    unk = [{"level": 1, "nodes": nd, "br": [dict(br[0], a=99)]}]
    unk2 = [{"level": 1, "nodes": nd, "br": [{"k": "Rn", "a": nd[0]["id"], "b": 99, "R": 1.0}]}]
    unk3 = [{"level": 1, "nodes": nd, "br": [{"k": g.choice(["C", "LCpRs", "short"]), "a": 99}]}]
    unk4 = [{"level": 1, "nodes": nd, "br": [{"k": "shortn", "a": nd[0]["id"], "b": 99}]}]
    neg = [{"level": 1, "nodes": [dict(nd[0], id=-3)], "br": [dict(br[0], a=-3)]}]
    zero = [{"level": 1, "nodes": nd, "br": [{"k": "Rn", "a": nd[0]["id"], "b": nd[-1]["id"], "R": 0.0}]}]
    parts = [one, dup, unk, unk2, unk3, unk4, neg] + ([zero] if len(nd) > 1 else [])
    S.net("bad", parts[k % len(parts)], valid=False)
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, ["R", "C", "LCpRs"])
    rest_state(S, g, "B")
    S.system("M", ["B"], ["BS", "BL"], how=k % 3)
    # another bundle with the same name
    line(S, g, "w", 1, geo, scalar=False)
    S.bundle("B2", [["w"]], name="B")
    S.addbundle("M", "B2", valid=False)
    S.system("M2", ["B", "B2"], [], valid=False)
    # a network of a bundle that the system does not have
    lost = bundle(S, g, "Lost", [[g.randint(1, 2)]], geo)
    S.net("stray", [{"level": 0, "nodes": side_nodes(g, "Lost", lost, [[S.objs[lost[0][0]].v.shape[0]]], 0, "S")[:1], "br": []}])
    S.addnet("M", "stray", valid=False)
    S.system("M3", ["B"], ["stray"], valid=False)
    S.steps("M", 2)
    bad_requests(S, g, "B", k + 2)
    S.steps("M", 2)


# ---------------------------------------------------------------- C24 ports
@family("C24", 30, 240)
def c24_port(S, g, k):
    n = 1 + k % 3
    geo = g.line(maxseg=2, maxdiv=3)
    zs, zl = g.ends(n, 0.0), g.ends(n, 0.0)
    line(S, g, "a", n=n, geo=geo, ends=(zs, zl))
    u = S.objs["a"].u.tolist()
    S.source("a", u[0] if k % 2 else u[-1], g.randrange(n), g.wave())
    if g.random() < 0.5:
        S.state("a", *g.state(n, len(u) - 1))
    S.ports("a", both=k % 4 != 0)
    for r in range(1 + k % 2):
        m = g.randint(5, 9)
        S.run("a", (m + 0.5) * S.objs["a"].dt)
        S.port_waves("a", zs, zl)


@family("C24", 8, 40, ["reciprocal", "passive", "amplitude"])
def c24_twoport(S, g, k):
    """two-port parameters of a line matched to its ports' order of magnitude"""
    n = 1
    l, c = g.pos(0.8, 1.25), g.pos(0.8, 1.25)
    zs, zl = g.num(0.5, 2.0), g.num(0.5, 2.0)
    lossy = k % 2 == 1
    runs = {}
    for nm, end, amp in (("a", 0, 1.0), ("b", -1, 1.0), ("c", 0, -3.5)):
        S.mtl(nm, l, c, pts=[[0., 0., 0.], [0., 0., 1.0]], ndiv=[24], r=0.2 if lossy else 0.0, g=0.1 if lossy else 0.0, zs=zs, zl=zl)
        if lossy:
            S.res(nm, [0., 0., 0.], [0., 0., 0.25], 0, 0.4)
        S.source(nm, S.objs[nm].u[end].tolist(), 0, {"k": "scaled", "f": amp, "w": {"k": "pwl", "pts": [[0.0, 0.0], [0.2, 1.0], [0.4, 0.0]]}})
        S.ports(nm)
        S.run(nm, 400.5 * S.objs["a"].dt)
    S.two_port(["a", "b", "c"], lossless=not lossy)


# ------------------------------------------------------- C25 relabelling
@family("C25", 24, 200)
def c25_permute(S, g, k):
    n = 2 + k % 2
    geo = g.line(maxseg=2, maxdiv=3)
    N = sum(geo[1])
    perm = list(range(n))
    while perm == list(range(n)):
        g.shuffle(perm)                               # row r of b is row perm[r] of a
    P = lambda m: [[m[perm[r]][perm[c]] for c in range(n)] for r in range(n)]
    V = lambda x: [x[perm[r]] for r in range(n)]
    l, c, r_, g_ = g.spd(n, False), g.spd(n, True), g.lossm(n), g.lossm(n)
    zs, zl = g.ends(n), g.ends(n)
    st = g.state(n, N)
    if k % 3 == 0:
        st = g.state(n, N, False)
        zs = zl = [0.0] * n
    S.mtl("a", l, c, pts=geo[0], ndiv=geo[1], r=r_, g=g_, zs=zs, zl=zl)
    S.mtl("b", P(l), P(c), pts=geo[0], ndiv=geo[1], r=P(r_), g=P(g_), zs=V(zs), zl=V(zl))
    u = S.objs["a"].u.tolist()
    ops = []
    for _ in range(g.randint(1, 4)):
        q = g.randrange(n)
        kd = g.randrange(4)
        if kd == 0:
            w, e = g.wave(), g.choice([0, -1])
            ops.append(lambda o, f, q=q, w=w, e=e: S.source(o, u[e], f(q), w))
        elif kd == 1:
            j, x = sorted([g.randrange(N + 1), g.randrange(N + 1)]), g.pos()
            ops.append(lambda o, f, q=q, j=j, x=x: S.res(o, u[j[0]], u[j[1]], f(q), x))
        elif kd == 2:
            j, x = sorted([g.randrange(N + 1), g.randrange(N + 1)]), g.pos()
            ops.append(lambda o, f, q=q, j=j, x=x: S.cond(o, u[j[0]], u[j[1]], f(q), x))
        else:
            cell, d, e, pq = g.randrange(N), g.pos(), g.pos(), g.poles(0.3)
            ops.append(lambda o, f, q=q, cell=cell, d=d, e=e, pq=pq: S.lumped(o, mid(u, cell, 0.1), f(q), d, e, *pq, valid=False))
    for op in ops:
        op("a", lambda q: q)
        op("b", lambda q: perm.index(q))
    ident = lambda q: q
    runs = []
    if k % 3 == 0:                                    # in bundles, with networks
        brs = {s: [branch(g, c + 1) for c in range(n)] for s in "SL"}
        short = any(b["k"] == "short" for s in "SL" for b in brs[s])
        zt = (g.pos(), g.pos(), *g.poles(0.3))
        for o, nm, f in (("a", "A", ident), ("b", "B", lambda q: perm.index(q))):
            line(S, gen.G("inner%d" % k), "in" + o, 1, geo, scalar=False)
            S.bundle(nm, [[o], ["in" + o]])
            S.zt(nm, 0, [f(0)], 1, [0], "both", *zt)
            for s in "SL":
                nodes = [{"id": c + 1, "line": o, "bundle": nm, "side": s, "cond": f(c)} for c in range(n)]
                S.net(nm + s, [{"level": 0, "nodes": nodes, "br": brs[s]},
                               {"level": 1, "nodes": [{"id": 1, "line": "in" + o, "bundle": nm, "side": s, "cond": 0}], "br": [{"k": "R", "a": 1, "R": 1.5}]}])
            S.state(nm, (st[0] if o == "a" else V(st[0])) + [[0.0] * (N + 1)], (st[1] if o == "a" else V(st[1])) + [[0.0] * N])
            S.system("M" + nm, [nm], [nm + "S", nm + "L"])
            S.watch("M" + nm)
            S.run("M" + nm, 4.5 * S.objs["A"].dt, lab="R" + o)
        S.lin("permuted conductors", [("Ra", 1.0, [("A", perm[r]) for r in range(n)] + [("A", n)]),
                                      ("Rb", -1.0, [("B", r) for r in range(n + 1)])], 1e-5 if short else 1e-7)
        return
    S.state("a", *st)
    S.state("b", V(st[0]), V(st[1]))
    for o in ("a", "b"):
        S.watch(o)
        S.run(o, 4.5 * S.objs["a"].dt * 0.999 if k % 2 else 4.5 * S.objs["a"].dt, lab="R" + o)
    S.lin("permuted conductors", [("Ra", 1.0, [("a", perm[r]) for r in range(n)]), ("Rb", -1.0, [("b", r) for r in range(n)])], 1e-8)


@family("C25", 24, 200)
def c25_reverse(S, g, k):
    """the line described from its other end"""
    n = 1 + k % 3
    pts, nd, _ = g.line(maxseg=3, maxdiv=3)
    N = sum(nd)
    l, c, r_, g_ = g.spd(n, False), g.spd(n, True), g.lossm(n), g.lossm(n)
    zs, zl = g.ends(n), g.ends(n)
    sysm = k % 3 == 0
    st = g.state(n, N, not sysm)
    rv = lambda m: [x[::-1] for x in m]
    S.mtl("a", l, c, pts=pts, ndiv=nd, r=r_, g=g_, zs=zs, zl=zl)
    S.mtl("b", l, c, pts=pts[::-1], ndiv=nd[::-1], r=r_, g=g_, zs=zl, zl=zs)
    u, w = S.objs["a"].u.tolist(), S.objs["b"].u.tolist()
    for _ in range(g.randint(1, 4)):
        q, kd = g.randrange(n), g.randrange(4)
        j, x = sorted([g.randrange(N + 1), g.randrange(N + 1)]), g.pos()
        if kd == 0 and not sysm:
            wv, e = g.wave(), g.choice([0, 1])
            S.source("a", u[-e], q, wv)
            S.source("b", w[-1 if e == 0 else 0], q, wv)
        elif kd == 1 and j[0] != j[1]:
            S.res("a", u[j[0]], u[j[1]], q, x)
            S.res("b", w[N - j[1]], w[N - j[0]], q, x)
        elif kd == 2:
            S.cond("a", u[j[0]], u[j[1]], q, x)
            S.cond("b", w[N - j[1]], w[N - j[0]], q, x)
        elif kd == 3:
            cell, d, e, pq = g.randrange(N), g.pos(), g.pos(), g.poles(0.3)
            S.lumped("a", mid(u, cell, 0.1), q, d, e, *pq, valid=False)
            S.lumped("b", mid(w, N - 1 - cell, 0.1), q, d, e, *pq, valid=False)
    mi = [[-y for y in x[::-1]] for x in st[1]]
    if not sysm:
        S.state("a", *st)
        S.state("b", rv(st[0]), mi)
        for o in ("a", "b"):
            S.watch(o)
            S.run(o, 4.5 * S.objs["a"].dt, lab="R" + o)
        S.lin("described from the other end", [("Ra", 1.0, [("a", r) for r in range(n)]), ("Rb", -1.0, [("b", r) for r in range(n)], True)], 1e-8)
        return
    brs = {s: [branch(g, c + 1) for c in range(n)] for s in "SL"}
    short = any(b["k"] == "short" for s in "SL" for b in brs[s])
    for o, nm in (("a", "A"), ("b", "B")):
        S.bundle(nm, [[o]])
        for s in "SL":
            s2 = s if o == "a" else "SL"["LS".index(s)]
            nodes = [{"id": c + 1, "line": o, "bundle": nm, "side": s2, "cond": c} for c in range(n)]
            S.net(nm + s, [{"level": 0, "nodes": nodes, "br": brs[s]}])
        S.state(nm, *(st if o == "a" else (rv(st[0]), mi)))
        S.system("M" + nm, [nm], [nm + "S", nm + "L"])
        S.watch("M" + nm)
        S.run("M" + nm, 4.5 * S.objs["A"].dt, lab="R" + o)
    S.lin("described from the other end", [("Ra", 1.0, [("A", r) for r in range(n)]), ("Rb", -1.0, [("B", r) for r in range(n)], True)], 1e-5 if short else 1e-7)


@family("C25", 16, 120)
def c25_move(S, g, k):
    """the whole geometry moved and rotated"""
    n = 1 + k % 3
    pts, nd, _ = g.line(maxseg=3, maxdiv=3)
    N = sum(nd)
    t = [g.num(-3, 3, 8) for _ in range(3)]
    rots = [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]],
            [[1, 0, 0], [0, 0.6, -0.8], [0, 0.8, 0.6]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]]
    R = rots[k % len(rots)]
    mv = lambda p: [sum(R[a][b] * p[b] for b in range(3)) + t[a] for a in range(3)]
    l, c, r_, g_ = g.spd(n, False), g.spd(n, True), g.lossm(n), g.lossm(n)
    zs, zl = g.ends(n), g.ends(n)
    st = g.state(n, N)
    S.mtl("a", l, c, pts=pts, ndiv=nd, r=r_, g=g_, zs=zs, zl=zl)
    S.mtl("b", l, c, pts=[mv(p) for p in pts], ndiv=nd, r=r_, g=g_, zs=zs, zl=zl)
    u = S.objs["a"].u.tolist()
    for _ in range(g.randint(1, 4)):
        q, kd, x = g.randrange(n), g.randrange(4), g.pos()
        a, b = sorted([g.randrange(N), g.randrange(N)])
        p0, p1 = mid(u, a, g.choice([0.0, 0.1, 0.3])), mid(u, b, g.choice([0.0, 0.9, 0.7]))
        near = lambda y: min(range(len(u)), key=lambda m: sum((e - f) ** 2 for e, f in zip(u[m], y)))
        if near(p0) > near(p1):
            p0, p1 = p1, p0
        if kd == 0:
            wv = g.wave()
            S.source("a", u[0], q, wv)
            S.source("b", mv(u[0]), q, wv)
        elif kd == 1:
            S.res("a", p0, p1, q, x)
            S.res("b", mv(p0), mv(p1), q, x)
        elif kd == 2:
            S.cond("a", p0, p1, q, x)
            S.cond("b", mv(p0), mv(p1), q, x)
        else:
            d, e, pq = g.pos(), g.pos(), g.poles(0.3)
            S.lumped("a", p0, q, d, e, *pq, valid=False)
            S.lumped("b", mv(p0), q, d, e, *pq, valid=False)
    S.state("a", *st)
    S.state("b", *st)
    for o in ("a", "b"):
        S.watch(o)
        S.run(o, 4.5 * S.objs["a"].dt, lab="R" + o)
    S.lin("moved in space", [("Ra", 1.0, [("a", r) for r in range(n)]), ("Rb", -1.0, [("b", r) for r in range(n)])], 1e-8)


@family("C24", 1, 1)
def c24_extract(S, g, k):
    """the two-port extracted from a line"""
    import src.networkExtraction as nx
    S.mtl("a", 1.0, 1.0, pts=[[0., 0., 0.], [0., 0., 1.0]], ndiv=[24], zs=1.0, zl=1.0)
    w = ""
    try:
        nx.extract_2p_network(S.objs["a"], fMin=0.0, fMax=0.5, finalTime=8.0)
    except Exception as ex:                                      # noqa: BLE001
        w = type(ex).__name__ + ": " + str(ex)
    S.flag("extraction", w == "", w)


@family("C24", 6, 30)
def c24_extracted(S, g, k):
    """the two-port extracted from a line is the one its ports see (the attribute `x` that the
    extraction asks lines for is supplied here: see KNOWN_FINDINGS.json)"""
    import src.networkExtraction as nx
    n = 1 + k % 2
    l, c = (g.pos(0.8, 1.25), g.pos(0.8, 1.25)) if n == 1 else (g.spd(n, False), g.spd(n, True))
    zs, zl = [g.num(0.5, 2.0) for _ in range(n)], [g.num(0.5, 2.0) for _ in range(n)]
    ports = [(t, q) for t in "SL" for q in range(n)]
    p1, p2 = g.sample(ports, 2)
    pts = [[0., 0., 0.], [0., 0., 1.0]]
    S.mtl("a", l, c, pts=pts, ndiv=[12], r=[[0.2 if a == b else 0.0 for b in range(n)] for a in range(n)] if k % 3 else 0.0, zs=zs, zl=zl)
    x = S.objs["a"]
    x.x = x.u
    T = 400.5 * x.dt
    f_max = 0.5
    nw = nx.extract_2p_network(x, fMin=0.0, fMax=f_max, finalTime=T, p1=p1, p2=p2)
    seen = []
    for p, q in ((p1, p2), (p2, p1)):
        y = x.create_clean_copy()
        y.add_voltage_source(y.u[0 if p[0] == "S" else -1], p[1], lambda t: math.exp(-(t - 1.5) ** 2 / 0.1))
        ends = dict(zip("SL", y.add_port_probes()))
        y.run_until(T)
        f, a, b = ends[p[0]].get_incident_and_reflected_power_wave(p[1])
        _, _, d = ends[q[0]].get_incident_and_reflected_power_wave(q[1])
        seen.append([[b[m] / a[m], d[m] / a[m]] for m in range(len(f)) if 0.0 <= f[m] < f_max])
    got = [[[s[0][0], s[1][0]] for s in nw.s], [[s[1][1], s[0][1]] for s in nw.s]]
    S.same("extracted frequencies", [round(float(q), 9) for q in nw.f], [round(float(q), 9) for q in f if 0.0 <= q < f_max])
    for w, a, b in zip(("1", "2"), got, seen):
        S.frames.append({"op": "sameport", "o": "a", "a": a, "b": b, "w": "excited at port " + w})
