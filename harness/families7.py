"""Larger scenarios than the others: more conductors, cells, elements, levels, lines, bundles, nodes, poles and steps."""
import gen
from gen import Z, line, terminate, rest_state, run_some, cells, branch, side_nodes
from families import family, junction_branches
from families2 import mid, multi_branches, random_zt, PROBES
from families4 import add_losses, add_lumped, some_field, by_lines


def dress(S, g, o, n, sources=2, losses=2, lumps=2, probes=2, fields=0):
    """calls in any order; repeated places included"""
    u = S.objs[o].u.tolist()
    N = len(u) - 1
    few = [g.on_line(u) for _ in range(2)]

    def src(): S.source(o, g.choice([u[0], u[-1]]), g.randrange(n), g.wave())
    def loss(): add_losses(S, g, o, n, 1, 0.2)
    def lump(): add_lumped(S, g, o, n, 1, S.objs[o].dt)
    def probe(): S.probe(o, "p%d" % len(S.frames), g.choice(few) if g.random() < 0.5 else g.on_line(u), g.choice(["voltage", "current"]))
    def fld(): some_field(S, g, o, n, N)
    jobs = [src] * sources + [loss] * losses + [lump] * lumps + [probe] * probes + [fld] * fields
    g.shuffle(jobs)
    for j in jobs:
        j()


def winding(g, m, top):
    """many segments, all with cells of different lengths"""
    while True:
        pts = [g.point()]
        for _ in range(m):
            pts.append([a + b for a, b in zip(pts[-1], [g.num(0.25, 1.5, 8), g.num(-1, 1, 8), g.num(-1, 1, 8)])])
        if gen.open_line(pts):
            return pts, [g.randint(2, top) for _ in range(m)], ""


def big_line(S, g, k):
    kind = k % 4
    if kind == 0:                                # many conductors
        n = line(S, g, "a", g.randint(5, 7), g.line(maxseg=2, maxdiv=2), scalar=False)
        dress(S, g, "a", n, 4, 2, 2, 2, g.randrange(2))
    elif kind == 1:                              # many cells
        n = line(S, g, "a", g.randint(1, 2), winding(g, g.randint(6, 12), 8), scalar=False)
        dress(S, g, "a", n, 2, 3, 4, 4, 0)
    elif kind == 2:                              # many elements, most of them at places that others have
        n = line(S, g, "a", g.randint(2, 3), g.line(maxseg=2, maxdiv=2), scalar=False)
        dress(S, g, "a", n, 8, 6, 6, 8, g.randint(0, 2))
    else:                                        # many poles, several elements each
        n = line(S, g, "a", 2, g.line(maxseg=2, maxdiv=2), scalar=False)
        u = S.objs["a"].u.tolist()
        for j in range(3):
            p, q = g.poles(S.objs["a"].dt, g.choice([0, 3, 5]), g.choice([1, 2, 3]))
            S.lumped("a", mid(u, g.randrange(len(u) - 1), 0.1), g.randrange(2), g.choice([0.0, g.pos()]), g.choice([0.0, g.pos()]), p, q, valid=False)
        dress(S, g, "a", n, 2, 1, 0, 1, 0)
    if g.random() < 0.7:
        S.state("a", *g.state(n, cells(S, "a")))
    run_some(S, g, "a", 2 if kind < 2 else 4)
    for _ in range(g.choice([0, 3])):
        run_some(S, g, "a", 1, multi=False)


NAMES = [["x", "x1", "x11", "1x"], ["line", "line_1", "line_10", "ine"], ["a", "aa", "A", "aaa"], ["w", "w ", "w w", "W"]]


def big_system(S, g, k):
    kind = k % 4
    m = 4 if kind == 2 else 1
    joined = kind == 2
    bs, nets, jn = [], [], []
    for b in range(m):
        B = ["B", "B1", "B12", "b"][b]
        if kind == 0:                            # a nest of shields
            lev = [[1]] + [[1] for _ in range(g.randint(3, 4))]
        elif kind == 1:                          # many lines side by side
            lev = [[g.randint(1, 2)], [g.randint(1, 2) for _ in range(4)]] + ([[1, 1]] if g.random() < 0.5 else [])
        else:
            lev = [[g.randint(1, 2)]]
        geo = g.line(maxseg=2, maxdiv=2) if kind < 3 else winding(g, g.randint(4, 8), 4)   # many cells
        N = sum(geo[1])
        pool = g.choice(NAMES)
        names = [["%s_%d%s" % (B, a, pool[j]) for j in range(len(x))] for a, x in enumerate(lev)]
        for x, ns in zip(lev, names):
            for n, nm in zip(x, ns):
                line(S, g, nm, n, geo, scalar=False)
                add_losses(S, g, nm, n, g.choice([0, 1]), 0.2)
                add_lumped(S, g, nm, n, g.choice([0, 0, 1]), 0.3)
        S.bundle(B, names)
        tot = sum(map(sum, lev))
        u = S.objs[B].u.tolist()
        used = set()
        for _ in range(0 if len(lev) == 1 else 5):
            random_zt(S, g, B, lev, 0.3, used=used)
        add_losses(S, g, B, tot, 2, 0.2)
        for _ in range(2):
            ka = g.randrange(N)
            S.dist(B, mid(u, ka, 0.3), mid(u, g.randint(ka, N - 1), 0.6), g.randrange(tot), g.wave())
        near = g.choice("SL")
        for side in "SL":
            if joined and side == near:
                jn += side_nodes(g, B, names, lev, 0, side, start=1 + 10 * b)
                continue
            parts = []
            for lv in range(len(lev)):
                nodes = side_nodes(g, B, names, lev, lv, side, start=g.choice([0, 1, 95]))
                br = multi_branches(g, nodes, 0.5)
                g.shuffle(br)
                parts.append({"level": lv, "nodes": by_lines(g, nodes), "br": br})
            g.shuffle(parts)
            S.net(B + side, parts, style=g.randint(0, 3))
            nets.append(B + side)
        rest_state(S, g, B)
        bs.append(B)
    if joined:
        br = junction_branches(g, [q["id"] for q in jn], g.choice([0.0, 0.3]), 0.4)
        S.net("J", [{"level": 0, "nodes": by_lines(g, jn), "br": br}])
        nets.append("J")
    g.shuffle(bs)
    g.shuffle(nets)
    S.system("M", bs, nets, how=k % 3)
    for _ in range(g.choice([1, 3])):
        run_some(S, g, "M", 2 if m < 4 else 1)


def long_line(S, g, k):
    """the steps after a long run, and after many short ones"""
    n = line(S, g, "a", 1 + k % 2, g.line(maxseg=2, maxdiv=2), scalar=False)
    dress(S, g, "a", n, 2, 1, 0, 1, 0)
    m = g.choice([150, 1000, 3000])
    S.run("a", (m + 0.5) * S.objs["a"].dt)
    run_some(S, g, "a", 2)
    for _ in range(g.choice([0, 12])):
        run_some(S, g, "a", 1, multi=False)


def long_line_all(S, g, k):
    """every step of a longer run of a line with memory"""
    n = line(S, g, "a", 1, ([[0.0, 0.0, 0.0], [0.0, 0.5, 1.0]], [2], ""), scalar=False)
    dress(S, g, "a", n, 1, 1, 2, 1, 0)
    run_some(S, g, "a", 60, multi=k % 2 == 0)


def long_system(S, g, k):
    lev = [[1], [1]] if k % 2 else [[2]]
    names = gen.bundle(S, g, "B", lev, g.line(maxseg=1, maxdiv=2))
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, kinds=["R"] if k % 3 else ["R", "C", "LCpRs"])
    S.system("M", ["B"], ["BS", "BL"])
    if k % 3:
        S.run("M", (g.choice([200, 1500]) + 0.5) * S.objs["M"].dt)
        run_some(S, g, "M", 2)
    else:
        run_some(S, g, "M", 40, multi=True)


for _p in ("C01", "C02", "C08", "C16", "C17"):
    family(_p, 12, 120, PROBES)(big_line)
for _p in ("C09", "C11", "C12", "C14", "C15", "C18"):
    family(_p, 8, 88)(big_system)
for _p in ("C01", "C09", "C06"):
    family(_p, 6, 40, PROBES)(long_line)
family("C16", 4, 24)(long_line_all)
for _p in ("C09", "C11"):
    family(_p, 6, 40)(long_system)
