"""Steps made one by one after a run: time, laws and probe records go on as they do in a run."""
from gen import line, closed_bundle, rest_state, cells, levels
from families import family
from families2 import loaded_line, PROBES


def walking(S, g, k):
    if k % 2:
        n = 1 + k % 3
        geo = g.line(maxseg=2, maxdiv=3)
        loaded_line(S, g, "a", n, geo, g.state(n, sum(geo[1])))
        root, parts = "a", ["a"]
    else:
        lev = levels(g, 2, 2, 2)
        closed_bundle(S, g, "B", lev, geo=g.line(maxseg=2, maxdiv=2), prefix="B")
        rest_state(S, g, "B")
        if len(lev) > 1:
            S.zt("B", 0, [0], 1, [0], g.choice(["in", "out", "both"]), g.pos(), g.pos(), *g.poles(0.3))
        S.system("M", ["B"], ["BS", "BL"], how=k % 3)
        root, parts = "M", ["B"]
    m = [0]

    def probes():
        for _ in range(g.randint(0, 2)):
            b = g.choice(parts)
            u = S.objs[b].u.tolist()
            S.probe(b, "p%d" % m[0], g.choice([u[0], u[-1], g.on_line(u), g.on_line(u)]), g.choice(["voltage", "current"]))
            m[0] += 1
    S.watch(root)
    for r in range(g.randint(1, 2)):
        probes()
        h = S.objs[root].dt
        if k % 5 == 4 and root == "M":
            h = h * g.num(0.4, 0.9)
            lab = S.run(root, (g.randint(0, 3) + g.num(0.1, 0.9)) * h, h)
        else:
            lab = S.run(root, (g.randint(0, 3) + g.num(0.1, 0.9)) * h)
        for _ in range(g.randint(1, 3)):
            probes()
            if root == "a" and g.random() < 0.3:
                u = S.objs["a"].u.tolist()
                S.source("a", g.choice([u[0], u[-1]]), g.randrange(S.objs["a"].v.shape[0]), g.wave())
            S.walk(root, g.randint(1, 4), lab)


family("C08", 24, 200, PROBES + ["final"])(walking)
family("C09", 16, 140)(walking)


NEAR = [1e-6, 1e-3, 0.02, 0.1, 0.499, 0.5, 0.501, 0.9, 0.98, 0.999, 1 - 1e-6]


def counts(S, g, k):
    """how many steps fit: a hair more or less than whole numbers of steps, exactly whole numbers, many of them"""
    if k % 2:
        line(S, g, "a", 1, ([[0.0, 0.0, 0.0], [0.0, 0.0, g.pos()]], [g.randint(1, 2)], ""))
        root = "a"
        h0 = S.objs["a"].dt
    else:
        m = g.randint(1, 2)
        for b in range(m):
            closed_bundle(S, g, "BD"[b], [[1]], geo=g.line(maxseg=1, maxdiv=1), prefix="BD"[b])
        S.system("M", list("BD"[:m]), [b + s for b in "BD"[:m] for s in "SL"], how=k % 3)
        root = "M"
        h0 = min(S.objs[b].dt for b in "BD"[:m])
    part = S.parts(root)[0]
    if g.random() < 0.7:
        S.probe(part, "p", S.objs[part].u[0].tolist(), g.choice(["voltage", "current"]))
    scale = 1.0
    for r in range(7):
        n = g.choice([0, 1, 1, 2, 3, 7, 10, 31, 100, 333])
        x = g.choice(NEAR)
        if r % 3 == 2:                              # a step that binary fractions hold: whole numbers fit exactly
            h = 2.0 ** -g.randint(20, 30) * g.choice([1, 3, 5, 7]) if g.random() < 0.5 else 2.0 ** -g.randint(4, 9) * g.choice([1, 3])
            h = min(h, 2.0 ** -1) * 1.0
            while h > h0:
                h /= 2
            x = g.choice([0, 0, 0, 0.25, 0.5])
            if root == "a":
                S.setdt("a", h, 1)
                S.run("a", (n + x) * h)
            else:
                S.run("M", (n + x) * h, h)
        elif root == "a":
            if r % 3 == 1:
                T = h0 * g.num(0.2, 0.95) * g.choice([1, 10, 100])
                S.setdt("a", T, 1 if T <= h0 else int(T / h0) + 1)
            S.run("a", (n + x) * S.objs["a"].dt)
        else:
            f = g.choice([0.0, g.num(0.1, 1.0)]) * h0
            S.run("M", (n + x) * (f or S.objs["M"].dt), f)


family("C09", 20, 200)(counts)
