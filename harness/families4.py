"""Mixed scenarios: lines and systems that use everything at once, for every property decided step by step."""
import math
import gen
from gen import Z, line, bundle, terminate, rest_state, run_some, cells, branch, side_nodes, levels
from families import FAM, family, junction_branches
from families2 import mid, multi_branches, random_zt, poly_field, distances, moving_field, PROBES
from rec import ALL


def add_losses(S, g, o, n, times, ends=0.5):
    u = S.objs[o].u.tolist()
    N = len(u) - 1
    for _ in range(times):
        j = sorted([g.randint(0, N), g.randint(0, N)])
        if g.random() < ends:                       # at one end only
            j = g.choice([[0, 0], [N, N], [0, 1], [N - 1, N]])
        f = S.res if g.random() < 0.4 else S.cond
        f(o, u[j[0]], u[j[1]], g.randrange(n), g.pos(), point=(j[0] == j[1] and g.random() < 0.5))


def add_lumped(S, g, o, n, times, dt):
    u = S.objs[o].u.tolist()
    for _ in range(times):
        kind = g.randrange(4)
        p, q = g.poles(dt) if kind in (2, 3) else ([], [])
        d = g.pos() if kind in (0, 3) or not p and kind == 2 else 0.0
        S.lumped(o, mid(u, g.randrange(len(u) - 1), g.choice([0.0, 0.1, 0.4])), g.randrange(n), d, g.pos() if kind in (1, 3) else 0.0,
                 p, q, valid=False)


def some_field(S, g, o, n, N):
    f = moving_field(g) if g.random() < 0.25 else poly_field(g, 1)
    u = S.objs[o].u.tolist()
    loc = ()
    if g.random() < 0.3:
        j = sorted(g.sample(range(N + 1), 2))
        loc = (u[j[0]], u[j[1]])
    S.field(o, f, distances(g, n, N, g.random() < 0.3), loc)


def mix_line(S, g, k):
    n = 1 + k % 4 if k % 4 < 3 else 2
    line(S, g, "a", n=n)
    u = S.objs["a"].u.tolist()
    N = len(u) - 1
    jobs = ["loss"] * g.randint(0, 2) + ["lump"] * g.randint(0, 2) + ["src"] * g.randint(0, 3)
    jobs += ["field"] * (g.random() < 0.35) + ["dt"] * (g.random() < 0.35) + ["probe"] * g.randint(0, 2)
    g.shuffle(jobs)
    alive = ["a"]

    def do(j, o):
        if j == "loss":
            add_losses(S, g, o, n, 1)
        elif j == "lump":
            add_lumped(S, g, o, n, 1, S.objs[o].dt)
        elif j == "src":
            S.source(o, g.choice([u[0], u[-1]]), g.randrange(n), g.wave())
        elif j == "field":
            some_field(S, g, o, n, N)
        elif j == "dt":
            m = g.choice([3, 8])
            S.setdt(o, S.objs[o].dt * g.num(0.4, 0.95) * m, m)
        elif j == "probe":
            S.probe(o, "p%d" % len(S.frames), g.on_line(u), g.choice(["voltage", "current"]))
    for j in jobs:
        do(j, "a")
    if g.random() < 0.75:
        S.state("a", *g.state(n, N))
    run_some(S, g, "a", g.randint(1, 3))
    if g.random() < 0.25:
        S.copy("b", "a")
        if g.random() < 0.5:
            S.state("b", *g.state(n, N))
        alive.append("b")
    for r in range(g.randint(0, 2)):
        o = g.choice(alive)
        do(g.choice(["loss", "src", "dt", "loss", "lump"]), o)
        run_some(S, g, o, g.randint(1, 2), multi=False)


def mix_system(S, g, k):
    m = 1 + k % 3
    levs = [levels(g, 3 if m == 1 else 2, 2, 2) for _ in range(m)]
    if k % 2 and all(len(x) == 1 for x in levs):
        levs[0].append([g.randint(1, 2) for _ in range(g.randint(1, 2))])
    joined = m > 1 and g.random() < 0.6
    bs, nets, jn, netless = [], [], [], []
    for b in range(m):
        B, lev = "BDE"[b], levs[b]
        geo = g.line(maxseg=2, maxdiv=2)
        N = sum(geo[1])
        names = [["%s_%d%s" % (B, a, "pqrs"[j]) for j in range(len(x))] for a, x in enumerate(lev)]
        for x, ns in zip(lev, names):
            for n, nm in zip(x, ns):
                line(S, g, nm, n, geo, scalar=False)
                if g.random() < 0.3:
                    S.setdt(nm, S.objs[nm].dt * g.num(0.4, 0.95) * 8, 8)
                add_losses(S, g, nm, n, g.choice([0, 0, 1, 2]))
                add_lumped(S, g, nm, n, g.choice([0, 0, 1]), 0.3)
        S.bundle(B, names)
        tot, n0 = sum(map(sum, lev)), sum(lev[0])
        u = S.objs[B].u.tolist()
        used = set()
        if len(lev) > 1:
            for _ in range(g.randint(0, 2)):
                random_zt(S, g, B, lev, 0.3, used=used)
            for side in ("initial", "end"):
                if g.random() < 0.25:
                    random_zt(S, g, B, lev, 0.3, side=side)
        add_losses(S, g, B, tot, g.choice([0, 0, 1]))
        for _ in range(g.choice([0, 0, 1, 2])):
            ka = g.randrange(N)
            kb = g.randint(ka, N - 1)
            S.dist(B, mid(u, ka, g.choice([0.0, 0.3])), mid(u, kb, g.choice([1.0, 0.6])), g.randrange(tot), g.wave())
        if g.random() < 0.25:
            some_field(S, g, B, n0, N)
        near = g.choice("SL")
        for side in "SL":
            if joined and side == near:
                jn += side_nodes(g, B, names, lev, 0, side, start=1 + 10 * b)
                rest = list(range(1, len(lev)))
            else:
                rest = list(range(len(lev)))
            parts = []
            for lv in rest:
                nodes = side_nodes(g, B, names, lev, lv, side, start=g.choice([0, 1, 5]))
                br = multi_branches(g, nodes, 0.4)
                g.shuffle(br)
                parts.append({"level": lv, "nodes": by_lines(g, nodes), "br": br})
            if parts:
                g.shuffle(parts)
                S.net(B + side, parts, style=g.randint(0, 3))
                nets.append(B + side)
        if g.random() < 0.3:
            S.probe(B, "p" + B, g.on_line(u), g.choice(["voltage", "current"]))
        if g.random() < 0.75:
            rest_state(S, g, B)
        bs.append(B)
    if joined:
        br = junction_branches(g, [q["id"] for q in jn], g.choice([0.0, 0.4]), 0.4)
        S.net("J", [{"level": 0, "nodes": by_lines(g, jn), "br": br}])
        nets.append("J")
    bs2 = g.sample(bs, len(bs))
    g.shuffle(nets)
    S.system("M", bs2, nets, how=k % 3)
    lim = S.objs["M"].dt
    dt = g.choice([0.0, 0.0, 0.8]) * lim
    run_some(S, g, "M", g.randint(2, 3), dt)
    if g.random() < 0.5:
        dt = g.choice([0.0, 0.6]) * lim
        run_some(S, g, "M", 1, dt, multi=False)


def by_lines(g, nodes):
    by = {}
    for q in nodes:
        by.setdefault((q["bundle"], q["line"]), []).append(q)
    ks = list(by)
    g.shuffle(ks)
    return [q for y in ks for q in g.sample(by[y], len(by[y]))]


for _p in ("C01", "C02", "C07", "C09", "C10", "C16", "C17", "C19"):
    family(_p, 32, 300, PROBES if _p in ("C07", "C09") else ())(mix_line)
for _p in ("C01", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"):
    family(_p, 24, 240)(mix_system)
