"""C26: calls take their arguments by value."""
from gen import Z, line, bundle, closed_bundle, terminate, rest_state, run_some, cells, levels
from families import family
from families2 import mid, poly_field, distances, PROBES
from families4 import mix_line, mix_system, add_losses, add_lumped

WAYS = ("poison", "shared")
ACT = ("arguments kept",)
family("C26", 32, 240, ACT, WAYS)(mix_line)
family("C26", 32, 240, ACT, WAYS)(mix_system)


@family("C26", 24, 200, ACT, ("shared", "shared", "poison"))
def c26_twins(S, g, k):
    """lines built from the same arrays, then changed one after the other"""
    n = 1 + k % 3
    geo = g.line()
    l, c, r, gg = g.spd(n, False), g.spd(n, True), g.lossm(n), g.lossm(n)
    zs, zl = g.ends(n), g.ends(n)
    names = ["a", "b", "c"][:2 + k % 2]
    for o in names:
        S.mtl(o, l, c, pts=geo[0], ndiv=geo[1], r=r, g=gg, zs=zs, zl=zl, form=g.choice(["", "a"]) if k % 4 else "a")
    u = S.objs["a"].u.tolist()
    place = mid(u, g.randrange(len(u) - 1), 0.1)
    p, q = g.poles(S.objs["a"].dt)
    for o in g.sample(names, len(names)):
        for _ in range(g.randint(1, 3)):
            j = g.randrange(5)
            if j == 0:
                add_losses(S, g, o, n, 1)
            elif j == 1:
                S.lumped(o, place, g.randrange(n), 1.5, 0.5, p, q, valid=False)
            elif j == 2:
                S.source(o, g.choice([u[0], u[-1]]), g.randrange(n), g.wave())
            elif j == 3:
                S.state(o, *g.state(n, len(u) - 1))
            else:
                S.probe(o, "p%d" % len(S.frames), place, "voltage")
    for o in g.sample(names, len(names)):
        run_some(S, g, o, 2)
    o = g.choice(names)
    add_losses(S, g, o, n, 1)
    for o in g.sample(names, len(names)):
        run_some(S, g, o, 1, multi=False)


@family("C26", 24, 200, ACT, WAYS)
def c26_members(S, g, k):
    """what happens to a line after a bundle was made of it does not reach the bundle, nor the other way round"""
    lev = levels(g, 3, 2, 2)
    geo = g.line(maxseg=2, maxdiv=3)
    names = [["B_%d%s" % (a, "pqrs"[j]) for j in range(len(x))] for a, x in enumerate(lev)]
    size = {}
    for x, ns in zip(lev, names):
        for n, nm in zip(x, ns):
            line(S, g, nm, n, geo, scalar=False)
            size[nm] = n
            add_lumped(S, g, nm, n, g.choice([0, 1]), 0.3)
    two = k % 3 == 0
    for b in ["B", "D"][:1 + two]:
        S.bundle(b, names)
    u = S.objs["B"].u.tolist()
    N = len(u) - 1

    def disturb(nm):
        n = size[nm]
        j = g.randrange(6)
        if j == 0:
            add_losses(S, g, nm, n, 1)
        elif j == 1:
            add_lumped(S, g, nm, n, 1, 0.3)
        elif j == 2:
            S.state(nm, *g.state(n, N))
        elif j == 3:
            S.setdt(nm, S.objs[nm].dt * 4.0, 8)
        elif j == 4:
            S.source(nm, u[0], g.randrange(n), g.wave())
        else:
            run_some(S, g, nm, 1, multi=False)
    nets = []
    for side in "SL":
        terminate(S, g, "B" + side, "B", names, lev, side, src=0.5)
        nets.append("B" + side)
    for nm in g.sample(list(size), min(2, len(size))):
        disturb(nm)
    if k % 2:
        add_losses(S, g, "B", sum(size.values()), 2)
    rest_state(S, g, "B")
    S.system("M", ["B"], nets, how=k % 3)
    run_some(S, g, "M", 2)
    nm = g.choice(list(size))
    disturb(nm)
    disturb(nm)
    run_some(S, g, "M", 1, multi=False)
    run_some(S, g, nm, 1, multi=False)
    if two:                                   # the other bundle of the same lines has seen nothing of all that
        for side in "SL":
            terminate(S, g, "D" + side, "D", names, lev, side, src=0.5)
        S.system("W", ["D"], ["DS", "DL"], how=k % 3)
        rest_state(S, g, "D")
        run_some(S, g, "W", 2)


@family("C26", 12, 100, ACT, ("shared",))
def c26_waves(S, g, k):
    """one field for several lines of different speeds"""
    f = {"k": "plane", "c": [g.num(-2, 2, 16) for _ in range(3)], "polar": g.num(0.2, 2.8), "azimuth": g.num(0.2, 6.0), "pol": g.num(0.0, 3.0)} \
        if k % 2 == 0 else poly_field(g, 1)
    names = ["a", "b", "c"][:2 + k % 2]
    for o in names:
        line(S, g, o, 1 + g.randrange(2), g.line(maxseg=2, maxdiv=2), scalar=False)
    same = g.random() < 0.5
    d = {}
    for o in names:
        n, N = S.objs[o].v.shape[0], cells(S, o)
        if same:
            d.setdefault((n, N), distances(g, n, N, False))
        S.field(o, f, d[(n, N)] if same else distances(g, n, N, g.random() < 0.3))
    for o in g.sample(names, len(names)):
        run_some(S, g, o, 2)
