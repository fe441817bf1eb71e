"""C27: neither the units nor the origin of time matter."""
import rec
import units
from families import family
from families4 import mix_line, mix_system


def ideal(cs):
    return any(b["k"] in ("short", "shortn") for c in cs if c["op"] == "net" for p in c["a"]["parts"] for b in p["br"])


def other_units(g, k, cs):
    """lengths stay within what the tolerances of positions allow, resistances within those of ideal connections, where there are any"""
    p = lambda a, b: 10.0 ** g.uniform(a, b)
    one = {"x": 1.0, "t": 1.0, "z": 1.0, "v": 1.0}
    if k % 5 == 0:
        return dict(one, t=p(-10, 4))
    if k % 5 == 1:
        return dict(one, x=p(-6, 6), v=p(-6, 6))
    if k % 5 == 2 and not ideal(cs):
        return dict(one, t=p(-10, 4), z=p(-9, 9), v=p(-6, 6))
    return {"x": p(-6, 6), "t": p(-10, 4), "z": p(-1.3, 1.3), "v": p(-6, 6)}


def in_other_units(mix):
    def f(S, g, k):
        mix(S, g, k)
        cs = units.calls(S.frames, S.singles)
        u = other_units(g, k, cs)
        units.again(S, [units.scaled(c, u) for c in cs])
        units.compare(S, "units", cs, u["v"], u["v"] / u["z"])
    f.__name__ = "c27_units_" + mix.__name__
    return f


def pulse(g, h):
    """zero at first"""
    ts = sorted(g.sample(range(0, 12), g.randint(2, 4)))
    return {"k": "pwl", "pts": [[(t / 2 + 0.19) * h, 0.0 if j == 0 else g.num(-2, 2, 16)] for j, t in enumerate(ts)]}


def some_time_later(mix):
    def f(S, g, k):
        D = rec.Scenario("dry", [])
        mix(D, g, k)
        h = [fr["dt"] for fr in D.frames if fr["op"] == "endrun"][0]
        cs = [c for c in units.calls(D.frames, D.singles) if c["op"] not in ("copy", "state", "field") and c["o"] != "b"]
        cs = [units.waves(c, lambda w: pulse(g, h)) for c in cs]
        first = [j for j, c in enumerate(cs) if c["op"] == "run"][0]
        if cs[first]["o"] == "a":
            p = [c for c in cs if c["op"] == "mtl"][0]["a"]
            cs.insert(first, {"op": "source", "o": "a", "a": {"pos": p["pts"][0], "cond": 0, "w": pulse(g, h)}})
        units.again(S, cs, "")
        m = g.randint(1, 6)
        d = m * [fr["dt"] for fr in S.frames if fr["op"] == "endrun"][0]
        waited = []

        def wait(o, dt):
            if not waited:
                waited.append(o)
                h = dt or S.objs[o].dt
                S.watch(o)
                S.run(o, (m + 0.5) * h, dt, lab="wait", single=False)
        # the other one has run for a while with nothing happening
        units.again(S, [units.waves(c, lambda w: units.later(w, d)) for c in cs], before_run=wait)
        units.compare(S, "later", cs)
    f.__name__ = "c27_later_" + mix.__name__
    return f


family("C27", 30, 300, ("units",))(in_other_units(mix_line))
family("C27", 24, 240, ("units",))(in_other_units(mix_system))
family("C27", 24, 200, ("later",))(some_time_later(mix_line))
family("C27", 24, 200, ("later",))(some_time_later(mix_system))
