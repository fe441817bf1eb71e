"""Random ingredients of scenarios: seeded, with short binary fractions so that exact numbers stay small."""
import math
import random

Z = {"k": "zero"}


def open_line(pts, m=12):
    ps, arc = [], 0.0
    for a, b in zip(pts, pts[1:]):
        L = math.dist(a, b)
        for j in range(m):
            ps.append((arc + L * j / m, [x + (y - x) * j / m for x, y in zip(a, b)]))
        arc += L
    ps.append((arc, list(pts[-1])))
    return all(math.dist(p[1], q[1]) >= 0.2 * abs(p[0] - q[0]) for j, p in enumerate(ps) for q in ps[:j])


class G(random.Random):
    def num(self, lo, hi, q=64):
        return round(self.uniform(lo, hi) * q) / q

    def pos(self, lo=0.25, hi=2.0):
        return max(1 / 64, self.num(lo, hi))

    def spd(self, n, neg=None):
        m = [[0.0] * n for _ in range(n)]
        for a in range(n):
            m[a][a] = self.pos(0.75, 2.0)
        for a in range(n):
            for b in range(a):
                x = self.num(0.0, 0.6 / max(1, n - 1)) * (1 if neg is None and self.random() < 0.5 else -1 if neg is None or neg else 1)
                m[a][b] = m[b][a] = x
        return m

    def lossm(self, n, kind=None):
        kind = kind or self.choice(["zero", "diag", "full", "full"])
        if kind == "zero":
            return [[0.0] * n for _ in range(n)]
        if kind == "diag":
            return [[self.num(0, 0.8) if a == b else 0.0 for b in range(n)] for a in range(n)]
        m = self.spd(n)
        s = self.choice([0.125, 0.25, 0.5])
        return [[x * s for x in r] for r in m]

    def lossy(self, n):
        """matrix, or a scalar where one is allowed"""
        if self.random() < 0.3:
            return 0.0
        if n == 1 and self.random() < 0.5:
            return self.num(0, 0.8)
        return self.lossm(n)

    def lc(self, n):
        if n == 1 and self.random() < 0.5:
            return self.pos(), self.pos()
        return self.spd(n, False), self.spd(n, True)

    def point(self, r=2.0):
        return [self.num(-r, r, 8) for _ in range(3)]

    def line(self, maxseg=3, maxdiv=3, straight=None):
        """polyline that does not come back to itself (the node nearest to a position is clear)"""
        while True:
            out = self.polyline(maxseg, maxdiv, straight)
            if open_line(out[0]):
                return out

    def polyline(self, maxseg, maxdiv, straight):
        """polyline with equal or unequal cells: (points, divisions, form)"""
        k = self.random()
        if straight or (straight is None and k < 0.2):
            L = self.num(0.5, 3.0, 8) or 1.0
            return [[0.0, 0.0, 0.0], [0.0, 0.0, L]], [self.randint(2, 6)], "z"
        if k < 0.4:                       # axis aligned
            p = self.point()
            pts, nd = [p], []
            for _ in range(self.randint(1, maxseg)):
                ax = self.randrange(3)
                d = self.num(0.25, 1.5, 8) * self.choice([1, -1])
                q = list(pts[-1])
                q[ax] += d
                if len(pts) > 1 and q == pts[-2]:
                    q[ax] -= 3 * d
                pts.append(q)
                nd.append(self.randint(1, maxdiv))
            if sum(nd) < 2:
                nd[0] = 2
            return pts, nd, ""
        pts, nd = [self.point()], []
        for _ in range(self.randint(1, maxseg)):
            while True:
                d = [self.num(-1, 1, 8) for _ in range(3)]
                if sum(x * x for x in d) > 0.2:
                    break
            pts.append([a + b for a, b in zip(pts[-1], d)])
            nd.append(self.randint(1, maxdiv))
        if sum(nd) < 2:
            nd[0] = 2
        return pts, nd, ""

    def form(self):
        return self.choice(["", "a", "d", "ad", "h", "v"])

    def ends(self, n, zero=0.15):
        return [0.0 if self.random() < zero else self.num(0.25, 4.0) for _ in range(n)]

    def wave(self, span=4.0, deep=True):
        k = self.random()
        if k < 0.45:
            return {"k": "poly", "c": [self.num(-2, 2, 16) for _ in range(self.randint(1, 3))]}
        if k < 0.8 or not deep:
            ts = sorted({self.num(-0.3, span, 256) + 0.001953125 for _ in range(self.randint(2, 4))})
            if len(ts) < 2:
                ts = [0.101953125, 1.301953125]
            return {"k": "pwl", "pts": [[t, self.num(-2, 2, 16)] for t in ts]}
        if k < 0.9:
            return {"k": "scaled", "f": self.num(-2, 2, 16), "w": self.wave(span, False)}
        return {"k": "sum", "ws": [self.wave(span, False), self.wave(span, False)]}

    def state(self, n, N, ends=True):
        v = [[self.num(-2, 2, 16) for _ in range(N + 1)] for _ in range(n)]
        i = [[self.num(-2, 2, 16) for _ in range(N)] for _ in range(n)]
        if not ends:
            for r in v:
                r[0] = r[-1] = 0.0
            for r in i:
                r[0] = r[-1] = 0.0
        return v, i

    def poles(self, dt, real=None, pairs=None):
        """poles p with 0.05 < |p dt| < 2.5; complex ones in conjugate pairs; residues alike"""
        real = self.randint(0, 2) if real is None else real
        pairs = self.randint(0, 1) if pairs is None else pairs
        p, q = [], []
        for _ in range(real):
            p.append([-self.num(0.1, 2.0) / dt, 0.0])
            q.append([self.num(0.1, 1.5) / dt, 0.0])
        for _ in range(pairs):
            a, b = -self.num(0.1, 1.0) / dt, self.num(0.2, 1.5) / dt
            c, d = self.num(0.1, 1.0) / dt, self.num(-0.5, 0.5) / dt
            p += [[a, b], [a, -b]]
            q += [[c, d], [c, -d]]
        return p, q

    def on_line(self, u, tie=0.1):
        """a point of the line, away from the middle of its cells (nearest node well defined)"""
        k = self.randrange(len(u) - 1)
        while True:
            s = self.choice([0.0, 1.0, self.num(0.02, 0.98)])
            if abs(s - 0.5) > tie:
                break
        p = [float(a + s * (b - a)) for a, b in zip(u[k], u[k + 1])]
        if s == 0.0:
            p = [float(x) for x in u[k]]
        if s == 1.0:
            p = [float(x) for x in u[k + 1]]
        return p


# ------------------------------------------------------------ composite pieces
def line(S, g, name, n=None, geo=None, losses=True, ends=None, scalar=True, valid=True):
    n = n or g.randint(1, 3)
    pts, nd, f = geo or g.line()
    l, c = g.lc(n) if scalar else (g.spd(n, False), g.spd(n, True))
    zs, zl = ends or (g.ends(n), g.ends(n))
    r = g.lossy(n) if losses else 0.0
    gg = g.lossy(n) if losses else 0.0
    S.mtl(name, l, c, pts=pts, ndiv=nd, r=r, g=gg, zs=zs, zl=zl, form=f + g.form(), valid=valid)
    return n


def cells(S, name):
    return S.objs[name].i.shape[1]


def levels(g, maxlev=3, maxlines=2, maxn=2):
    """conductors of each line of each level"""
    out = [[g.randint(1, maxn)]]
    for _ in range(g.randint(0, maxlev - 1)):
        out.append([g.randint(1, maxn) for _ in range(g.randint(1, maxlines))])
    return out


def bundle(S, g, name, lev, geo=None, losses=True, lines=None, prefix=None):
    """lines named <bundle><level><index>; returns list of levels of line names"""
    geo = geo or g.line()
    prefix = prefix or name
    names = [["%s_%d%s" % (prefix, a, "pqrs"[b]) for b in range(len(x))] for a, x in enumerate(lev)]
    for x, ns in zip(lev, names):
        for n, nm in zip(x, ns):
            line(S, g, nm, n, geo, losses, scalar=False)
    S.bundle(name, names)
    return names


BRANCHES = ["R", "R", "C", "LCpRs", "short"]


def branch(g, a, kind=None, src=0.5, b=0):
    k = kind or g.choice(BRANCHES)
    x = {"k": k, "a": a, "b": b, "R": g.pos(0.25, 4.0), "L": g.pos(0.25, 3.0), "C": g.pos(0.25, 3.0), "w": dict(Z)}
    if k != "short" and k != "shortn" and g.random() < src:
        x["w"] = g.wave()
    return x


def side_nodes(g, bundle_, names, lev, level, side, start=1, shuffle=True):
    """nodes of all conductors of a level on one side, with arbitrary distinct numbers"""
    nodes = []
    for nm, n in zip(names[level], lev[level]):
        for c in range(n):
            nodes.append({"line": nm, "bundle": bundle_, "side": side, "cond": c})
    ids = list(range(start, start + len(nodes)))
    if shuffle:
        g.shuffle(ids)
    for nd, k in zip(nodes, ids):
        nd["id"] = k
    return nodes


def terminate(S, g, net, bundle_, names, lev, side, kinds=None, src=0.5, style=None, order=True):
    parts = []
    for level in range(len(lev)):
        nodes = side_nodes(g, bundle_, names, lev, level, side)
        br = [branch(g, nd["id"], g.choice(kinds) if kinds else None, src) for nd in nodes]
        if order:
            g.shuffle(br)
            blocks = {}
            for nd in nodes:
                blocks.setdefault(nd["line"], []).append(nd)
            ks = list(blocks)
            g.shuffle(ks)
            for k in ks:
                g.shuffle(blocks[k])
            nodes = [nd for k in ks for nd in blocks[k]]
        parts.append({"level": level, "nodes": nodes, "br": br})
    if order:
        g.shuffle(parts)
    S.net(net, parts, style=g.randint(0, 1) if style is None else style)


def closed_bundle(S, g, name, lev=None, geo=None, losses=True, kinds=None, src=0.5, prefix=None):
    """a bundle with both sides terminated; returns names, nets"""
    lev = lev or levels(g)
    names = bundle(S, g, name, lev, geo, losses, prefix=prefix)
    for side in "SL":
        terminate(S, g, name + side, name, names, lev, side, kinds, src)
    return names, lev, [name + "S", name + "L"]


def rest_state(S, g, name, ends=False):
    x = S.objs[name]
    v, i = g.state(x.v.shape[0], x.i.shape[1], ends)
    S.state(name, v, i)


def run_some(S, g, o, n=None, dt=0.0, multi=None):
    """n steps, all observed: as one run (probes everywhere) or as runs of one step"""
    n = n or g.randint(2, 4)
    h = dt or S.objs[o].dt
    multi = g.random() < 0.5 if multi is None else multi
    if multi:
        if not all(b in S.watched for b in S.parts(o)):
            S.watch(o)
        return S.run(o, (n + 0.5) * h, dt)
    return S.steps(o, n, dt)
