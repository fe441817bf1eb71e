"""Writes recorded calls in other units, or for a later time, and makes them again next to the first ones."""
import json
import replay

MARK = "~"                                  # name of the second version of an object


def vec(x, f):
    return [vec(y, f) for y in x] if isinstance(x, (list, tuple)) else float(x) * f


def arg(a, f):
    return {k: vec(x, f) for k, x in a.items()}


def wave(w, t, f):
    """a function of time with values in units of f"""
    k = w["k"]
    if k == "poly":
        return {"k": k, "c": [f * c / t ** j for j, c in enumerate(w["c"])]}
    if k == "pwl":
        return {"k": k, "pts": [[t * p[0], f * p[1]] for p in w["pts"]]}
    if k == "scaled":
        return dict(w, w=wave(w["w"], t, f))
    if k == "sum":
        return {"k": k, "ws": [wave(x, t, f) for x in w["ws"]]}
    if k == "step":
        return dict(w, a=f * w["a"], t0=t * w["t0"])
    return w


def field(f, u):
    if f["k"] == "poly":
        return dict(f, **{q: [[m[0] * u["v"] / (u["x"] ** (sum(m[1:4]) + 1) * u["t"] ** m[4])] + list(m[1:]) for m in f[q]] for q in "xyz"})
    co = lambda c: [x * u["v"] / (u["x"] * u["t"] ** j) for j, x in enumerate(c)]
    return dict(f, c=co(f["c"])) if f["k"] == "plane" else dict(f, **{q: co(f[q]) for q in "xyz"})


def impedance(a, u, f):
    return dict(a, d=a["d"] * f, e=a["e"] * f * u["t"], p=vec(a["p"], 1 / u["t"]), q=vec(a["q"], f / u["t"]))


def scaled(fr, u):
    """what spec/Units.tla calls Scaled"""
    x, t, z, v = (u[k] for k in "xtzv")
    op, a = fr["op"], fr["a"]
    if op == "mtl":
        a = dict(a, l=arg(a["l"], z * t / x), c=arg(a["c"], t / (z * x)), r=arg(a["r"], z / x), g=arg(a["g"], 1 / (z * x)),
                 zs=arg(a["zs"], z), zl=arg(a["zl"], z), pts=vec(a["pts"], x))
    elif op == "source":
        a = dict(a, pos=vec(a["pos"], x), w=wave(a["w"], t, v))
    elif op in ("res", "cond"):
        a = dict(a, a=vec(a["a"], x), b=vec(a["b"], x), val=a["val"] * (z if op == "res" else 1 / z))
    elif op == "lumped":
        a = dict(impedance(a, u, z), pos=vec(a["pos"], x))
    elif op in ("zt", "ztc"):
        a = impedance(a, u, z / x)
    elif op == "probe":
        a = dict(a, pos=vec(a["pos"], x))
    elif op == "dist":
        a = dict(a, a=vec(a["a"], x), b=vec(a["b"], x), w=wave(a["w"], t, v / x))
    elif op == "field":
        a = dict(a, f=field(a["f"], u), dist=vec(a["dist"], x), loc=vec(a["loc"], x))
    elif op == "state":
        a = {"v": vec(a["v"], v), "i": vec(a["i"], v / z)}
    elif op == "setdt":
        a = dict(a, T=a["T"] * t)
    elif op == "run":
        a = {"T": a["T"] * t, "dt": a["dt"] * t}
    elif op == "net":
        a = {"parts": [dict(p, br=[dict(b, R=b["R"] * z, L=b["L"] * z * t, C=b["C"] * t / z, w=wave(b["w"], t, v)) for b in p["br"]]) for p in a["parts"]]}
    return dict(fr, a=a)


def later(w, d):
    k = w["k"]
    if k == "pwl":
        return {"k": k, "pts": [[p[0] + d, p[1]] for p in w["pts"]]}
    if k == "scaled":
        return dict(w, w=later(w["w"], d))
    if k == "sum":
        return {"k": k, "ws": [later(x, d) for x in w["ws"]]}
    if k == "step":
        return dict(w, t0=w["t0"] + d)
    return w


def waves(fr, f):
    """the call with its functions of time replaced"""
    a = fr["a"]
    if fr["op"] in ("source", "dist"):
        a = dict(a, w=f(a["w"]))
    elif fr["op"] == "net":
        a = {"parts": [dict(p, br=[dict(b, w=f(b["w"])) for b in p["br"]]) for p in a["parts"]]}
    return dict(fr, a=a)


def plain(fr):
    return json.loads(json.dumps({k: fr[k] for k in ("op", "o", "a")}, default=lambda x: x.tolist()))


def calls(frames, singles=()):
    """the calls of a recording: those that were accepted; each run says whether it was of one step"""
    runs, out = list(singles), []
    for j, fr in enumerate(frames):
        if fr["op"] == "run":
            out.append(dict(plain(fr), lab=fr["lab"], single=runs.pop(0)))
        elif fr["op"] not in ("step", "endrun", "endwalk", "flag", "rel", "same") and fr.get("exc", "") == "":
            out.append(plain(fr))
    return out


def renamed(c, mark):
    if not mark:
        return c
    a, nm = c["a"], lambda x: x + mark
    op = c["op"]
    if op == "bundle":
        a = dict(a, name=nm(a["name"]), levels=[[{"name": nm(x["name"]), "o": nm(x["o"])} for x in lv] for lv in a["levels"]])
    elif op == "net":
        a = {"parts": [dict(p, nodes=[dict(q, line=nm(q["line"]), bundle=nm(q["bundle"])) for q in p["nodes"]]) for p in a["parts"]]}
    elif op == "system":
        a = {"bundles": [nm(x) for x in a["bundles"]], "nets": [nm(x) for x in a["nets"]]}
    elif op == "addbundle":
        a = {"b": nm(a["b"])}
    elif op == "addnet":
        a = {"net": nm(a["net"])}
    elif op == "copy":
        a = {"of": nm(a["of"])}
    return dict(c, o=nm(c["o"]), a=a)


def again(S, cs, mark=MARK, before_run=None):
    """makes the calls (renamed); runs keep their labels (renamed)"""
    for c in cs:
        c = renamed(c, mark)
        if c["op"] != "run":
            replay.make(S, c)
            continue
        if before_run is not None:
            before_run(c["o"], c["a"]["dt"])
        if c["single"]:
            S.run(c["o"], c["a"]["T"], c["a"]["dt"], lab=c["lab"] + mark, single=True)
        else:
            if not all(b in S.watched for b in S.parts(c["o"])):
                S.watch(c["o"])
            S.run(c["o"], c["a"]["T"], c["a"]["dt"], lab=c["lab"] + mark)


def labels(cs):
    """label -> object of its runs, in order"""
    out = {}
    for c in cs:
        if c["op"] == "run":
            out.setdefault(c["lab"], c["o"])
    return out


def stiff(cs):
    """ideal connections are conductances of 1e10"""
    ks = {b["k"] for c in cs if c["op"] == "net" for p in c["a"]["parts"] for b in p["br"]}
    return 1e-5 if ks & {"short", "shortn"} else 1e-7


def compare(S, clause, cs, fv=1.0, fi=1.0, tol=None, mark=MARK):
    """the second version goes as the first, voltages times fv, currents times fi"""
    for lab, o in labels(cs).items():
        a = [(b, r) for b in S.parts(o) for r in range(S.objs[b].v.shape[0])]
        b = [(x + mark, r) for x, r in a]
        terms = [(lab, fv, a), (lab + mark, -1.0, b)]
        S.lin(clause, terms, tol or stiff(cs), "run %s of %s" % (lab, o), fi=(fi, -1.0))
