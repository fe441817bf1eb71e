"""Models of spec/ that TLC checks for each property; the histories of those with "replay" are made on the implementation."""


def laws(quick, thorough=10, *names):
    return [{"module": "MC_Laws", "consts": {"Laws": "{%s}" % ", ".join('"%s"' % n for n in names), "K": str(k)}, "replay": True, "tiers": (t,),
             "timeout": to} for k, t, to in ((quick, "quick", 300), (thorough, "thorough", 1500))]


def more(ms):
    """only in the thorough tier"""
    return [m for m in ms if m["tiers"] == ("thorough",)]


def life(menu, quick=2, thorough=3):
    """all histories up to a depth, and random deeper ones"""
    c = lambda d: {"Menu": '"%s"' % menu, "Depth": str(d)}
    return [{"module": "MC_Life", "consts": c(quick), "replay": True, "tiers": ("quick",), "timeout": 300},
            {"module": "MC_Life", "consts": c(6), "replay": True, "walks": 8, "tiers": ("quick",), "timeout": 300},
            {"module": "MC_Life", "consts": c(thorough), "replay": True, "tiers": ("thorough",), "timeout": 2000},
            {"module": "MC_Life", "consts": c(10), "replay": True, "walks": 80, "tiers": ("thorough",), "timeout": 2000}]


def docs(notations, quick=8, thorough=60):
    """documents and their notations: random choices of each shape"""
    return [{"module": "MC_Doc", "consts": {"Shape": '"%s"' % sh, "Notations": "{%s}" % ", ".join('"%s"' % n for n in notations)}, "replay": True,
             "walks": w, "tiers": (t,), "timeout": to} for sh in ("join", "nest") for w, t, to in ((quick, "quick", 300), (thorough, "thorough", 2000))]


def base(part, quick=3, thorough=5):
    return [{"module": "MC_Base", "consts": {"Part": '"%s"' % part, "N": str(n)}, "tiers": (t,), "timeout": to}
            for n, t, to in ((quick, "quick", 300), (thorough, "thorough", 2000))]


def places(part, quick, thorough):
    return [{"module": "MC_Places", "consts": {"Part": '"%s"' % part, "N": str(n)}, "replay": True, "tiers": (t,), "timeout": to}
            for n, t, to in ((quick, "quick", 300), (thorough, "thorough", 2500))]


def args(quick=2, walks=80):
    """a caller that gives the same arrays, lists and dictionaries to several calls and changes them in between"""
    return [{"module": "MC_Args", "consts": {"Depth": str(quick)}, "replay": True, "tiers": ("quick", "thorough"), "timeout": 400},
            {"module": "MC_Args", "consts": {"Depth": "6"}, "replay": True, "walks": 10, "tiers": ("quick",), "timeout": 300},
            {"module": "MC_Args", "consts": {"Depth": "8"}, "replay": True, "walks": walks, "tiers": ("thorough",), "timeout": 2000}]


def by_value(ms):
    """the histories with arguments that are spoilt after the call, and that calls share"""
    return [dict(m, args=("poison", "shared")) for m in ms]


WAYS = ("coordinates", "prefixes", "elements", "materials", "names", "things", "cables", "networks", "pairs")


MODELS = {
    "C01": [{"module": "MC_Rat", "consts": {"N": "2"}, "tiers": ("quick",)}, {"module": "MC_Rat", "consts": {"N": "3"}, "tiers": ("thorough",)}]
           + laws(4, 10, "reverse"),
    "C02": laws(4, 10, "direct"),
    "C03": laws(4, 10, "energy lines", "energy nets"),
    "C04": life("steps"),
    "C05": laws(6, 12, "cone", "magic"),
    "C06": laws(4, 10, "sum") + life("excite"),
    "C07": base("lines") + places("lines", 2, 3),
    "C08": life("probes") + places("lines", 1, 2),
    "C09": life("steps") + life("system"),
    "C10": laws(4, 10, "copy") + life("copies"),
    "C11": laws(4, 10, "energy nets", "order") + laws(3, 8, "graphs") + laws(3, 3, "graphs 2") + more(laws(3, 3, "graphs 3")),
    "C12": laws(4, 10, "order") + laws(3, 4, "graphs 2") + more(laws(3, 3, "graphs 3")) + life("system"),
    "C13": laws(4, 10, "direct", "alone") + life("system"),
    "C14": life("bundle") + laws(3, 6, "levels") + more(laws(3, 5, "levels 3")),
    "C15": life("bundle") + base("poles") + laws(3, 5, "levels 3") + more(laws(3, 6, "levels")),
    "C16": laws(4, 10, "lumped") + base("poles"),
    "C17": life("requests") + base("lines"),
    "C18": life("bundle") + base("lines"),
    "C19": life("excite") + base("planes") + places("planes", 2, 5),
    "C20": docs(("same", "all")),
    "C21": docs(("same",) + WAYS + ("all",)),
    "C22": life("requests") + life("system"),
    "C23": base("waves") + places("waves", 4, 16),
    "C24": laws(6, 12, "reciprocal"),
    "C26": args() + by_value(life("system")[:2] + more(life("bundle") + life("excite") + life("requests"))),
    "C27": laws(3, 6, "units", "later"),
    "C25": laws(4, 10, "permute", "reverse") + more(laws(3, 5, "levels")),
}


def of(prop, tier):
    return [m for m in MODELS.get(prop, []) if tier in m["tiers"]]
