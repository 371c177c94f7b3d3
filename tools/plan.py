"""Which histories and models decide which property, and which property a violated clause belongs to."""

TREE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
        "C14", "C15", "C16", "C17", "C18", "C22"]
HUGE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C13", "C14", "C15", "C22"]
PROPS = {p: {} for p in TREE + ["C19", "C20", "C21", "C23"]}
PROPS["C21"] = {"models": 4}     # at a time

ASSUMPTIONS = [
    "element types behave additively under split and merge, empty elements have a neutral summary",
    "handles are not forged and cursors lie within their element",
]

# number of steps per shard, by tier
STEPS = {"quick": 9000, "thorough": 60000}
DEEP = {"quick": 500, "thorough": 3000}
LIGHT = {"quick": 30000, "thorough": 150000}


def jobs(prop, tier):
    """(variant, family, harness arguments, trace specification)"""
    out = []
    quick = tier == "quick"
    rounds = 1 if quick else 3

    def light(family, variants, spec, more=(), share=1.0):
        for v in variants:
            out.append((v, family, [family, *more, "--seed", "$SEED", "--steps",
                                    str(int(LIGHT[tier] * share))], spec))

    for r in range(rounds):
        if prop in TREE:
            for k in range(8):
                out.append(("small" if k < 5 else "plain", "tree",
                            ["tree", "--profile", prop, "--seed", "$SEED", "--steps", str(STEPS[tier])],
                            "GBTreeTrace"))
            for k in range(4):      # few steps on trees of many levels
                out.append(("small" if k % 2 else "plain", "tree",
                            ["tree", "--profile", prop, "--seed", "$SEED", "--steps", str(DEEP[tier]), "--deep"],
                            "GBTreeTrace"))
        if prop in TREE:            # tens of thousands of elements, on as many levels as the code can name
            for v, size in (("small", 60000), ("plain", 400000)):
                out.append((v, "scale", ["scale", "--seed", "$SEED", "--steps", "240" if quick else "600",
                                         "--size", str(size)], "StretchesTrace"))
            # the shipped fan-out needs twenty million for that
            if r == 0 and prop in (("C14", "C22") if quick else HUGE):
                out.insert(0, ("plain", "scale", ["scale", "--seed", "$SEED", "--steps", "5" if quick else "20",
                                                  "--size", "20500000"], "StretchesTrace"))
        if prop in ("C09", "C22"):
            light("rope", ["small", "plain"], "RopeTrace", share=0.5)
        if prop == "C22":
            light("map", ["small", "plain"], "OrdMapTrace", ("--kind", "both"), share=0.5)
        if prop in ("C19", "C20"):
            light("map", ["small"] * 5 + ["plain"] * 3, "OrdMapTrace",
                  ("--kind", "map" if prop == "C19" else "set"))
        if prop == "C21":
            light("rope", ["small"] * 5 + ["plain"] * 3, "RopeTrace")
        # very long texts, maps of very many keys
        few = str(160 if quick else 600)
        if prop in ("C09", "C21", "C22"):
            for v, size in (("small", 60000), ("plain", 4000000)) if prop == "C21" else (("small", 60000),):
                out.append((v, "rope", ["rope-long", "--seed", "$SEED", "--steps", few,
                                        "--size", str(size)], "LongTextTrace"))
        if prop in ("C19", "C20", "C22"):
            kind = {"C19": "map", "C20": "set"}.get(prop, "both")
            for v, size in (("small", 30000), ("plain", 150000)):
                out.append((v, "map", ["map-long", "--kind", kind, "--seed", "$SEED", "--steps", few,
                                       "--size", str(size)], "OrdStretchesTrace"))
        if prop == "C23":
            light("slice", ["plain", "smallgap", "smallgap", "gap"], "PiecesTrace", share=0.5)
            light("gap", ["smallgap", "smallgap", "gap"], "PiecesTrace", share=0.5)
    return out


ALL = ["push", "prepend", "ins", "insm", "bulk", "rm", "uplgone", "upladd", "upsgone", "upsadd",
       "drain", "upd", "uplr"]
# the operations of the models a property is about
ABOUT = {"C01": ["push", "prepend", "ins"], "C02": ["insm", "bulk"], "C03": ["drain"], "C04": ["rm"],
         "C05": ["upd"], "C06": ["uplgone", "upladd", "upsgone", "upsadd"], "C07": ["uplr"],
         "C11": [], "C12": [], "C13": [], "C14": [], "C15": []}
QUERIES = {"C11": "look,range,sum,path", "C12": "visit", "C13": "cmp,nav,pref,shift,ends",
           "C14": "iter,irange,ends", "C15": "filter", "C16": "handles",
           "C22": "look,path,nav,pref,shift,visit,ends,iter,irange,filter,handles"}
CFG = """SPECIFICATION %s
INVARIANT Good
INVARIANT %s
VIEW %s
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def algorithms(prop, tier, seed):
    """The model of the balancing algorithms, replayed on the real code."""
    quick = tier == "quick"
    ops = ABOUT.get(prop, ALL)
    shapes_only = ops == []
    both = prop == "C18"
    most = 0 if shapes_only else 1500 if both else 8000 if quick else 60000
    kinds = ["diff"] if quick else ["diff", "sum", "max"]
    if quick and prop in ("C08", "C01", "C02", "C03", "C04", "C06"):
        kinds = ["diff", "sum"]
    if prop in ("C05", "C07"):
        kinds = kinds[:2]

    def replays(variant, share=1.0):
        return [{"variant": variant, "harness": "tree-cases", "family": "tree", "spec": "GBTreeTrace",
                 "write": "tree", "ops": ops, "most": int(most * share) // len(kinds),
                 "args": ["--type", k, "--queries", QUERIES.get(prop, "")] + (["--both"] if both else [])}
                for k in kinds]

    def tall(name, m, sizes, d, sample, bulk, share, diff=True, which=None):
        return {"name": name, "module": "BTreeAlgTall", "read": "tree", "cfg": CFG % ("TSpec", "TNavigation", "TShape"),
                "consts": {"M": m, "DIFF": diff, "N": 400, "Bulk": bulk, "Sample": sample,
                           "Salt": seed % sample, "Sizes": sizes, "D": d,
                           "Ops": [o for o in ops if o != "bulk"] if which is None else which},
                "replays": replays("small" if m == 6 else "plain", share)}

    def every(n, sample=1, diff=True):
        return {"name": "every%d%d" % (n, diff), "module": "BTreeAlgMC", "read": "tree",
                "cfg": CFG % ("Spec", "Navigation", "Shape"),
                "consts": {"M": 6, "DIFF": diff, "N": n, "Bulk": [2, 3, 5], "Sample": sample,
                           "Salt": seed % sample, "Ops": ops},
                "replays": replays("small")}

    rng = any(o in ops for o in ("drain", "upd", "uplr"))
    sample = (60 if len(ops) > 6 else 30) if rng else 1
    if quick:
        return [every(8, 3) if ops == ALL else every(8, 2 if "upd" in ops else 1) if rng else every(12),
                tall("tall", 6, [17, 21], 1, sample, [2, 5, 9], 0.5)]
    out = [every(10, 2) if rng else every(16), every(8, 1, False)]
    for k, sizes in enumerate([[17], [21], [24], [33], [65]]):
        out.append(tall("tall%d" % k, 6, sizes, 2 if not rng and k < 3 else 1, sample * (1 if k < 3 else 4),
                        [2, 5, 9, 13, 17], 0.5))
    out.append(tall("wide", 12, [11, 13, 23, 25, 37], 1, sample * 2, [2, 7, 11, 13], 0.5))
    out.append(tall("widetall", 12, [101, 111], 0, sample * 20, [2, 11, 25], 0.5))
    return out


def ordered(prop, tier, seed):
    """The models of the sorted map and set."""
    quick = tier == "quick"
    kind = "map" if prop == "C19" else "set"

    def search(m, n, most, variant):
        return {"name": "search%d" % m, "module": "OrdAlg", "read": "map",
                "cfg": "SPECIFICATION Spec\nINVARIANT Good\nVIEW Shape\nACTION_CONSTRAINT Emit\n"
                       "CHECK_DEADLOCK FALSE\n",
                "consts": {"M": m, "DIFF": False, "N": n},
                "replays": [{"variant": variant, "harness": "map-cases", "family": "map",
                             "spec": "OrdMapTrace", "write": "map", "most": most, "args": ["--kind", kind]}]}

    return [{"name": "refine", "module": "OrdMapModel",
             "cfg": "SPECIFICATION Spec\nINVARIANT Same\n",
             "consts": {"Keys": list(range(1, 7 if quick else 9)), "Values": [1, 2]}}] + (
        [search(6, 18, 20000, "small")] if quick else
        [search(6, 24, 100000, "small"), search(12, 22, 40000, "plain")])


def rope(tier, seed):
    quick = tier == "quick"

    def every(s, most, inserts):
        return {"name": "rope%d%d" % (s, most), "module": "RopeAlg",
                "cfg": "SPECIFICATION Spec\nINVARIANT Good\nVIEW Shape\nCHECK_DEADLOCK FALSE\n",
                "consts": {"M": 6, "DIFF": True, "S": s, "Most": most, "Inserts": inserts, "Depth": 0}}

    def some(m, s, most, inserts, depth, num, variant, k=0):
        # TLC's workers would all make the same choices
        return {"name": "ropes%d-%d-%d" % (m, most, k), "module": "RopeAlg", "read": "rope", "workers": 1,
                "cfg": "SPECIFICATION RandomSpec\nINVARIANT Good\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                "consts": {"M": m, "DIFF": True, "S": s, "Most": most, "Inserts": inserts, "Depth": depth},
                "extra": ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed + 1000 * k)],
                "replays": [{"variant": variant, "harness": "rope-cases", "family": "rope", "spec": "RopeTrace",
                             "write": "rope", "most": 10**9, "args": []}]}

    small = [1, 2, 5, 11, 12, 13, 24, 40, 110]
    if quick:
        return [every(2, 9, [1, 3]), *(some(6, 12, most, small, 120, 50, "small", k)
                                        for k, most in enumerate([60, 250, 600]))]
    large = [1, 2, 60, 127, 128, 129, 200, 600, 1800]
    return [every(2, 11, [1, 3]), every(3, 10, [1, 4]), some(6, 12, 200, small, 200, 200, "small"),
            *(some(6, 12, 900, small, 200, 150, "small", k) for k in range(3)),
            *(some(12, 128, most, large, 200, 100, "plain", k) for k, most in enumerate([1500, 9000]))]


def pieces(tier):
    quick = tier == "quick"

    def cases(name, cap, sizes, gaps, variant):
        return {"name": name, "module": "PiecesAlg", "read": "slice",
                "cfg": "SPECIFICATION Spec\nINVARIANT Good\nINVARIANT Sound\nACTION_CONSTRAINT Emit\n"
                       "CHECK_DEADLOCK FALSE\n",
                "consts": {"Cap": cap, "Sizes": sizes, "Gaps": gaps},
                "replays": [{"variant": variant, "harness": "slice-cases", "family": "slice",
                             "spec": "PiecesTrace", "write": "slice", "most": 10**9, "args": []}]}

    if quick:
        return [cases("gap", 12, [0, 1, 2, 5, 11, 12], True, "smallgap"),
                cases("plain", 12, list(range(8)), False, "smallgap")]
    return [cases("gap", 12, list(range(13)), True, "smallgap"),
            cases("plain", 12, list(range(13)), False, "plain")]


def models(prop, tier, seed):
    if prop in TREE:
        return algorithms(prop, tier, seed)
    if prop in ("C19", "C20"):
        return ordered(prop, tier, seed)
    return rope(tier, seed) if prop == "C21" else pieces(tier)


OPP = {"push": "C01", "prepend": "C01", "ins": "C01", "insq": "C01", "insm": "C02", "from": "C02",
       "drain": "C03", "drainq": "C03", "rm": "C04", "upd": "C05", "upl": "C06", "ups": "C06",
       "uplr": "C07", "gem": "C08", "ucf": "C15", "clear": "C18", "clone": "C18", "obs": "C18"}
QUERY = {"Look": ["C11"], "Range": ["C11"], "BySum": ["C11"], "Path": ["C11"], "Cmp": ["C13"],
         "Next": ["C13"], "Prev": ["C13"], "PrefL": ["C13"], "PrefR": ["C13"], "Shift": ["C13"],
         "Iter": ["C14"], "IterRange": ["C14"], "Filter": ["C15"], "Visit": ["C12"],
         "Ends": ["C13", "C14"], "Handles": ["C16"]}
CLAUSE = {
    "elementsum": ["C08"], "nodesum": ["C08"], "rootsum": ["C08"],
    "counts": ["C09"], "room": ["C09"], "leak": ["C09"], "links": ["C09"], "check": ["C09"],
    "emptyelement": ["C09"],
    "collapsed": ["C10"], "height": ["C10"], "space": ["C10"], "refill": ["C10"],
    "owner": ["C16"], "gone": ["C16"], "reused": ["C16"],
    "unreported": ["C17"], "phantom": ["C17"],
    "clone": ["C18"], "independent": ["C18"],
    "lk": ["C11"], "lkplace": ["C11"], "rg": ["C11"], "sm": ["C11"], "pq": ["C11"],
    "cm": ["C13"], "nx": ["C13"], "pv": ["C13"], "pl": ["C13"], "pr": ["C13"], "sh": ["C13"],
    "en": ["C13", "C14"], "it": ["C14"], "ir": ["C14"], "wf": ["C15"], "vp": ["C12"], "hd": ["C16"],
}
OWN = {"content", "ret", "calls", "shown", "visited", "offered", "merge"}


def blame(family, f, shard):
    """The properties a violated clause speaks against."""
    op, clause = f["op"], f["clause"].split()[0]
    if family in ("tree", "scale"):
        own = [OPP[op]] if op in OPP else []
        if f.get("cause") in OPP and (clause in OWN or clause in ("failed", "undefined")):
            # content damaged because an earlier call left broken links behind
            own.append(OPP[f["cause"]])
        if clause in ("failed", "undefined"):
            if op == "q":
                return set(["C22"] + QUERY.get(f["at"], []) + own)
            return set(["C22", "C09"] + own) if clause == "failed" else set(["C09"] + own)
        if clause in OWN:
            return set(own)
        r = set(CLAUSE.get(clause, []))
        if clause == "check" and any(g["line"] == f["line"] and g["clause"] in ("elementsum", "nodesum", "rootsum")
                                     for g in shard["finds"]):
            return set()
        if op in ("insm", "from") and clause in ("counts", "room", "leak", "links", "check", "owner"):
            r.add("C02")
        if clause == "emptyelement":
            r.update(own)
        if op == "clear":
            r.add("C18")
        return r
    if family == "map":
        kind = shard["args"][shard["args"].index("--kind") + 1]
        own = {"map": "C19", "set": "C20"}.get(kind, "")
        return {"C22", own} if clause in ("failed", "undefined") else {own}
    if family == "rope":
        if clause in ("failed", "undefined"):
            return {"C21", "C22"}
        return {"C09"} if clause == "check" else {"C21"}
    if family == "gap":
        # the buffer is internal: only its splitting is a slicing helper, the rest matters through the rope
        return {"C23"} if op in ("gsplit", "gslice", "gcut") else set()
    if family == "slice":
        return {"C23"}
    raise KeyError(family)

TECHNIQUE = {
    "*": "TLA+ specification: TLC trace validation of recorded histories of the real code, plus TLC model checking",
}
NOTE = {
    "*": "Every recorded call of the real code is judged by TLC against the TLA+ specification "
         "(content, results, handles, summaries, node structure after each call), for the shipped "
         "fan-out and a small one. Exploration of histories is randomised from VERIF_SEED; trusted: "
         "the recorder's projection of the tree through the public queries.",
}
