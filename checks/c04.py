"""C04: which pipeline documents are accepted, and what their tasks get."""
import gen_config as G
import c05

CFG = """CONSTANTS
 NTasks = %d
SPECIFICATION Spec
INVARIANTS Exact NothingRan
"""
BASE = [("broadcast_inputs", "bool", dict(t="bool", b=False)), ("limit_outputs", "int", G.NONE), ("base_priority", "int", G.i(0)),
        ("breakpoint", "bool", dict(t="bool", b=False))]


def key(name):
    return dict(str=True, v=name)


def badkey(rng):
    return dict(str=False, v="?", raw=rng.choice(["5", "2.5", '["a"]', '{"a": 1}', "true"]))


def field(rng, names):
    if not names:
        return dict(k=rng.choice(["absent", "absent", "null", "list"]), keys=[])
    return dict(k="one" if len(names) == 1 and rng.random() < .6 else "list", keys=[key(x) for x in names])


def yamlable(v):
    return G.s("hdf5") if v["t"] == "fmt" else v


def settings(rng, props):
    """Parameters every property accepts."""
    keys = {}
    for d in props.values():
        keys.setdefault(d["key"] or d["name"], []).append(d)
    cf = []
    for k, ds in keys.items():
        if rng.random() < .5 or len(ds) > 1 or k == "broadcast_inputs":
            continue
        v = G.default(rng, ds[0]["pt"])
        if v["t"] != "none":
            cf.append(dict(k=k, v=yamlable(v)))
    return cf


def klass(rng, c, j):
    c = dict(c, bases=[b + 1 for b in c["bases"]], mro=[m + 1 for m in c["mro"]] + [1])
    req, inn = rng.randint(0, 2), rng.randint(0, 2)
    c.update(minreq=req, maxreq=rng.choice([req, req, req + 1, -1]), minin=inn, maxin=rng.choice([inn, inn, inn + 1, -1]),
             refuses=False, kind=rng.choice(["config", "value"]))
    return c


def count(rng, lo, hi, have):
    return min(rng.randint(lo, lo + 2 if hi < 0 else hi), len(have)) if len(have) >= lo else None


def case(rng):
    order = {x: k for k, x in enumerate(sorted(G.NAMES + [b[0] for b in BASE]))}
    decls = [dict(name=n, key="", pt=dict(p=p, opts=[], elt="", len=-1, max=-1, lo=0, hi=0), dep=False, **{"def": d}) for n, p, d in BASE]
    base = dict(bases=[], mro=[1], decls=decls, minreq=0, maxreq=1, minin=0, maxin=1, refuses=False)
    cls = [base] + [klass(rng, c, j) for j, c in enumerate(G.classes(rng))]
    for c in cls:
        c["order"] = order
    # a source that needs nothing is always there
    cls.append(dict(bases=[], mro=[len(cls) + 1, 1], decls=[G.decl(rng, "a")], minreq=0, maxreq=0, minin=0, maxin=0, refuses=False, order=order))
    names = [G.resolved(cls, c + 1) for c in range(len(cls))]
    # keys shared between a property and a base property are left alone
    pool = ["k%d" % j for j in range(12)] + ["_", "x y", "in", "ünï".encode("ascii", "ignore").decode() or "q"]
    rng.shuffle(pool)
    n = rng.randint(1, 5)
    outs = [[pool.pop() for _ in range(rng.choice([0, 1, 1, 1, 2]))] for _ in range(n)]
    have = [x for o in outs for x in o]
    tasks, sections = [], []
    for j in range(n):
        fits = [c for c in range(1, len(cls) + 1) if max(cls[c - 1]["minreq"], cls[c - 1]["minin"]) <= len(have)]
        c = rng.choice(fits)
        K = cls[c - 1]
        t = dict(ismap=True, extra=False, type=dict(k="task", c=c), out=field(rng, outs[j]),
                 **{"in": field(rng, rng.sample(have, count(rng, K["minin"], K["maxin"], have)))},
                 req=field(rng, rng.sample(have, count(rng, K["minreq"], K["maxreq"], have))),
                 params=dict(k="absent", inline=[], names=[]))
        r = rng.random()
        if r < .45:
            t["params"] = dict(k="inline", inline=settings(rng, names[c - 1]), names=[])
        elif r < .85:
            nm = []
            for _ in range(rng.randint(0, 2)):
                # a section only holds what every task naming it knows: often the one of a task of the same class
                same = [s["name"] for s in sections if s["c"] == c]
                if same and rng.random() < .7:
                    nm.append(rng.choice(same))
                else:
                    s = dict(name="sec%d" % len(sections), ismap=True, cf=settings(rng, names[c - 1]), c=c)
                    sections.append(s)
                    nm.append(s["name"])
            t["params"] = dict(k="names", inline=[], names=nm, scalar=rng.random() < .5)
        tasks.append(t)
    doc = dict(pipe="ok", tasks=tasks, sections=sections)
    k = dict(classes=cls, doc=doc, local=rng.random() < .5, flow=rng.choice([False, True]), settings=rng.choice([{}, dict(logging="info"), dict(save_config=False), dict(logging=dict(root="DEBUG"), save_versions=["numpy"])]),
             badsettings={}, notmap=5, ext=dict(i=0, name=""))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2])):
        fault(rng, k, names, have)
    j = rng.randrange(n)
    if tasks[j]["ismap"] and tasks[j]["type"]["k"] == "task":
        ps = [x for x, d in names[tasks[j]["type"]["c"] - 1].items() if d["pt"]["p"] in ("list", "any", "listtype")]
        if ps:
            k["ext"] = dict(i=j + 1, name=rng.choice(ps))
    k["shownames"] = [[dict(name=x, utc=names[c][x]["pt"]["p"] == "utc") for x in sorted(names[c])] for c in range(len(cls))]
    return k


def fault(rng, k, names, have):
    D = k["doc"]
    j = rng.randrange(len(D["tasks"]))
    t = D["tasks"][j]
    f = rng.choice(["pipe", "entry", "extra", "type", "keytype", "dangling", "dup", "dup", "nin", "nreq", "nosec", "badsec", "unknown", "value", "value",
                    "bcast", "refuse", "mixed"])
    if not t["ismap"]:
        return
    if f == "pipe":
        D["pipe"] = rng.choice(["missing", "notmap", "empty", "settings"])
        k["notmap"] = rng.choice([5, [], "x", ["tasks"]])
        k["badsettings"] = rng.choice([dict(logging="loud"), dict(logging=dict(a="loud")), dict(save_versions=["no_such_module_x"]), dict(save_versions=5),
                                       dict(save_versions=[3]), dict(tasks=5), dict(logging=7)])
    elif f == "entry":
        D["tasks"][j] = dict(ismap=False, raw=rng.choice([5, "type", ["type"], 2.5]))
    elif f == "extra":
        t["extra"] = True
        t["extrakey"] = rng.choice(["output", "ins", "Type", "require", "param", "priority"])
    elif f == "type":
        t["type"] = dict(k=rng.choice(["missing", "bad"]), c=0,
                         raw=rng.choice([5, ["a"], "", "nomodule.X", "vp_tasks.Nothing", "vp_tasks", "vp_tasks.number", "vp_tasks.NotTask", "vp_tasks.Duck", "vp_tasks.Duck", "vp_tasks.instance", "vp_tasks.function",
                                         "numpy.ndarray", "T99", "."]))
    elif f == "keytype":
        t[rng.choice(["in", "out", "req"])] = dict(k=rng.choice(["one", "list"]), keys=[badkey(rng)])
        if rng.random() < .5:
            fld = rng.choice(["in", "out", "req"])
            t[fld] = dict(k="list", keys=t[fld]["keys"] + [badkey(rng)])
    elif f == "dangling":
        fld = rng.choice(["in", "req"])
        ks = list(t[fld]["keys"]) or [None]
        ks[rng.randrange(len(ks))] = key(rng.choice(["nobody", "K1", "", "tasks"]))
        t[fld] = dict(k="list", keys=ks)
    elif f == "dup" and have:
        o = dict(k="list", keys=t["out"]["keys"] + [key(rng.choice(have))])
        t["out"] = o
    elif f in ("nin", "nreq") and have:
        fld = f[1:]
        n = len(t[fld]["keys"])
        if n and rng.random() < .5:
            t[fld] = field(rng, [x["v"] for x in t[fld]["keys"] if x["str"]][1:])
        else:
            t[fld] = dict(k="list", keys=t[fld]["keys"] + [key(rng.choice(have)) for _ in range(rng.randint(1, 3))])
    elif f == "nosec":
        t["params"] = dict(k="names", inline=[], names=t["params"]["names"] + [rng.choice(["nosection", "pipe line", "sec99"])], scalar=True)
    elif f == "badsec":
        D["sections"].append(dict(name="bad", ismap=False, cf=[], raw=rng.choice([5, [1, 2], "ab", [], "", ["ab"], [["zz", 1]]]), c=0))
        if rng.random() < .8:
            t["params"] = dict(k="names", inline=[], names=t["params"]["names"] + ["bad"], scalar=True)
    elif t["type"]["k"] == "task":
        c = t["type"]["c"]
        cf = None
        if f == "unknown":
            cf = [dict(k=rng.choice(["zz", "A", "a ", "in", "versions", "log_level", "tag", "save", "type", "out", "requires", "params", "name", "limit_output", "priority", "output_root",
                                      "pipeline", "config", "_x", "", "base_priority_", "comment"]), v=G.i(1))]
        elif f == "bcast":
            cf = [dict(k="broadcast_inputs", v=rng.choice([dict(t="bool", b=True), G.i(1), G.s("x")]))]
        elif f in ("value", "mixed"):
            cf = [dict(x, v=yamlable(x["v"])) for x in c05.config(rng, names[c - 1]) if x["k"] != "broadcast_inputs"]
        elif f == "refuse" and c > 1:
            k["classes"][c - 1]["refuses"] = True
        if cf is not None:
            have_ = [x for x in t["params"]["inline"] if x["k"] not in [y["k"] for y in cf]] if t["params"]["k"] == "inline" else []
            t["params"] = dict(k="inline", inline=have_ + cf, names=[])


def run(c):
    c.exts("truncate")
    c.model("MC_PipeConfig", CFG % 2, workers=6, min_states=8000, must_cover=["LookPipe", "LookKeys", "Make", "Add", "RunIt"])
    cases = [case(c.rng) for _ in range(c.pick(900, 8000))]
    want = c.evaluate("PipeConfig", cases)
    got = c.drive("pipeconfig", cases)
    faults, kept = {}, 0
    for k, w, o in zip(cases, want, got):
        c.validated()
        if "calls" not in o:
            c.violation("driver", dict(case=k, got=o))
            continue
        for f in w["faults"]:
            faults[f] = faults.get(f, 0) + 1
        kept += w["ok"]
        if w["ok"] != o["ok"]:
            c.violation("accepted" if o["ok"] else "refused", dict(case=k, expected=dict(ok=w["ok"], faults=w["faults"]), got=o))
            continue
        if not w["ok"] and o["exc"] != "CaputConfigError":
            c.violation("not a configuration error", dict(case=k, expected=w["faults"], got=o))
        if o["calls"]:
            c.violation("a task ran", dict(case=k, expected=[], got=o["calls"]))
        if w["ok"]:
            for x, clause in (("shown", "parameters of the tasks"), ("after", "tasks share values")):
                ws = [[dict(name=e["name"], v=G.norm(e["v"])) for e in r] for r in w[x]]
                if ws != o[x]:
                    c.violation(clause, dict(case=k, expected=ws, got=o[x]))
                    break
    c.cov.update(accepted=kept, faults=faults)
    c.sample(dict(case=cases[3], expected=want[3]))
    c.assumptions += ["values of properties as decided under C05", "documents are well-formed YAML without repeated keys"]
