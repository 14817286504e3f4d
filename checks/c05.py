"""C05: configuration properties."""
import gen_config as G

CFG = """CONSTANTS
 Steps = %d
 MaxInst = 2
SPECIFICATION Spec
INVARIANTS Typed Again
PROPERTIES Apart Fresh
"""


def config(rng, props, k=None):
    cf = {}
    for d in props.values():
        if rng.random() < .5:
            ok = rng.random() < .8
            cf[d["key"] or d["name"]] = G.value(rng, d["pt"]) if not ok or d["pt"]["p"] == "log" else G.default(rng, d["pt"])
    if rng.random() < .3:
        for x in rng.sample(G.NAMES + ["k_a", "k_b", "other", "w", "_x", "_", "A", "a ", "", "__line__", "a.b", "#5"], rng.randint(1, 3)):
            cf.setdefault(x, rng.choice([G.i(3), G.s("abc")]))
    # one key may serve several properties: leave lists and other values only where every one defines them
    for key in list(cf):
        ps = [d["pt"]["p"] for d in props.values() if (d["key"] or d["name"]) == key]
        v = cf[key]
        bad = len(ps) > 1 and (v["t"] not in ("int", "bool") or any(p in ("utc", "dict") for p in ps))
        if bad or (ps and ps[0] in ("str",) and v["t"] in ("list", "map")) or (ps and ps[0] == "list" and v["t"] in ("str", "map")) or (ps and ps[0] == "dict" and v["t"] == "list"):
            cf[key] = G.i(4)
        if "utc" in ps and v["t"] not in ("time", "int") and not (v["t"] == "str" and v["s"] == "yesterday"):
            cf[key] = G.time(rng) if ps == ["utc"] else G.i(4)
        if "level" in ps and v["t"] == "bool":
            cf[key] = G.i(4)
    return [dict(k=k, v=v) for k, v in cf.items()]


def case(rng):
    cls = G.classes(rng)
    names = [G.resolved(cls, c + 1) for c in range(len(cls))]
    insts, ops = [], []
    for _ in range(rng.randint(4, 12)):
        live = list(range(1, len(insts) + 1))
        k = rng.choice(["new", "make", "read", "read", "set", "set", "get", "extend", "extend"])
        if not live and k not in ("new", "make"):
            k = "new"
        if k in ("new", "make"):
            c = rng.randint(1, len(cls))
            insts.append(c)
            o = dict(op=k, c=c, strict=False, allow=[], defaults=True, line=False)
            o["cf"] = config(rng, names[c - 1]) if k == "make" else []
            old = [p["cf"] for p in ops if p["op"] in ("make", "read") and p["cls"] == c]
            o["again"] = k == "make" and bool(old) and rng.random() < .5
            if o["again"]:
                o["cf"] = rng.choice(old)
            o["cls"] = c
        else:
            x = rng.choice(live)
            pr = names[insts[x - 1] - 1]
            o = dict(op=k, i=x)
            if k == "read":
                o.update(cf=config(rng, pr), strict=rng.random() < .3, allow=rng.choice([[], ["w"], ["w", "other"]]), defaults=rng.random() < .75,
                         line=rng.random() < .3, again=False, cls=insts[x - 1])
            else:
                if not pr:
                    continue
                nm = rng.choice(sorted(pr))
                o["name"] = nm
                if k == "set":
                    v = [x for x in config(rng, {nm: pr[nm]}) if x["k"] == (pr[nm]["key"] or nm)]
                    o["v"] = v[0]["v"] if v else G.default(rng, pr[nm]["pt"])
                    if o["v"]["t"] == "none":
                        o["v"] = G.i(1)
        ops.append(o)
    shown = [[dict(name=x, utc=names[c][x]["pt"]["p"] == "utc") for x in sorted(names[c])] for c in range(len(cls))]
    return dict(classes=cls, ops=ops, shownames=shown)


def drop_dead(c, w, k):
    """Stop at an operation on an instance that a refused configuration left undefined."""
    dead = set()
    insts = 0
    for j, o in enumerate(k["ops"]):
        if o["op"] in ("new", "make"):
            insts += 1
            i = insts
        else:
            i = o["i"]
        if i in dead:
            return j
        if not w[j]["ok"] and o["op"] in ("make", "read"):
            dead.add(i)
    return len(k["ops"])


def run(c):
    c.exts("truncate")
    c.model("MC_Config", CFG % c.pick(3, 4), workers=6, min_states=200, must_cover=["NewI", "ReadI", "SetI", "ExtI"])
    rng = c.rng
    cases = [case(rng) for _ in range(c.pick(700, 6000))]
    want = c.evaluate("Config", cases, op="RunHistory")
    for k, w in zip(cases, want):       # an instance refused once is not used again
        k["ops"] = k["ops"][:drop_dead(c, w, k)]
    got = c.drive("config", cases)
    oks = errs = 0
    for k, w, o in zip(cases, want, got):
        c.validated()
        if isinstance(o, dict):
            c.violation("driver", dict(case=k, got=o))
            continue
        for j, (op, x, y) in enumerate(zip(k["ops"], w, o)):
            d = dict(classes=k["classes"], ops=k["ops"][:j + 1], shownames=k["shownames"])
            oks, errs = oks + x["ok"], errs + (not x["ok"])
            if x["ok"] != y["ok"]:
                c.violation(f"{op['op']}: {'refused' if x['ok'] else 'accepted'}", dict(case=d, expected=x["ok"], got=dict(ok=y["ok"], exc=y["exc"], msg=y.get("msg"))))
                break
            if not x["ok"] and y["exc"] != "CaputConfigError" and op["op"] != "set":
                c.violation(f"{op['op']}: not a configuration error", dict(case=d, expected="CaputConfigError", got=dict(exc=y["exc"], msg=y.get("msg"))))
                break
            if x["ok"] and x["warn"] != y["warn"]:
                c.violation("deprecation warning", dict(case=d, expected=x["warn"], got=y["warn"]))
                break
            if not y["arg"]:
                c.violation("configuration changed", dict(case=d, expected="unchanged", got="changed"))
            ws = [[dict(name=e["name"], v=G.norm(e["v"])) for e in r] for r in x["shown"]]
            if ws != y["shown"]:
                c.violation("values after " + op["op"], dict(case=d, expected=ws, got=y["shown"]))
                break
    decls = []
    for _ in range(c.pick(200, 1200)):
        pt = G.ptype(rng)
        while pt["p"] not in ("enum", "listtype", "fmt"):
            pt = G.ptype(rng)
        decls.append(dict(declare=True, pt=pt, key="", dep=False, expl=True, **{"def": G.value(rng, pt) if rng.random() < .6 else G.default(rng, pt)}))
    for k, w, o in zip(decls, c.evaluate("Config", decls, op="Declare"), c.drive("config", decls)):
        c.validated()
        c.compare("declared default", k, dict(ok=w["ok"], v=G.norm(w["v"]) if w["ok"] else dict(t="none")), o)
    c.cov.update(accepted_ops=oks, refused_ops=errs)
    c.sample(dict(case=cases[5], expected=want[5]))
    c.assumptions += ["conversion of numbers, strings, booleans, lists and mappings as in Python",
                      "after a refused configuration the instance itself is not looked at again"]
