"""C07: flow tasks."""
CFG = """CONSTANTS
 Which = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Prefix AllIn Waits
PROPERTIES Ends
"""


def case(rng):
    tasks, keys, n = [], [], 0          # keys: name -> (number of values, holds lists)
    info = {}

    def key():
        keys.append("k%d" % len(keys))
        return keys[-1]

    def add(kind, ins=(), outs=(), req="", group=0, items=()):
        tasks.append(dict(kind=kind, req=req, group=group, items=list(items), out=list(outs), base=rng.choice([0, 0, 0, 5, -5]), **{"in": list(ins)}))

    for _ in range(rng.randint(1, 3)):
        m = rng.choice([0, 1, 1, 2, 3, 5, 8])
        k = key()
        add("source", outs=[k], items=range(n + 1, n + m + 1))
        info[k] = m
        n += m
    for _ in range(rng.randint(1, 6)):
        if rng.random() < .15:
            m = rng.choice([1, 1, 4])
            k = key()
            add("source", outs=[k], items=range(n + 1, n + m + 1))
            info[k] = m
            n += m
        kind = rng.choice(["pass", "wait", "wait", "copy", "copy", "gather", "gather", "accum", "accum", "accum", "delete", "print"])
        src = rng.choice(keys)
        if kind in ("pass", "copy", "print"):
            k = key()
            add(kind, [src], [k])
            info[k] = info[src]
        elif kind == "delete":
            add(kind, [src])
        elif kind == "wait":
            reqs = [x for x in keys if info[x] <= 1]
            if not reqs:
                continue
            r = rng.choice(reqs)
            k = key()
            add(kind, [src], [k], r)
            info[k] = info[src] if info[r] else 0
        elif kind == "gather":
            ins = [rng.choice(keys) for _ in range(rng.randint(1, 3))]
            m = min(info[x] for x in ins)
            outs = [key() for _ in range(len(ins) if rng.random() < .3 else 1)]
            add(kind, ins, outs)
            info.update({k: m for k in outs})
        else:
            g = rng.choice([0, 0, 1, 2, 3])
            wide = 1
            if g > 1 and rng.random() < .4:
                wide = g
            elif g == 0 and info[src] in (2, 3) and rng.random() < .5:
                wide = info[src]
            outs = [key() for _ in range(wide)]
            add(kind, [src], outs, group=g)
            info.update({k: 1 if g == 0 else info[src] // g for k in outs})
    for k in keys:
        if rng.random() < .8:
            add("collect", [k])
    keep = rng.random() < .6
    return dict(tasks=tasks, keep=keep, lists=keep and rng.random() < .5, callback=not keep or rng.random() < .5)


def run(c):
    c.exts("truncate")
    c.model("MC_Flow", CFG, workers=6, min_states=500, must_cover=["Source", "Fire", "End"])
    cases = [case(c.rng) for _ in range(c.pick(700, 6000))]
    want = c.evaluate("Flow", cases)
    got = c.drive("flow", cases)
    n = 0
    for k, w, o in zip(cases, want, got):
        c.validated()
        if "when" not in o or o["exc"]:
            c.violation("run failed", dict(case=k, got=o))
            continue
        if not k["keep"]:       # originals may be gone when a copy is looked at: only the contents count
            strip(w["got"])
            strip(o["got"])
        if w["got"] != o["got"]:
            c.violation("products collected", dict(case=k, expected=w["got"], got=o["got"]))
            continue
        n += sum(map(len, w["got"]))
        if not k["keep"]:
            # an item that only goes to tasks that delete it is gone
            for t in k["tasks"]:
                if t["kind"] == "source":
                    users = [u["kind"] for u in k["tasks"] for x in u["in"] + [u["req"]] if x == t["out"][0]]
                    if users and set(users) == {"delete"} and any(i in o["alive"] for i in t["items"]):
                        c.violation("deleted items kept", dict(case=k, expected=[], got=o["alive"]))
        if k["callback"] and not k["lists"]:
            late(c, k, o)
    c.cov.update(collected=n)
    c.sample(dict(case=cases[1], expected=want[1]))
    c.assumptions += ["None is no product", "tasks are listed after those they read from"]


def strip(v):
    if isinstance(v, list):
        for x in v:
            strip(x)
    elif v.get("t") == "list":
        strip(v["l"])
    else:
        v.pop("orig", None)


def late(c, k, o):
    """A waiting task passes nothing on before what its requirement is made of was there."""
    feeds = {x: j for j, t in enumerate(k["tasks"]) for x in t["out"]}

    def items(key):
        t = k["tasks"][feeds[key]]
        return set(t["items"]) if t["kind"] == "source" else set().union(*[items(x) for x in t["in"]]) if t["kind"] == "accum" and not t["group"] else set()
    for j, t in enumerate(k["tasks"]):
        if t["kind"] == "wait":
            need = items(t["req"])
            outs = [n for n, u in enumerate(k["tasks"]) if u["kind"] == "collect" and u["in"] == t["out"]]
            for n, (what, x) in enumerate(o["when"]):
                if what == "made":
                    need.discard(x)
                elif x in outs and need:
                    c.violation("passed on before the requirement", dict(case=k, expected=sorted(need), got=o["when"]))
                    return
