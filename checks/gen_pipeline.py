"""Random pipeline programs (inputs only: what they should do comes from the TLA+ spec)."""
import json

KEYS = ["a", "b", "c", "d", "e"]
PATTERNS = [  # (pattern, skipped keys)
    (None, ["_", "__", "-"]),
    (r"^[abc]", ["_", "__", "-", "d", "e", "_x"]),
    (r"x$", ["_", "__", "-", "a", "b", "c", "d", "e"]),
    (r".", []),
]
KINDS = ["obj", "falsy", "sized", "loud", "items", "str", "arr", "dict"]


def valid(prog):
    outs = [k for t in prog["tasks"] for k in t["out"]]
    if len(set(outs)) != len(outs):
        return False
    return all(k in outs for t in prog["tasks"] for k in t["in"] + t["req"])


def acyclic(tasks):
    edges = {i: [j for j, u in enumerate(tasks) if set(t["out"]) & set(u["in"] + u["req"])]
             for i, t in enumerate(tasks)}
    seen = {}

    def visit(i):
        if seen.get(i) == 1:
            return False
        if seen.get(i) == 2:
            return True
        seen[i] = 1
        ok = all(visit(j) for j in edges[i])
        seen[i] = 2
        return ok

    return all(visit(i) for i in range(len(tasks)))


def random_prog(rng, pattern=None, dups=False):
    n = rng.randint(1, 6)
    keys = KEYS[: rng.randint(1, 5)] + rng.sample(["_", "__", "-", "_x"], rng.randint(0, 1))
    rng.shuffle(keys)
    tasks = []
    prod = [[] for _ in range(n)]
    for k in keys:
        prod[rng.randrange(n)].append(k)
        if dups and rng.random() < 0.15:
            prod[rng.randrange(n)].append(k)
    for i in range(n):
        # most tasks read what earlier tasks make; some read anything
        avail = keys if rng.random() < 0.25 else ([k for p in prod[:i] for k in p])
        avail = [k for k in avail]
        kind = rng.random()
        ni = 0 if (not avail or kind < 0.2) else rng.choice([1, 1, 1, 2, 2, 3])
        nr = 0 if not avail or rng.random() < 0.7 else rng.choice([1, 1, 2])
        t = dict(
            **{"in": [rng.choice(avail) for _ in range(ni)]},
            req=[rng.choice(avail) for _ in range(nr)],
            out=list(prod[i]), aslist=bool(len(prod[i]) == 1 and rng.random() < 0.3),
            same=rng.random() < 0.12,
            base=rng.choice([0, 0, 0, 0, 1, -1, 2, 10, -10, 0, 0, 5000, 10 ** 6]),
            limit=rng.choice([-1, -1, -1, -1, 1, 2, 3]),
            setup=rng.choice(["none", "none", "none", "ok"]),
            next=[rng.choice(["ok", "ok", "ok", "none"]) for _ in range(rng.randint(0, 4))],
            after=rng.choice(["stop"] if ni == 0 else ["ok", "ok", "none", "none", "stop"]),
            finish=rng.choice(["none", "none", "ok"]))
        if rng.random() < 0.06 and t["next"]:
            t["next"][-1] = "bad"
        if rng.random() < 0.03:
            t["setup"] = "bad"
        if rng.random() < 0.03:
            t["finish"] = "bad"
        tasks.append(t)
    # None at some positions of a several-key output (a required product cannot be None)
    req = {k for t in tasks for k in t["req"]}
    for t in tasks:
        if len(t["out"]) > 1 and not req & set(t["out"]):
            t["next"] = [rng.choice(["holes", "nones"]) if x == "ok" and rng.random() < 0.3 else x for x in t["next"]]
    if rng.random() < 0.25:
        rng.shuffle(tasks)
    if not acyclic(tasks):
        for t in tasks:
            if t["after"] == "ok":
                t["after"] = "none"
    skip = [k for k in keys if k in pattern[1]] if pattern else []
    return dict(tasks=tasks, skip=skip)


def contest_prog(rng):
    """Sources that run at different times, consumers and joins competing at close priorities."""
    ns, tasks, keys = rng.randint(2, 3), [], []
    names = iter(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"])

    def task(in_, out, nxt, after, **kw):
        return dict(**{"in": in_}, req=kw.get("req", []), out=out, aslist=False, same=False,
                    base=rng.choice([-2, -1, 0, 0, 1, 2, 3]), limit=rng.choice([-1] * 6 + [2]),
                    setup="none", next=nxt, after=after, finish=rng.choice(["none"] * 5 + ["ok"]))

    for _ in range(ns):
        out = [next(names) for _ in range(rng.randint(1, 3))]
        keys.append(out)
        tasks.append(task([], out, ["ok"] * rng.randint(1, 4), "stop"))
    pool = [k for o in keys for k in o]
    for _ in range(rng.randint(2, 4)):
        in_ = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 2, 3])))
        out = [next(names) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] if len(pool) < 8 else []
        t = task(in_, out, [], rng.choice(["ok", "ok", "ok", "none"]))
        if rng.random() < 0.15:
            t["req"] = [rng.choice([k for k in pool])]
        tasks.append(t)
        pool += out
    if rng.random() < 0.3:
        rng.shuffle(tasks)
    return dict(tasks=tasks, skip=[])


def refill_prog(rng):
    """Products that arrive again for a requirement, before or after it was used, and required products that come late or never."""
    def task(in_, out, nxt, after, **kw):
        return dict(**{"in": in_}, req=kw.get("req", []), out=out, aslist=rng.random() < 0.2 and len(out) == 1, same=rng.random() < 0.4,
                    base=rng.choice([-2, 0, 0, 0, 0, 2, 2000]), limit=rng.choice([-1] * 5 + [1, 2]),
                    setup=rng.choice(["none", "none", "ok"]), next=nxt, after=after, finish=rng.choice(["none", "none", "ok"]))

    src = task([], ["a", "b"][: rng.randint(1, 2)], [rng.choice(["ok", "ok", "none"]) for _ in range(rng.randint(0, 3))], "stop")
    late = task([], ["c"], [rng.choice(["none", "ok"]) for _ in range(rng.randint(0, 3))], "stop")
    tasks = [src, late]
    for _ in range(rng.randint(1, 3)):
        avail = src["out"] + ["c"]
        tasks.append(task(rng.sample(avail, rng.choice([0, 1])), [], [], "none" if rng.random() < .5 else "ok",
                          req=[rng.choice(avail) for _ in range(rng.randint(1, 3))]))
        if not tasks[-1]["in"]:
            tasks[-1]["after"] = "stop"
    if rng.random() < 0.4:
        rng.shuffle(tasks)
    return dict(tasks=tasks, skip=[])


def case(rng, prog, pattern=None, mode=None):
    return dict(prog=prog, pattern=pattern, mode=mode or rng.choice(["yaml", "yaml", "api"]),
                form=rng.randrange(6), kinds=rng.sample(KINDS, rng.randint(1, 4)),
                interactive=rng.random() < 0.2)


def random_cases(rng, n):
    out = []
    while len(out) < n:
        pat = PATTERNS[0] if rng.random() < 0.8 else rng.choice(PATTERNS[1:])
        u = rng.random()
        if u < 0.4:
            p, pat = contest_prog(rng), PATTERNS[0]
        elif u < 0.55:
            p, pat = refill_prog(rng), PATTERNS[0]
        else:
            p = random_prog(rng, pat)
        if not valid(p):
            continue
        out.append(case(rng, p, pat[0]))
    return out


def menu_cases(rng, path, n):
    """Programs emitted by TLC while it explored MC_Pipeline."""
    progs = []
    with open(path) as f:
        for line in f:
            p = json.loads(json.loads(line))
            if valid(p):
                progs.append(p)
    progs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    if len(progs) > n:
        progs = rng.sample(progs, n)
    return [case(rng, p) for p in progs]


def nontrivial(events):
    return sum(1 for e in events if e["stage"] == "next" and e["args"]) >= 1
