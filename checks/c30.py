"""C24, C30, C31, C33: containers."""
from concurrent.futures import ThreadPoolExecutor

import gen_container as GC

CFG = ('CONSTANTS\n Ops = {%s}\n Steps = %d\n Names = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
       'INVARIANTS Agree Inherited Others %s\n')
MC = {      # operations, actions, invariant, steps (quick, thorough), names
    "C24": ('"load","redist","write"', ("DoLoad", "DoRedist", "DoWrite"), "LoadsRight", (3, 4), '"a","b"'),
    "C30": ('"make","add","write"', ("DoMake", "DoAdd", "DoWrite"), "", (2, 3), '"a","b"'),
    "C31": ('"filter","redist","write","todist","tocommon"', ("DoFilter", "DoRedist", "DoWrite"), "FilterRight", (3, 4), '"a"'),
    "C33": ('"redist","write","todist","tocommon","add"', ("DoRedist", "DoToDist", "DoToCommon", "DoAdd"), "RedistRight", (4, 6), '"a"'),
}


def dd(x):
    return {} if x == [] else x


def views_differ(w, g, r):
    for f in ("cls", "dist"):
        if w[f] != g[f]:
            return f, w[f], g[f]
    if dd(w["attrs"]) != g["attrs"]:
        return "attributes", w["attrs"], g["attrs"]
    if w["hist"] != g["hist"]:
        return "history", w["hist"], g["hist"]
    wi = dd(w["im"])
    if sorted(wi) != sorted(g["im"]):
        return "axes", sorted(wi), sorted(g["im"])
    for a, x in wi.items():
        y = g["im"][a]
        if x["vals"] != y["vals"] or x["dt"] != y["dt"] or dd(x["attrs"]) != y["attrs"]:
            return "index map " + a, x, y
    wd = dd(w["ds"])
    if sorted(wd) != sorted(g["ds"]):
        return "datasets", sorted(wd), sorted(g["ds"])
    for n, x in wd.items():
        y = g["ds"][n]
        for f in ("axes", "dt"):
            if x[f] != y[f]:
                return f"{f} of {n}", x[f], y[f]
        if dd(x["attrs"]) != y["attrs"]:
            return f"attributes of {n}", x["attrs"], y["attrs"]
        if x["chunks"] != [-1] and x["chunks"] != y["chunks"]:
            return f"chunks of {n}", x["chunks"], y["chunks"]
        if x["comp"] != "?" and x["comp"] != y["comp"]:
            return f"compression of {n}", x["comp"], y["comp"]
        xr, yr = x["ranks"][r], y["rank"]
        for f in ("t", "axis", "gshape", "start", "shape"):
            if xr[f] != yr[f]:
                return f"distribution of {n}", xr, yr
        if yr.get("bad"):
            return f"metadata of {n}", xr, yr
        if x["known"] and xr["data"] != yr["data"]:
            return f"data of {n}", xr, yr
    return None


def judge(c, k, w, o):
    for x in o:
        if "driver_exc" in x:
            return c.violation("driver", dict(case=k, got=x))
    for r in range(k["p"]):
        for j, op in enumerate(k["prog"]):
            ws, gs = w["steps"][j], o[r]["steps"][j]
            det = dict(case=k, step=j, op=op, rank=r)
            if gs.get("bad"):
                return c.violation("arguments changed", dict(det, got=gs))
            if ws["err"] != gs["err"]:
                return c.violation(f"{op['op']} should {'fail' if ws['err'] else 'succeed'}", dict(det, got={a: b for a, b in gs.items() if a != "obs"}))
            for x, v in dd(ws["obs"]).items():
                if x not in gs["obs"]:
                    return c.violation(f"{op['op']}: container missing", dict(det, got=sorted(gs["obs"])))
                d = views_differ(v, gs["obs"][x], r)
                if d:
                    return c.violation(f"{op['op']}: {d[0].split(' of ')[0]}", dict(det, container=x, what=d[0], want=d[1], got=d[2]))
        for x, v in dd(w["end"]).items():
            d = views_differ(v, o[r]["end"][x], r) if x in o[r]["end"] else ("missing", x, "")
            if d:
                return c.violation(f"at the end: {d[0].split(' of ')[0]}", dict(case=k, rank=r, container=x, what=d[0], want=d[1], got=d[2]))


def run(c):
    c.exts("truncate")
    gen = dict(C24=GC.case_c24, C30=GC.case_c30, C31=GC.case_c31, C33=GC.case_c33)[c.pid]
    n = c.pick(480, 4000)
    batches = []
    for np_, share in ((1, .2), (2, .3), (4, .5)):
        cs = [gen(c.rng, np_ if np_ < 4 else c.rng.choice([3, 4, 4])) for _ in range(int(n * share))]
        batches.append((np_, cs))
    ops, acts, inv, steps, names = MC[c.pid]
    with ThreadPoolExecutor(8) as ex:
        mod = ex.submit(c.model, "MC_Container", CFG % (ops, c.pick(*steps), names, inv), workers=c.pick(3, 6),
                        must_cover=acts, min_states=200, timeout=c.pick(700, 3000))
        fut = [ex.submit(c.drive, "contain", cs, np=np_, timeout=c.pick(500, 3000)) for np_, cs in batches]
        allc = [x for _, cs in batches for x in cs]
        want = c.evaluate("Container", [dict(p=k["p"], classes=k["classes"], fixed=k["fixed"], prog=k["prog"]) for k in allc],
                          op="RunContainers")
        obs = []
        for (np_, cs), f in zip(batches, fut):
            rs = f.result()
            obs += [[r] for r in rs] if np_ == 1 else rs
    mod.result()
    for k, w, o in zip(allc, want, obs):
        c.validated()
        c.sample(dict(classes=k["decl"], prog=k["prog"], expected_steps=len(w["steps"])))
        judge(c, k, w, o)
