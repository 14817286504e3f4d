"""C14: distributed file I/O."""
from concurrent.futures import ThreadPoolExecutor

import gen_array as G

CFG = """CONSTANTS
 MaxDim = %d
 Ranks = {%s}
 NDs = {%s}
SPECIFICATION Spec
INVARIANTS Complete Partial ReadsRight
"""
DTYPES = ["i8", "i4", "f8", "f4", "u2", "c8", "c16", "b1x", "S8", "struct", ">i4", ">f8"]


def sel_items(rng, sh, fmt, lists):
    out = []
    has_list = False
    for n in sh:
        r = rng.random()
        if r < .4:
            out.append(dict(G.FULL))
        elif lists and r < .65 and n:
            # HDF5 takes indices in increasing order only (from the first list, which it applies itself)
            l = rng.sample(range(n), rng.randint(1, n))
            if (not has_list and fmt == "h5") or rng.random() < .5:
                l.sort()
            has_list = True
            out.append(dict(k="list", l=l))
        else:
            out.append(G.rslice(rng, n, (1, 1, 1, 2, 3)))
    if rng.random() < .25:
        out = out[:rng.randint(1, len(out))]
    return out


def case(rng, world, fmt=None):
    fmt = fmt or rng.choice(["h5", "h5", "zarr"])
    p, q = rng.randint(1, world), rng.randint(1, world)
    via = rng.choice(["group", "group", "disk", "array"])
    wdist = via == "array" or rng.random() < .8
    n = rng.randint(1, 2 if via == "array" else 3)
    dsets = []
    paths = rng.sample(["/a", "/b", "/g/c", "/g/h/d", "/index_map/t", "/g2/e"], n)
    for path in paths:
        dist = via == "array" or (wdist and rng.random() < .7)
        while True:
            sh = G.rshape(rng, lo=0, hi=7, cap=70)
            if fmt == "zarr" and G.size(sh) == 0 and rng.random() < .7:
                continue
            break
        dt = rng.choice([d for d in DTYPES if d != "b1x"])
        if not dist and dt.startswith(">"):
            dt = "i8"
        ch = [rng.randint(1, max(1, x)) for x in sh] if rng.random() < .4 and G.size(sh) else []
        dsets.append(dict(path=path, shape=sh, data=list(range(1, G.size(sh) + 1)), dtype=dt, dist=dist,
                          axis=rng.randrange(len(sh)), layout=rng.choice(["C", "C", "F", "strided"]), chunks=ch,
                          init=rng.choice(["wrap", "ctor"])))
    reads = []
    for how in rng.sample(["group", "array", "serial", "group"], rng.randint(1, 3)):
        lists = rng.random() < .4
        sels = [sel_items(rng, d["shape"], fmt, lists) if rng.random() < .6 else [] for d in dsets]
        tgt = rng.randint(1, n)
        hints = [dict(hasdist=False, dist=False, hasaxis=False, axis=0) for _ in dsets]
        if how == "group" and rng.random() < .5:
            for h, d in zip(hints, dsets):
                if rng.random() < .6:
                    h.update(hasdist=True, dist=rng.random() < .6)
                if rng.random() < .5 and (not h["hasdist"] or h["dist"]):
                    h.update(hasaxis=True, axis=rng.randrange(-len(d["shape"]), len(d["shape"])))
        reads.append(dict(how=how, target=tgt, axis=rng.randrange(-len(dsets[tgt - 1]["shape"]), len(dsets[tgt - 1]["shape"])),
                          sels=sels, hints=hints, slash=rng.random() < .5, givefmt=rng.random() < .7))
    return dict(p=p, q=q, fmt=fmt, via=via, wdist=wdist, dsets=dsets, reads=reads, path=rng.choice(["abs", "rel", "sub"]),
                givefmt=rng.random() < .6)


def same(w, g):
    return not g.get("bad") and all(w[k] == g[k] for k in ("axis", "gshape", "start", "shape", "data"))


def judge(c, k, w, o):
    p, q = k["p"], k["q"]
    if any("driver_exc" in x for x in o):
        return c.violation("driver", dict(case=k, got=[x for x in o if "driver_exc" in x][0]))
    for r in range(p):
        if "err" in o[r]["mem"]:
            return c.violation("writing failed", dict(case=k, rank=r, got=o[r]["mem"]))
        m = o[r]["mem"]["ok"]
        for j in range(len(m or ())):
            ws = w["mem"][j]
            if ws["t"] != m[j]["t"] or not same(ws["ranks"][r], m[j]):
                return c.violation("writing changed the data in memory", dict(case=k, rank=r, dset=j, got=m[j]))
    f = o[0]["file"]
    if "err" in f:
        return c.violation("file unreadable", dict(case=k, got=f))
    f = f["ok"]
    if sorted("/" + n.strip("/") for n in f["names"]) != sorted(d["path"] for d in k["dsets"]):
        return c.violation("wrong datasets in the file", dict(case=k, got=f["names"]))
    for j, d in enumerate(k["dsets"]):
        g = f["dsets"][j]
        if not same(w["file"][j], g) or g["dtype"] != "same":
            return c.violation("file content", dict(case=k, dset=j, want=w["file"][j], got=g))
        if k["via"] != "array" and g["tag"] != d["path"]:
            return c.violation("file attributes", dict(case=k, dset=j, got=g))
    if o[0]["stray"]:
        return c.violation("stray files", dict(case=k, got=o[0]["stray"]))
    for i, rd in enumerate(k["reads"]):
        for r in range(q):
            g = o[r]["reads"][i]
            if "err" in g:
                return c.violation("reading failed", dict(case=k, read=rd, rank=r, got=g))
            for j in range(len(k["dsets"])):
                ws = w["reads"][i][j]
                gs = g["ok"][j]
                if ws["t"] != gs["t"] or (ws["t"] != "absent" and not same(ws["ranks"][r], gs)):
                    return c.violation("data read back", dict(case=k, read=rd, dset=j, rank=r,
                                                              want=ws["ranks"][r] if ws["ranks"] else ws, got=gs))


def program(k):
    """What the specification needs of the case: which datasets the file marks as distributed."""
    return dict(p=k["p"], q=k["q"], reads=k["reads"],
                dsets=[dict(shape=d["shape"], data=d["data"], axis=d["axis"],
                            dist=d["dist"] and k["wdist"] and k["via"] != "array") for d in k["dsets"]])


def run(c):
    c.exts("truncate")
    n = c.pick(420, 3000)
    batches = [(1, [case(c.rng, 1) for _ in range(n // 6)]), (2, [case(c.rng, 2) for _ in range(n // 6)]),
               (4, [case(c.rng, 4) for _ in range(n - 2 * (n // 6))])]
    with ThreadPoolExecutor(6) as ex:
        fut = [ex.submit(c.drive, "distio", cs, np=np_, timeout=c.pick(400, 2000)) for np_, cs in batches]
        mods = [ex.submit(c.model, "MC_DistFile", CFG % a, workers=3, must_cover=("WriteA",), min_states=50)
                for a in c.pick([(3, "1,2,3", "1"), (2, "1,2,3", "2")],
                                [(4, "1,2,3,4", "1"), (3, "1,2,3", "2"), (2, "1,2,3,4", "2")])]
        allc = [x for _, cs in batches for x in cs]
        want = c.evaluate("DistFile", [program(k) for k in allc], op="RunFile")
        for m in mods:
            m.result()
        obs = []
        for (np_, cs), f in zip(batches, fut):
            rs = f.result()
            obs += [[r] for r in rs] if np_ == 1 else rs
    for k, w, o in zip(allc, want, obs):
        c.validated()
        c.sample(dict(case=k, expected=w["file"][:1]))
        judge(c, k, w, o)
    c.assumptions += ["h5py without MPI-IO: HDF5 writes are serialised", "selections are slices of positive step or increasing lists",
                      "local file system"]
