"""C11, C12, C13: distributed arrays."""
from concurrent.futures import ThreadPoolExecutor

import gen_array as G

CFG = """CONSTANTS
 MaxDim = %d
 Ranks = {%s}
 Depth = %d
 NDs = {%s}
SPECIFICATION Spec
INVARIANTS BlocksAreTheSplit AssembleGivesGlobal SplitIsFair GlobalReadAssembles
"""
ACTIONS = ("Redist", "IndexFull", "Transp", "Reduc", "Accum", "Bin", "GSet")


def models(c):
    c.model("MC_Dist", CFG % (3, "1,2,3", 2, "1,2"), workers=6, must_cover=ACTIONS, min_states=1000)
    c.model("MC_Dist", CFG % (2, "2,3", 1, "3"), workers=6, must_cover=ACTIONS, min_states=500)
    if c.thorough:
        c.model("MC_Dist", CFG % (4, "1,2,3,4", 2, "1,2"), workers=8, min_states=1000)
        c.model("MC_Dist", CFG % (2, "1,2,3", 2, "3"), workers=8, min_states=500)


def same(want, got):
    """Compare the expected observation of one rank with the real one."""
    if got["t"] != want["t"]:
        # a rank without data may hold an empty plain array instead of None
        return False
    if got.get("bad"):
        return False
    if want["t"] == "err":
        return True
    if want["shape"] == [-1] and got["t"] == "nd":
        return got["shape"] == [-1] or G.size(got["shape"]) == 0
    return all(want[k] == got[k] for k in ("axis", "gshape", "start", "shape", "data"))


def rank_view(o, r):
    if o["t"] == "err":
        return dict(t="err")
    return dict(o["ranks"][r], t=o["t"])


def judge(c, cases, want, obs):
    for k, w, o in zip(cases, want, obs):
        c.validated()
        c.sample(dict(case=k, expected=w["steps"][:1]))
        p = k["p"]
        bad = None
        if any(o[r] is None or "driver_exc" in o[r] for r in range(p)):
            c.violation("driver", dict(case=k, got=o[:p]))
            continue
        for r in range(p):
            if not same(rank_view(w["init"], r), o[r]["init"]):
                bad = bad or ("creation", r, -1, rank_view(w["init"], r), o[r]["init"])
            for i, (ws, os_) in enumerate(zip(w["steps"], o[r]["steps"])):
                wv = rank_view(ws["res"], r)
                if k["ops"][i].get("oob") and (k["ops"][i]["op"] == "gset" or os_["res"].get("shape") == [-1]):
                    wv = os_["res"]      # refused, or nothing read and nothing written
                if not same(wv, os_["res"]):
                    bad = bad or (k["ops"][i]["op"], r, i, wv, os_["res"])
                elif not same(rank_view(ws["now"], r), os_["now"]):
                    bad = bad or (k["ops"][i]["op"] + " leaves the array", r, i, rank_view(ws["now"], r), os_["now"])
        if bad:
            cl, r, i, wv, ov = bad
            c.violation(cl, dict(case=k, rank=r, step=i, want=wv, got=ov))


GEN = dict(C11=G.move_case, C12=G.numpy_case, C13=G.gslice_case)


def run(c):
    c.exts("truncate")
    models(c)
    n = c.pick(dict(C11=700, C12=900, C13=700)[c.pid], 2500)
    gen = GEN[c.pid]
    batches = []
    for np_, share in ((1, .15), (3, .3), (4, .55)):
        cs = []
        for _ in range(int(n * share)):
            p = np_ if np_ < 4 or c.rng.random() < .5 else c.rng.randint(1, 4)
            cs.append(gen(c.rng, p))
        batches.append((np_, [x for x in cs if x["ops"]]))
    with ThreadPoolExecutor(3) as ex:
        fut = [ex.submit(c.drive, "mpiarr", cs, np=np_, timeout=c.pick(400, 1500)) for np_, cs in batches]
        allc = [x for _, cs in batches for x in cs]
        want = c.evaluate("DistArray", allc)
        obs = []
        for (np_, cs), f in zip(batches, fut):
            rs = f.result()
            obs += [[r] for r in rs] if np_ == 1 else rs
    judge(c, allc, want, obs)
    c.assumptions += ["task memory suffices", "plain-array operands are the same on every rank"]
