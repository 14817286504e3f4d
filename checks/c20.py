"""C20, C21: in-memory group trees and copies."""
from concurrent.futures import ThreadPoolExecutor

CFG = """CONSTANTS
 Names = {%s}
 Depth = %d
 MaxDepth = %d
SPECIFICATION Spec
INVARIANTS Closed ErrorsHarmless Isolated Frame CopyEqual LookupFinds
"""
ACTS = ("Clr", "Wrap", "Rd", "CGroup", "CDset", "ReqG", "ReqD", "GetA", "Del", "SetA", "MutA", "Wr", "Cp")
DTS = ["i8", "i4", "f8", "f4", "c16", ">i4", "struct", "obj", "sobj", "two", "S8", "U8"]
KEYS = ["k", "units", "history"]


class Gen:
    def __init__(self, rng, pid, dist):
        self.rng, self.pid, self.dist = rng, pid, dist
        self.names = rng.sample(["a", "b", "c", "vis", "index_map", "x.y", "é", "hid", "priv"], rng.randint(2, 3))
        self.ops, self.kinds, self.seen = [], [], []   # kinds of handles as far as one can guess
        self.n = 100

    def val(self, n=1):
        self.n += 1
        return [self.n + i for i in range(n)]

    def path(self, root_ok=False):
        r = self.rng
        if self.seen and r.random() < .55:
            p = list(r.choice(self.seen))
            if r.random() < .3:
                p = p + [r.choice(self.names)]
            elif r.random() < .2:
                p = p[:-1]
        else:
            p = [r.choice(self.names) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        p = p[:4]
        if not p and not root_ok:
            p = [r.choice(self.names)]
        return p

    def emit(self, **op):
        op.setdefault("spell", self.rng.randrange(12) if self.rng.random() < .4 else 1)
        if op["spell"] == 1:
            op["spell"] = 4 if self.rng.random() < .9 else 1
        self.ops.append(op)

    def add(self, kind, info=None):
        self.kinds.append((kind, info))

    def handle(self, want):
        c = [i + 1 for i, (k, _) in enumerate(self.kinds) if k in want]
        if not c:
            return None
        return self.rng.choice(c[-4:]) if self.rng.random() < .5 else self.rng.choice(c)

    def root_op(self):
        kinds = ["dmem", "dsub"] if self.dist else ["mem", "mem", "disk", "sub", "sub"]
        if self.dist and self.rng.random() < .2:
            kinds = ["mem", "sub"]
        # all roots of a program alike
        self.rootkind = getattr(self, "rootkind", None) or self.rng.choice(kinds)
        self.emit(op="root", kind=self.rootkind)
        self.add("r")

    def dset(self, op):
        r = self.rng
        n = r.randint(2, 5)
        dt = r.choice(DTS)
        if self.dist and ("obj" in dt or r.random() < .4):
            dt = "two" if r.random() < .7 else "i8"
        op.update(val=self.val(n), chunks=r.choice([[], [], [2]]), dt=dt, dist=r.random() < .5)
        self.n += 10
        if dt == "two" and op["chunks"]:
            op["chunks"] = []
        # which axis it is going to be distributed over, as far as the root is
        op["ax"] = 0 if op["op"] == "cd" and op["dist"] and self.rootkind.startswith("d") and self.rootkind != "disk" else -1

    def step(self):
        r = self.rng
        copyish = self.pid == "C21"
        w = dict(cg=5, cd=8, rg=3, rd=3, get=7, has=4, **{"del": 4}, seta=5, muta=3, dela=1, write=5,
                 parent=2, file=1, ls=2, dcopy=1, dview=1, wrap=2, copy=1, clear=1, eq=2)
        if copyish:
            w.update(copy=6, write=10, seta=6, muta=5, dcopy=3, has=1, ls=1, parent=1)
        o = r.choices(list(w), list(w.values()))[0]
        isg = ("r", "g", "r2")
        if o in ("cg", "cd", "rg", "rd", "get", "has", "del"):
            h = self.handle(isg)
            info = self.kinds[h - 1][1] or []
            p = self.path(root_ok=o in ("get", "has", "rg", "cg", "rd", "del"))
            ab = r.random() < .35
            rel = p
            if not ab and info and r.random() < .5 and p[:len(info)] == info:
                rel = p[len(info):]
            if o == "cd" and not rel:
                rel = [self.names[0]]
            op = dict(op=o, h=h, path=dict(abs=ab, parts=p if ab else rel))
            fullp = p if ab else info + rel
            if o in ("cd", "rd"):
                self.dset(op)
                self.seen.append(fullp[:4])
                kind = "d"
            elif o in ("cg", "rg"):
                self.seen.append(fullp[:4])
                kind = "g"
            elif o == "get":
                kind = "dg"
            else:
                kind = "n"
            self.emit(**op)
            self.add(kind, fullp)
            return
        if o in ("seta", "muta", "dela"):
            h = self.handle(isg + ("d", "dg", "d2"))
            self.emit(op=o, h=h, key=r.choice(KEYS), val=self.val(r.randint(1, 3) if o == "seta" else 1))
            return self.add("n")
        if o in ("write", "dcopy", "dview"):
            h = self.handle(("d", "d2", "dg") if r.random() < .2 else ("d", "d2"))
            if h is None:
                return
            if o == "write":
                self.emit(op=o, h=h, i=r.randint(1, 2), val=self.val(1))
                return self.add("n")
            self.emit(op=o, h=h, how=r.randrange(6))
            return self.add("d2")
        if o in ("parent", "file"):
            h = self.handle(isg + ("d",))
            self.emit(op=o, h=h)
            return self.add("g", None)
        if o in ("ls", "clear"):
            self.emit(op=o, h=self.handle(isg))
            return self.add("n")
        if o == "eq":
            # handles into the in-memory tree itself
            if self.rootkind not in ("mem", "dmem") or any(x["op"] == "wrap" for x in self.ops):
                return
            h = self.handle(isg + ("d", "d2", "dg"))
            same = [i + 1 for i, k in enumerate(self.kinds) if k[0] not in ("n",) and k[1] == self.kinds[h - 1][1]]
            h2 = r.choice(same) if r.random() < .7 else self.handle(isg + ("d", "d2", "dg"))
            self.emit(op=o, h=h, h2=h2)
            return self.add("n")
        if o in ("wrap", "copy"):
            h = self.handle(("r",) if o == "wrap" else ("r", "r2"))
            if o == "wrap":
                # only plain memory groups can be wrapped
                c = [i + 1 for i, op in enumerate(self.ops) if op["op"] == "root" and op["kind"] in ("mem", "dmem")]
                if not c:
                    return
                h = r.choice(c)
                lim = r.random() < .6
                self.emit(op="wrap", h=h, how=r.randrange(6), lim=lim)
                return self.add("g" if lim else "r2", [])
            if sum(op["op"] == "copy" for op in self.ops) >= 3:
                return
            op = dict(op="copy", h=h, shared=[], shallow=r.random() < .15, how=r.randrange(6))
            if r.random() < .5 and self.seen:
                op["shared"] = [list(p) for p in r.sample(self.seen, min(len(self.seen), r.randint(1, 3))) if p]
            self.emit(**op)
            return self.add("r2")


class Copies(Gen):
    """C21: build a tree, copy it, then change everything on either side. Keeps track of what is where."""

    def h(self):
        return len(self.ops)

    def do(self, **op):
        self.emit(**op)
        return len(self.ops)

    def build(self):
        r = self.rng
        self.root_op()
        self.trees = [{}]          # per tree: path -> ("g",) or ("d", object, n, axis)
        self.roots = [1]
        self.nobj = 0
        for _ in range(r.randint(2, 6)):
            t = self.trees[0]
            groups = [()] + [p for p, k in t.items() if k[0] == "g"]
            p = r.choice(groups) + (r.choice(["a", "b", "c", "vis", "ab"]),)
            if p in t or len(p) > 4:
                continue
            if r.random() < .4:
                t[p] = ("g",)
                h = self.do(op="cg", h=1, path=dict(abs=True, parts=list(p)), spell=4)
            else:
                h = self.newdset(0, p)
            for _ in range(r.randint(0, 2)):
                self.do(op="seta", h=h, key=r.choice(KEYS), val=self.val(r.randint(1, 3)))
        if r.random() < .5:
            self.do(op="seta", h=1, key=r.choice(KEYS), val=self.val(r.randint(1, 3)))

    def newdset(self, ti, p):
        r = self.rng
        op = dict(op="cd", h=self.roots[ti], path=dict(abs=True, parts=list(p)), spell=4)
        self.dset(op)
        n = r.choice([1, 1, 2, 3])
        op["val"] = op["val"][:1] * 0 + self.val(n)
        self.n += 10
        if op["chunks"]:
            op["chunks"] = [1]
        self.nobj += 1
        self.trees[ti][p] = ("d", self.nobj, n, op["dt"])
        self.axes = getattr(self, "axes", {})
        self.axes[self.nobj] = op["ax"]
        return self.do(**op)

    def copy(self):
        r = self.rng
        ti = r.randrange(len(self.trees))
        t = self.trees[ti]
        dsets = [p for p, k in t.items() if k[0] == "d"]
        shallow = r.random() < .2
        shared = []
        if not shallow and r.random() < .7:
            shared = r.sample(sorted(dsets), r.randint(0, len(dsets)))
            others = [p for p in t if p not in dsets] + [p[-1:] for p in t if p[-1:] not in t] + [p + ("b",) for p in t if p + ("b",) not in t]
            if others and r.random() < .4:
                shared.append(r.choice(sorted(others)))
        h = self.do(op="copy", h=self.roots[ti], shared=[list(p) for p in shared], shallow=shallow, how=r.randrange(6))
        new = {}
        for p, k in t.items():
            if k[0] == "d" and not (shallow or p in shared):
                self.nobj += 1
                self.axes[self.nobj] = self.axes[k[1]]
                k = ("d", self.nobj, k[2], k[3])
            new[p] = k
        self.trees.append(new)
        self.roots.append(h)

    def change(self):
        r = self.rng
        ti = r.randrange(len(self.trees))
        t, root = self.trees[ti], self.roots[ti]
        ps = sorted(t)
        x = r.random()
        if not ps or x < .07:
            return self.do(op=r.choice(["seta", "seta", "muta", "dela"]), h=root, key=r.choice(KEYS), val=self.val(1))
        p = r.choice(ps)
        if x < .14:
            q = (p if t[p][0] == "g" else p[:-1]) + (r.choice(["n", "a"]),)
            if q not in t:
                self.newdset(ti, q)
            return None
        if x < .2:
            self.do(op="del", h=root, path=dict(abs=True, parts=list(p)))
            for q in [q for q in t if q[:len(p)] == p]:
                del t[q]
            return None
        h = self.do(op="get", h=root, path=dict(abs=True, parts=list(p)), spell=4)
        if self.rootkind in ("mem", "dmem") and r.random() < .15:
            tj = r.randrange(len(self.trees))
            q = p if r.random() < .7 else r.choice(ps)
            if q in self.trees[tj]:
                h2 = self.do(op="get", h=self.roots[tj], path=dict(abs=True, parts=list(q)), spell=4)
                self.do(op="eq", h=h, h2=h2)
        ds = t[p][0] == "d"
        if ds and x < .35:
            # a copy of the dataset alone
            _, o, n, dt = t[p]
            h2 = self.do(op=r.choice(["dcopy", "dcopy", "dview"]), h=h, how=r.randrange(6))
            for hh in r.sample([h, h2, h2], 2):
                self.touch(hh, n)
            if self.axes[o] >= 0 and dt == "two" and r.random() < .4:
                if self.ops[h2 - 1]["op"] == "dview":
                    self.axes[o] = 1 - self.axes[o]
                    self.do(op="redist", h=h2, ax=self.axes[o])
                else:
                    self.do(op="redist", h=h2, ax=1 - self.axes[o])
            return None
        if ds and r.random() < .5 and self.axes[t[p][1]] >= 0 and t[p][3] == "two":
            o = t[p][1]
            self.axes[o] = r.randrange(2)
            return self.do(op="redist", h=h, ax=self.axes[o])
        if ds and x < .7:
            return self.do(op="write", h=h, i=r.randint(1, t[p][2]), val=self.val(1))
        return self.do(op=r.choice(["seta", "muta", "muta", "dela"]), h=h, key=r.choice(KEYS), val=self.val(1))

    def touch(self, h, n):
        r = self.rng
        if r.random() < .5:
            self.do(op="write", h=h, i=r.randint(1, n), val=self.val(1))
        else:
            self.do(op=r.choice(["seta", "muta", "muta", "dela"]), h=h, key=r.choice(KEYS), val=self.val(1))


def copies(rng, dist, n):
    g = Copies(rng, "C21", dist)
    g.build()
    g.copy()
    while len(g.ops) < n + 6:
        if rng.random() < .12 and len(g.trees) < 4:
            g.copy()
        g.change()
    return dict(ops=g.ops)


def limited(rng, n):
    """C20: a tree looked at through a class that hides some of it"""
    g = Copies(rng, "C20", False)
    g.rootkind = "mem"
    g.root_op()
    g.trees, g.roots, g.nobj = [{}], [1], 0
    t = g.trees[0]
    for _ in range(rng.randint(3, 7)):
        p = rng.choice([()] + sorted(p for p, k in t.items() if k[0] == "g")) + (rng.choice(["a", "b", "hid", "priv", "priv"]),)
        if p in t or len(p) > 4:
            continue
        if rng.random() < .5:
            t[p] = ("g",)
            g.do(op="cg", h=1, path=dict(abs=True, parts=list(p)), spell=4)
        else:
            g.newdset(0, p)
    hs = [(g.do(op="wrap", h=1, how=rng.randrange(6), lim=True), ())]
    while len(g.ops) < n + 8:
        h, base = rng.choice(hs)
        vis = sorted(p for p in t if "hid" not in p and t[p][0] == "g")
        x = rng.random()
        if x < .2 and vis:
            p = rng.choice(vis)
            ab = rng.random() < .5 or p[:len(base)] != base or p == base
            hs.append((g.do(op=rng.choice(["get", "rg"]), h=h, path=dict(abs=ab, parts=list(p if ab else p[len(base):]))), p))
            continue
        if x < .35:
            g.do(op="ls", h=h)
            continue
        p = rng.choice(sorted(t))
        if rng.random() < .4:
            p = rng.choice([(), p, p[:-1]]) + (rng.choice(["a", "b", "hid", "priv"]),)
        ab = rng.random() < .4 or p[:len(base)] != base or p == base
        op = dict(op=rng.choices(["get", "has", "cg", "cd", "rg", "rd", "del"], [4, 4, 2, 2, 2, 2, 1])[0], h=h,
                  path=dict(abs=ab, parts=list(p if ab else p[len(base):])))
        if op["op"] in ("cd", "rd"):
            g.dset(op)
        g.do(**op)
        if op["op"] in ("cd", "del", "cg"):
            break        # what is there now is for the specification to say
    for h, _ in hs:
        g.do(op="ls", h=h)
    return dict(ops=g.ops)


def gen(rng, pid, dist, n):
    x = rng.random()
    if pid == "C20" and x < .3:
        return copies(rng, dist, n) if x < .15 or dist else limited(rng, n)
    if pid == "C21" and rng.random() < .7:
        return copies(rng, dist, n)
    g = Gen(rng, pid, dist)
    g.root_op()
    if rng.random() < .25:
        g.root_op()
    while len(g.ops) < n:
        g.step()
    return dict(ops=g.ops)


def canon(x):
    """Sets come out of TLC as unordered arrays: sort what is a set."""
    return sorted(x, key=lambda d: d["path"])


def cnode(n):
    return dict(path=n["path"], k=n["k"], attrs=sorted(n["attrs"], key=lambda a: a["k"]), data=n["data"], chunks=n["chunks"], ax=n["ax"])


def node_cmp(n, o):
    return cnode(n) == dict(o, chunks=o["chunks"][:1] if len(o["chunks"]) > 1 else o["chunks"])


def hcmp(w, g):
    return w["k"] == g["k"] and w["path"] == g["path"] and w["data"] == g["data"] and \
        sorted(w["attrs"], key=lambda a: a["k"]) == g["attrs"]


def clause_of(op):
    return {"copy": "copy", "dcopy": "dataset copy"}.get(op["op"], op["op"])


def judge(c, case, want, got):
    """First difference between the spec's history and the real one; None if they agree."""
    for i, w in enumerate(want):
        op = case["ops"][i]
        if w["res"]["k"] == "skip":
            return None, i
        if i >= len(got):
            return ("missing step", i, w["res"], None), i
        g = got[i]
        if "bad" in g:
            return ("inconsistent tree after " + op["op"], i, w["res"], g), i
        wr, gr = w["res"], g["res"]
        if wr["k"] != gr["k"] or (wr["k"] == "val" and sorted(wr["v"]) != gr["v"]):
            return ("result of " + op["op"], i, wr, gr), i
        if wr["k"] == "err" and wr["e"] and wr["e"] != gr["e"]:
            return ("error of " + op["op"], i, wr, gr), i
        if op["op"] not in ("parent", "file", "wrap") or True:
            if not hcmp(w["h"], g["h"]):
                return ("object returned by " + op["op"], i, w["h"], g["h"]), i
        wt = [canon(t) for t in w["dump"]["trees"]]
        if len(wt) != len(g["trees"]):
            return ("number of trees", i, len(wt), len(g["trees"])), i
        for a, b in zip(wt, g["trees"]):
            if len(a) != len(b) or any(not node_cmp(x, y) for x, y in zip(a, b)):
                dif = [(x, y) for x, y in zip(a, b) if not node_cmp(x, y)] or [(a, b)]
                return ("tree after " + op["op"], i, dif[0][0], dif[0][1]), i
        for a, b in zip(w["dump"]["dh"], g["dh"]):
            if a["k"] == "d" and not hcmp(a, b):
                return ("dataset handle after " + op["op"], i, a, b), i
    return None, len(want)


def run(c):
    c.exts("truncate")
    c.model("MC_Tree", CFG % ('"a","b"', c.pick(3, 4), 2 if not c.thorough else 1), workers=6, must_cover=ACTS, min_states=1000)
    c.model("MC_Tree", CFG % ('"a","hid"', c.pick(3, 4), 1), workers=6, must_cover=ACTS, min_states=500)
    c.model("MC_Tree", CFG % ('"a"', c.pick(4, 6), 2), workers=6, must_cover=ACTS, min_states=500)
    n = c.pick(450, 3000)
    L = c.pick((6, 18), (6, 30))
    ser = [gen(c.rng, c.pid, False, c.rng.randint(*L)) for _ in range(n)]
    dis = [gen(c.rng, c.pid, True, c.rng.randint(*L)) for _ in range(n // 4)]
    allc = ser + dis
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(c.drive, "memtree", ser, timeout=c.pick(300, 1200))
        f2 = ex.submit(c.drive, "memtree", dis, np=2, timeout=c.pick(300, 1200))
        want = c.evaluate("MemTree", allc)
        obs = [[o] for o in f1.result()] + f2.result()
    steps = 0
    for k, w, os_ in zip(allc, want, obs):
        for o in os_:
            if "driver_exc" in o:
                c.violation("driver", dict(case=k, got=o))
                break
            bad, m = judge(c, k, w, o["steps"])
            steps += m
            if bad:
                c.violation(bad[0], dict(case=k, step=bad[1], op=k["ops"][bad[1]], want=bad[2], got=bad[3]))
                break
        c.validated()
        c.sample(dict(case=k, last=w[-1]["res"]))
    c.cov["steps_compared"] = steps
    c.cov["mean_steps"] = round(steps / max(1, len(allc)), 1)
    c.assumptions += ["names without '.' or '..' components", "whole trees are copied, not subgroups"]
