"""C10: work splitting."""


def run(c):
    c.exts("truncate")
    c.model("MC_Split", "CONSTANTS\n MaxN = %d\n MaxM = %d\nSPECIFICATION Spec\nINVARIANTS Fair Consecutive Even AltCovers Shift JudgeOK\n"
            % (c.pick(14, 24), c.pick(7, 10)), workers=6, min_states=500)
    rng = c.rng
    pure = [dict(mode="pure", n=n, m=m, full=True, k=0) for n in range(c.pick(40, 90)) for m in range(1, c.pick(14, 30))]
    pure += [dict(mode="pure", n=rng.randint(200, 4000), m=rng.randint(1, 40), full=True, k=0) for _ in range(c.pick(8, 40))]
    pure += [dict(mode="pure", n=rng.randint(200, 2000000000), m=rng.randint(1, 40), full=False,
                  k=rng.choice([0, 0, rng.randint(1, 10 ** 9), rng.randint(1, 10 ** 15)])) for _ in range(c.pick(90, 400))]
    mpi = [dict(mode="mpi", n=n, m=m, form=n % 2, full=True, k=0) for n in list(range(22)) + [rng.randint(22, 120) for _ in range(8)] for m in (1, 2, 3, 4, 5)]
    op = c.drive("split", pure)
    want = c.evaluate("Split", [dict(n=x["n"], m=x["m"], full=x["full"]) for x in pure + mpi])
    om = c.drive("split", mpi, np=5)
    rand = []
    for k, w, o in zip(pure, want, op):
        c.validated()
        for f, s in (("size", lambda r: 1), ("start", lambda r: r), ("end", lambda r: r + 1)):
            # n + k m items in all (invariant Shift of the model; TLC's integers are small)
            c.compare("ranges: " + f, k, [v + k["k"] * s(r) for r, v in enumerate(w[f])], o.get(f))
        c.compare("unknown method must fail", k, "ValueError", o["badmethod"])
        if k["full"]:
            for f, g in (("con", "con"), ("con2", "con"), ("alt", "alt")):
                c.compare("partition " + g, k, w[g], o[f])
            c.compare("list untouched", k, True, o["untouched"])
            rand.append((k, dict(n=k["n"], m=k["m"], parts=o["rand"])))
    for k, w, o in zip(mpi, want[len(pure):], om):
        c.validated()
        m = k["m"]
        for r in range(m):
            x = o[r]
            for f in ("size", "start", "end"):
                c.compare(f"rank ranges: {f}", dict(k, rank=r), w[f], x[f])
            c.compare("local range", dict(k, rank=r), [w[f][r] for f in ("size", "start", "end")], x["local"])
            c.compare("distributed array range", dict(k, rank=r), [w["size"][r], w["start"][r]], x["arr"])
            for f in ("con", "alt"):
                c.compare("rank partition " + f, dict(k, rank=r), w[f][r], x[f])
                c.compare("distributed range " + f, dict(k, rank=r), [3 + 2 * v for v in w[f][r]], x["r_" + f])
            c.compare("distributed range", dict(k, rank=r), w["con"][r], x["r_def"])
        rand.append((k, dict(n=k["n"], m=m, parts=[o[r]["rand"] for r in range(m)])))
        rand.append((k, dict(n=k["n"], m=m, parts=[[(v - 3) // 2 for v in o[r]["r_rand"]] for r in range(m)])))
    for (k, x), v in zip(rand, c.evaluate("Split", [x for _, x in rand], op="JudgeRand")):
        if not v["ok"]:
            c.violation("random partition loses or repeats items", dict(case=k, got=x))
    c.sample(dict(case=mpi[7], expected=want[len(pure) + 7]))
