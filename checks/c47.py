"""C47: forms of time, leap seconds and the stellar clock."""
CFG = """CONSTANTS
 LastDay = %d
 Steps = %d
SPECIFICATION Spec
INVARIANTS Same Kept Cut Fielded ZoneFree
"""
ABLE = dict(unix=["to_datetime", "ensure", "to_sky"], naive=["to_unix", "ensure", "to_str", "to_utc"], aware=["to_unix", "ensure", "to_str", "to_utc"],
            str=["from_str", "ensure"], sky=["from_sky", "ensure"])
TO = dict(to_datetime="aware", to_unix="unix", ensure="unix", to_str="str", from_str="naive", to_utc="aware", to_sky="sky", from_sky="unix")
HALF = 43200 * 10**6
LEAPS = [912, 1096, 1461, 1826, 2191, 2557, 2922, 3287, 3652, 4199, 4564, 4929, 5660, 6574, 7305, 7670, 8217, 8582, 8947, 9496, 10043, 10592, 13149, 14245,
         15522, 16617, 17167]
MONTHS = [0, 31, 59, 60, 90, 365, 366, 730, 789, 790, 1154, 10956, 10957, 11015, 11016, 11017, 11322, 11323, 21914, 24855]


def instant(rng, mid=False, after=0, upto=22000):
    r = rng.random()
    d = rng.choice(LEAPS) - rng.choice([0, 0, 1, 2]) if r < .3 else rng.choice(MONTHS) - rng.choice([0, 1]) if r < .45 else rng.randint(after, upto)
    d = min(max(d, after), upto)
    s = rng.choice([0, 1, 86399, 86398, 43200, 43199, 3600, rng.randint(0, 86399), rng.randint(0, 86399)])
    u = rng.choice([0, 0, 500000, 1, 999999, rng.randint(0, 999999)])
    if mid:
        u = rng.randint(2000, 990000)
        s = rng.randint(1, 86398)
    return dict(d=d, s=s, u=u)


def civil(d):
    import datetime
    x = datetime.date(1970, 1, 1) + datetime.timedelta(days=d)
    return [x.year, x.month, x.day]


def fields(i):
    return civil(i["d"]) + [i["s"] // 3600, i["s"] // 60 % 60, i["s"] % 60, i["u"]]


def walk(rng):
    form = rng.choice(["unix", "unix", "naive", "aware", "aware", "str", "sky"])
    kind = rng.choice(["scalar", "scalar", "list", "tuple", "array", "array2"])
    if form == "sky" and kind != "scalar":
        kind = "array"
    ops, f = [], form
    for _ in range(rng.randint(1, 6)):
        able = [o for o in ABLE[f] if not (kind == "array2" and (o in ("to_sky", "from_sky") or (o == "ensure" and f != "unix")))]
        if "to_sky" in ops or form == "sky":      # good to some microseconds: the second it is in is not certain if it was cut to one
            able = [o for o in able if o != "to_str" or not ("to_str" in ops or form == "str")]
        if not able:
            break
        o = rng.choice(able)
        ops.append(o)
        f = TO[o]
    sky = form == "sky" or "to_sky" in ops
    n = 1 if kind == "scalar" else 2 * rng.randint(1, 2) if kind == "array2" else rng.choice([0, 1, 2, 2, 3, 5])
    if sky and n == 0:
        n = 2
    how = rng.choice(["float", "float", "int"]) if form == "unix" else ""
    before = rng.random() < .15 and not sky
    vals = []
    for _ in range(n):
        i = instant(rng, mid=sky)
        if before:
            i["d"] = -rng.randint(1, 9000)
        if how == "int":
            i["u"] = 0
        v = dict(i=i)
        if form in ("naive", "aware"):
            v["f"] = fields(i)
            v["off"] = rng.choice([0, 330, -720, 60, -1, 840, -210]) if form == "aware" else 0
        if form == "str":
            x = fields(i)
            v["text"] = "%04d%02d%02dT%02d%02d%02d" % tuple(x[:6]) + rng.choice(["Z", "Z", "", ".25Z", "Z_chan", "+05"])
        vals.append(v)
    return dict(op="walk", form=form, kind=kind, vals=vals, ops=ops, how=how, sky=sky, tod=[rng.random() < .5 for _ in range(len(ops) + 1)])


def leap(rng):
    n = rng.randint(1, 5)
    ka, kb = rng.choice([("scalar", "scalar"), ("list", "list"), ("array", "tuple"), ("scalar", "array"), ("array", "scalar"), ("list", "scalar")])
    if ka == kb == "scalar":
        n = 1
    a, b = [instant(rng) for _ in range(n)], [instant(rng) for _ in range(n)]
    for k, v in ((ka, a), (kb, b)):
        if k == "scalar":
            v[:] = [v[0]] * n
    if rng.random() < .3:
        for j in range(n):
            if ka != "scalar" and kb != "scalar":
                b[j] = dict(a[j], d=a[j]["d"] + rng.choice([0, 1]))
    return dict(op="leap", a=a, b=b, ka=ka, kb=kb)


def stellar(rng):
    # within the days for which the rotation of the Earth was measured
    def when():
        i = instant(rng, after=4000, upto=19500)          # to the millisecond
        return dict(i, u=i["u"] // 1000 * 1000)

    n = rng.randint(1, 4)
    start = when()
    return dict(op="stellar", lon=rng.choice([0.0, -119.625, 180.0, -180.0, 12.5, rng.randint(-1800, 1800) / 10]), start=start,
                startform=rng.choice(["unix", "datetime"]), t=[when() for _ in range(n)], t0=[when() for _ in range(n)],
                sought=[rng.choice([0.0, 359.99, 180.0, rng.randint(0, 3599) / 10]) for _ in range(n)], kind=rng.choice(["scalar", "list", "tuple", "array"]))


def near(a, b, tol):
    x = (a["d"] * 86400 + a["s"]) * 10**6 + a["u"]
    y = (b["d"] * 86400 + b["s"]) * 10**6 + b["u"]
    return abs(x - y) <= tol


def run(c):
    c.exts()
    c.model("MC_TimeForms", CFG % c.pick((18000, 2), (48000, 3)), workers=6, min_states=50000, must_cover=["NextDay", "Pick", "Convert"])
    rng, n = c.rng, c.pick(1, 8)
    cases = [walk(rng) for _ in range(900 * n)] + [leap(rng) for _ in range(250 * n)] + [stellar(rng) for _ in range(150 * n)]
    got = c.drive("times", cases)
    plain = [(q, g) for q, g in zip(cases, got) if q["op"] != "stellar"]
    want = c.evaluate("TimeForms", [q for q, _ in plain])
    for (q, g), w in zip(plain, want):
        c.validated()
        if "driver_exc" in g:
            c.violation(q["op"] + " raised", dict(case=q, got=g))
        elif q["op"] == "leap":
            c.compare("leap seconds", q, dict(scalar=q["ka"] == q["kb"] == "scalar", n=w["n"], whole=True), g)
        else:
            steps(c, q, w, g)
    recs, of = [], []
    for q, g in zip(cases, got):
        if q["op"] == "stellar":
            if isinstance(g, dict):
                c.violation("stellar raised", dict(case=q, got=g))
                continue
            recs += g
            of += [q] * len(g)
    for q, r, w in zip(of, recs, c.evaluate("TimeForms", recs, op="Judge")):
        c.validated()
        if w["broken"] or not r["same"]:
            c.violation("stellar clock " + " ".join(w["broken"]), dict(case=q, recorded=r, broken=w["broken"]))
        if r["eraat"] != r["at"] and q["lon"] == 0:
            c.violation("angle sought", dict(case=q, recorded=r))
    c.cov.update(conversions=sum(len(q["ops"]) for q in cases if q["op"] == "walk"), stellar_records=len(recs))
    c.sample(dict(case=cases[0], expected=want[0]))
    c.assumptions += ["skyfield's own tables of leap seconds and of UT1", "years 1946-2038"]


def steps(c, q, w, g):
    if "err" in g:
        return c.violation("conversion raised", dict(case=q, got=g))
    tol = 100 if q["sky"] else 0
    for k, r in enumerate(g["steps"]):
        exp = [(w["steps"][j][k - 1] if k else w["start"][j]) for j in range(len(q["vals"]))]
        what = q["ops"][k - 1] if k else "start"
        detail = dict(case=q, step=k, expected=exp, got=r)
        shape = [] if q["kind"] == "scalar" else [len(exp) // 2, 2] if q["kind"] == "array2" else [len(exp)]
        if k:
            bad = (r["kind"] not in ("scalar" if q["kind"] == "scalar" else "array",) or r["shape"] != shape or not r["kept"] or len(r["vals"]) != len(exp))
            for x, y in zip(exp, r["vals"]):
                f = x["form"]
                bad = bad or y["form"] != f
                if bad:
                    break
                if f == "unix":
                    bad = not near(x["i"], y["i"], tol) or not y["float"]
                elif f in ("naive", "aware") and not q["sky"]:
                    bad = x["fields"] != y["fields"]
                elif f in ("naive", "aware"):
                    import datetime as dt
                    bad = abs(dt.datetime(*x["fields"]) - dt.datetime(*y["fields"])) > dt.timedelta(microseconds=tol)
                elif f == "str":
                    bad = x["text"] != y["text"]
                if bad:
                    break
            if bad:
                return c.violation("conversion " + what, detail)
        if "tod" in r:
            t = r["tod"]
            bad = t["scalar"] != (q["kind"] == "scalar") or t["shape"] != shape
            for x, y in zip(exp, t["vals"]):
                bad = bad or not 0 <= y[0] < 86400 or abs(((x["tod"][0] - y[0]) * 10**6 + x["tod"][1] - y[1] + HALF) % (2 * HALF) - HALF) > tol
            if bad:
                return c.violation("time of day", detail)
