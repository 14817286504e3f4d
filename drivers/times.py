"""Histories of time conversions, leap seconds and the stellar clock."""
import vpdrv
import math
import os
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np
from skyfield import iokit, timelib

os.environ["CAPUT_SKYFIELD_PATH"] = vpdrv.WORK
# the tables that come with skyfield, whatever lies in the data directory
_real = iokit.Loader.timescale
iokit.Loader.timescale = lambda self, *a, **k: _real(self, builtin=True)

from caput.astro import observer, skyfield as csf, time as ctime


def number(i, whole=False):
    if whole:
        return i["d"] * 86400 + i["s"]
    return float(Fraction((i["d"] * 86400 + i["s"]) * 10**6 + i["u"], 10**6))


def start(form, v, how):
    if form == "unix":
        return number(v["i"], how == "int")
    if form == "str":
        return v["text"]
    if form == "sky":
        return csf.unix_to_skyfield_time(number(v["i"]))
    f = v["f"]
    return datetime(*f, tzinfo=timezone(timedelta(minutes=v["off"])) if form == "aware" else None)


def pack(vals, kind, form):
    if kind == "scalar":
        return vals[0]
    if kind == "list":
        return list(vals)
    if kind == "tuple":
        return tuple(vals)
    a = np.array(vals) if form in ("unix", "str") else np.array(vals, dtype=object)
    if form == "unix" and not vals:
        a = np.array([], dtype=float)
    if form == "str" and not vals:
        a = np.array([], dtype=str)
    return a.reshape(-1, 2) if kind == "array2" else a


def instant(x):
    n = round(Fraction(float(x)) * 10**6)
    return dict(d=n // (86400 * 10**6), s=n // 10**6 % 86400, u=n % 10**6)


def enc(x):
    if isinstance(x, datetime):
        off = x.utcoffset()
        return dict(form="naive" if off is None else "aware", fields=[x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond],
                    off=0 if off is None else int(off.total_seconds()) // 60)
    if isinstance(x, str):
        return dict(form="str", text=str(x))
    if isinstance(x, timelib.Time):
        return dict(form="sky")
    if isinstance(x, (int, float, np.integer, np.floating)):
        return dict(form="unix", i=instant(x), float=isinstance(x, (float, np.floating)))
    return dict(form="?" + type(x).__name__)


def tod(x):
    n = round(Fraction(float(x)) * 10**6)
    return [n // 10**6, n % 10**6]


def show(x):
    if isinstance(x, timelib.Time):
        sc = not isinstance(x.tt, np.ndarray)
        return dict(kind="scalar" if sc else "array", shape=[] if sc else list(x.tt.shape), vals=[dict(form="sky")] * (1 if sc else len(x.tt)))
    if isinstance(x, np.ndarray):
        return dict(kind="array", shape=list(x.shape), vals=[enc(y) for y in x.ravel()])
    if isinstance(x, (list, tuple)):
        return dict(kind=type(x).__name__, shape=[len(x)], vals=[enc(y) for y in x])
    return dict(kind="scalar", shape=[], vals=[enc(x)])


FN = dict(to_datetime=ctime.unix_to_datetime, to_unix=ctime.datetime_to_unix, ensure=ctime.ensure_unix, to_str=ctime.datetime_to_timestr,
          from_str=ctime.timestr_to_datetime, to_utc=ctime.naive_datetime_to_utc, to_sky=csf.unix_to_skyfield_time, from_sky=csf.skyfield_time_to_unix)


def walk(case):
    if case["form"] == "sky":
        nums = [number(v["i"]) for v in case["vals"]]
        x = csf.unix_to_skyfield_time(nums[0] if case["kind"] == "scalar" else nums)
    else:
        x = pack([start(case["form"], v, case["how"]) for v in case["vals"]], case["kind"], case["form"])
    out = []
    for k, op in enumerate([None] + case["ops"]):
        try:
            if op is not None:
                before = show(x)
                y = FN[op](x)
                kept = show(x) == before
                x = y
                r = dict(show(x), kept=kept)
            else:
                r = {}
            if case["tod"][k]:
                t = ctime.time_of_day(x)
                r["tod"] = dict(scalar=not isinstance(t, np.ndarray), shape=list(np.shape(t)), vals=[tod(y) for y in np.ravel(t)])
        except Exception as e:  # noqa: BLE001
            return dict(steps=out, err=vpdrv.exc_name(e), msg=str(e)[:200], at=k)
        out.append(r)
    return dict(steps=out)


def leap(case):
    def form(v, k):
        v = [number(i) for i in v]
        return v[0] if k == "scalar" else tuple(v) if k == "tuple" else np.array(v) if k == "array" else v

    r = ctime.leap_seconds_between(form(case["a"] if case["ka"] != "scalar" else case["a"][:1], case["ka"]),
                                   form(case["b"] if case["kb"] != "scalar" else case["b"][:1], case["kb"]))
    return dict(scalar=not isinstance(r, np.ndarray), n=[int(x) for x in np.ravel(r)], whole=all(float(x) == int(x) for x in np.ravel(r)))


def ms(t):
    n = round(Fraction(float(t)) * 1000)
    return dict(d=n // 86400000, ms=n % 86400000)


def turns(a):
    return round(Fraction(float(a)) * 10**7 / 360)


def stellar(case):
    st = number(case["start"])
    if case["startform"] == "datetime":
        st = datetime.fromtimestamp(st, timezone.utc)
    obs = observer.Observer(case["lon"], 10.0, lsd_start=st)
    ts, t0s, so = [number(i) for i in case["t"]], [number(i) for i in case["t0"]], case["sought"]
    k = case["kind"]
    form = {"list": list, "tuple": tuple, "array": np.array}.get(k)

    def each(f, *args):
        if form is None:
            return [f(*[a[0] for a in args])]
        r = f(*[form(a) for a in args])
        assert isinstance(r, np.ndarray) and r.shape == (len(args[0]),), (f, r)
        return list(r)

    if form is None:
        ts, t0s, so = ts[:1], t0s[:1], so[:1]
    era, lsa = each(ctime.unix_to_era, ts), each(obs.unix_to_lsa, ts)
    lsd = each(obs.unix_to_lsd, ts)
    back = each(obs.lsd_to_unix, lsd)
    at = each(obs.lsa_to_unix, so, t0s)
    era_at = each(ctime.era_to_unix, so, t0s)
    zero = obs.lsd_zero()
    same = [float(each(obs.lsa, ts)[j]) == float(lsa[j]) and float(each(obs.lsd, ts)[j]) == float(lsd[j]) for j in range(len(ts))]
    out = []
    for j in range(len(ts)):
        w = math.floor(lsd[j])
        out.append(dict(t=ms(ts[j]), era=turns(era[j]), lsa=turns(lsa[j]), lon=turns(case["lon"]), whole=w, part=turns((lsd[j] - w) * 360), back=ms(back[j]),
                        sought=turns(so[j]), t0=ms(t0s[j]), at=ms(at[j]), atlsa=turns(obs.unix_to_lsa(float(at[j]))),
                        eraat=ms(era_at[j]), eraatera=turns(ctime.unix_to_era(float(era_at[j]))),
                        zero=ms(zero), start=ms(number(case["start"])), zerolsa=turns(obs.unix_to_lsa(float(zero))),
                        zerowhole=math.floor(float(obs.unix_to_lsd(float(zero))) + .5), zeroback=ms(obs.lsd_to_unix(0.0)), same=same[j]))
    return out


vpdrv.loop(lambda c: dict(walk=walk, leap=leap, stellar=stellar)[c["op"]](c))
