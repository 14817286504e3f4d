"""Histories of operations on the array cache."""
import vpdrv
import numpy as np

from caput.util.arraytools import LRUCache


def array(o):
    a = np.empty(tuple(o["shape"]), dtype=o["dtype"])
    if o["view"] and o["shape"]:
        a = np.empty(tuple(2 * s for s in o["shape"]), dtype=o["dtype"])[tuple(slice(None, None, 2) for _ in o["shape"])]
    return a


def run(case):
    c = LRUCache(case["max"])
    ids, out = {}, []
    for o in case["ops"]:
        k, r = o["op"], dict(ok=True, id=0)
        key = tuple(o["k"].split("-")) if "-" in o.get("k", "") else o.get("k")
        try:
            if k == "set":
                v = [[1, 2], (3,), 5, "abc", None, np.float64(3)][o["id"] % 6] if o["bad"] else array(o)
                ids[id(v)] = (o["id"], v)
                if o["how"] == "update":
                    c.update({key: v})
                else:
                    c[key] = v
            elif k == "lookup":
                v = c[key]
                r["id"] = ids.get(id(v), (-1, 0))[0]
            elif k == "get":
                v = c.get(key)
                r["id"] = 0 if v is None else ids.get(id(v), (-1, 0))[0]
            elif k == "has":
                r["ok"] = key in c
            elif k == "del":
                del c[key]
            elif k == "pop":
                r["id"] = ids.get(id(c.pop(key)), (-1, 0))[0]
            elif k == "popitem":
                r["id"] = ids.get(id(c.popitem()[1]), (-1, 0))[0]
            elif k == "clear":
                c.clear()
        except (KeyError, ValueError):
            r = dict(ok=False, id=0)
        # the entries are counted by their keys: reading a value would count as a use
        out.append(dict(r=r, held=sorted("-".join(x) if isinstance(x, tuple) else x for x in c), used=int(c.currsize)))
    return out


vpdrv.loop(run)
