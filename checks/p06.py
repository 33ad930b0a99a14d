"""P06: histories of queries on one timezone definition and its copies (TLC-generated and random), judged without memory."""
import datetime
from . import tzgen as t, p05


def concretise(rng, i, beh):
    """the two observances of TzHist as a real definition; a phase is a time next to an onset"""
    y0 = rng.choice([1971, 1999, 2005])
    std = 60 * rng.choice([0, -300, 60, 330, 600])
    dst = std + 3600
    sec = rng.choice([0, 0, 58])
    ma, mb = 4, 10
    how = rng.choice(["rrule", "rdate", "bounded"])
    sa = [datetime.datetime(y0 + k, ma, t.nth(y0 + k, ma, 1, 0), 2, 0, sec) for k in range(0, 12)]
    sb = [datetime.datetime(y0 + k, mb, t.nth(y0 + k, mb, -1, 0), 3, 0, sec) for k in range(0, 12)]
    if how == "rdate":
        defs = [t.obs(sa[0], std, dst, "DDD", (), sa[1:4], "DAYLIGHT"), t.obs(sb[0], dst, std, "SSS", (), sb[1:4])]
    else:
        u = None if how == "rrule" else dict(t.rec(sa[3] - datetime.timedelta(seconds=std)), tz="Z")
        v = None if how == "rrule" else dict(t.rec(sb[3] - datetime.timedelta(seconds=dst)), tz="Z")
        defs = [t.obs(sa[0], std, dst, "DDD", [t.yearly(ma, 1, 0, u)], (), "DAYLIGHT"), t.obs(sb[0], dst, std, "SSS", [t.yearly(mb, -1, 0, v)], ())]
    if rng.random() < .5:
        defs.insert(0, t.obs(datetime.datetime(y0 - 2, 3, 4, 5, 6, 7), std - 1800, std, "LMT"))
    if rng.random() < .4:
        defs = defs[::-1]

    def conc(x, utc=0):
        y, p = divmod(x, 10)
        a, b = sa[y - 1], sb[y - 1]
        if utc:
            a, b = a - datetime.timedelta(seconds=std), b - datetime.timedelta(seconds=dst)
        s = datetime.timedelta(seconds=1)
        return [datetime.datetime(a.year, 1, 10), a - s, a, a + s * rng.choice([1, 30]), b - s * rng.choice([1, 30]), b, b + s][p]
    ev = []
    n = 1
    for e in beh:
        if e["op"] == "off":
            ev.append({"op": "off", "i": e["o"], "dt": t.rec(conc(e["t"], e["rel"])), "rel": e["rel"]})
        elif e["op"] == "desc":
            ev.append({"op": "desc", "i": e["o"], "dt": t.rec(conc(e["t"]))})
        elif e["op"] == "range":
            ev.append({"op": "range", "i": e["o"], "lo": t.rec(conc(e["lo"])) if rng.random() < .7 else {"y": 0}, "hi": t.rec(conc(e["hi"])), "names": rng.randint(0, 1)})
        elif e["op"] == "dup":
            n += 1
            ev.append({"op": "dup", "i": e["o"], "j": n})
    return {"id": "b%d" % i, "init": {"def": defs, "text": t.text(defs), "hi": t.rec(datetime.datetime(y0 + 16, 1, 1)), "fresh": 0}, "events": ev}


def neighbour(rng, q):
    """the same question for a time that differs in one or two fields (cache keys must tell them apart)"""
    q = dict(q)
    k = rng.choice([x for x in ("dt", "hi") if x in q])
    if q[k].get("do") or not q[k]["y"]:
        return q
    d = dict(q[k])
    for f in "hns"[rng.choice([0, 1, 1, 2]):] if rng.random() < .4 else rng.sample(["y", "m", "d", "h", "n", "s"], rng.choice([1, 1, 2])):
        d[f] = {"y": max(d["y"] + rng.choice([1, -1]), 1960), "m": d["m"] % 12 + 1, "d": d["d"] % 28 + 1, "h": rng.choice([0, 0, (d["h"] + 1) % 24, (d["h"] + 23) % 24]),
                "n": rng.choice([0, 0, 0, 0, 30, 59]), "s": rng.choice([0, 0, 0, 59, 1])}[f]
    d["d"] = min(d["d"], 28)
    q[k] = d
    if q["op"] == "range" and q["lo"]["y"] and t.g.todt(q["lo"]) > t.g.todt(d):
        q["lo"] = {"y": 0}
    if q["op"] == "off" and rng.random() < .3:
        q["rel"] = 1 - q["rel"]
    return q


def turns(rng, z, n):
    """questions about an onset near the turn of a year, after questions about years before it"""
    ev = []
    for o in z["def"]:
        for x in [o["start"]] + o["rdates"]:
            if (x["m"], x["d"]) in ((1, 1), (12, 31), (1, 2)):
                d = t.g.todt(x)
                for k in rng.sample([1, 2, 3], 2):
                    ev.append({"op": "off", "i": rng.randint(1, n), "dt": t.rec(d - datetime.timedelta(days=365 * k - rng.randint(-5, 5))), "rel": rng.randint(0, 1)})
                u = d - datetime.timedelta(seconds=o["from"])
                for y in rng.sample([-1, 0, 1, 60, 3600], 2):
                    ev.append({"op": "off", "i": rng.randint(1, n), "dt": t.rec(u + datetime.timedelta(seconds=y)), "rel": 1})
    return ev


def session(rng, i):
    s = p05.session(rng, i, 0, 0)
    z = {"def": s["init"]["def"], "lo": s["init"]["def"][0]["start"]["y"] - 1, "top": s["init"]["hi"]["y"] - 4}
    n = 1
    ev = []
    for _ in range(rng.randint(15, 50)):
        if rng.random() < .05 and n < 4:
            ev.append({"op": "dup", "i": rng.randint(1, n), "j": n + 1})
            n += 1
        else:
            q = t.query(rng, z, n)
            ev.append(q)
            if rng.random() < .5:
                ev.append(neighbour(rng, rng.choice([x for x in ev[-6:] if x["op"] != "dup"])))
            if rng.random() < .25:        # the same question again, or a close one, later
                ev.append(dict(rng.choice([x for x in ev if x["op"] != "dup"])))
        if rng.random() < .12:
            ev += turns(rng, z, n)
    s["events"] = ev
    s["id"] = "h%d" % i
    return s


def check(run):
    run.mc("TzHist.tla", run.scale("TzHist.cfg", "TzHist_big.cfg"))
    beh = run.gen("TzHist.tla", "TzHist_gen.cfg", run.scale(400, 6000), 14)
    s = [concretise(run.rng, i, b) for i, b in enumerate(beh)] + [session(run.rng, i) for i in range(run.scale(250, 4000))]
    recs = run.drive("tz", s)
    run.validate("TzTrace", recs)
