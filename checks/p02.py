"""P02: histories of date-time values against P02Trace.tla."""
import datetime
from . import recurgen as g, tzgen as t


def zone(rng, name):
    """a zone with explicit transitions between 1988 and 2013"""
    y0, n = 1988, 26
    std = 60 * rng.choice([0, -300, -480, 60, 330, 570, -210, 600])
    dst = std + 60 * rng.choice([60, 60, 30, 120])
    h = rng.choice([1, 2, 2, 3, 0])
    a = [datetime.datetime(y0 + k, 4, rng.randint(1, 28), h) for k in range(n)]
    b = [datetime.datetime(y0 + k, 10, rng.randint(1, 28), h) for k in range(n)]
    defs = [t.obs(datetime.datetime(1950, 1, 1), std, std, "LMT"),
            t.obs(a[0], std, dst, "DST", (), a[1:], "DAYLIGHT"), t.obs(b[0], dst, std, "STD", (), b[1:])]
    return {"name": name, "def": defs, "text": t.text(defs).replace("X/zone", name), "hi": t.rec(datetime.datetime(2016, 1, 1)), "edges": a + b}


def when(rng, zones, kind):
    if kind == "A" and rng.random() < .6:
        d = rng.choice(rng.choice(zones)["edges"])
        d += datetime.timedelta(seconds=rng.choice([-1, 1, 3600, -3600, 7200, -7200, 7201, 10800, -10801, 86400, -86400, rng.randint(-40000, 40000)]))
        if d.day > 28:
            d = d.replace(day=28)
        return d
    y = rng.choice([1990, 1999, 2000, 2004, 2009, 2012]) if kind == "A" else rng.choice([1754, 1899, 1969, 1970, 2000, 2011, 2100, 2400])
    return datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 1, 12, 23]), rng.choice([0, 30, 59]), rng.choice([0, 0, 59]))


def clamp(e, kind):
    return e


def session(rng, k):
    kind = rng.choice(["A", "A", "A", "A", "F", "D", "M"])
    mixed = kind == "M"             # floating ones among those with a zone
    kind = "A" if mixed else kind
    zones = [zone(rng, "X/a"), zone(rng, "X/b")]
    tzs = ["Z", "X/a", "X/b", "X/a", "X/b", "O3600", "O-18000", "O19800"]
    tz = (lambda: rng.choice(tzs)) if kind == "A" else (lambda: "F")
    first = (lambda: rng.choice(["F", tz()])) if mixed else tz
    ev = []
    for i in (1, 2, 3, 4):
        d = when(rng, zones, kind)
        ev.append({"op": "new", "i": i, "dt": g.dtrec(d, 1 if kind == "D" else 0, first())})
        if i > 1 and rng.random() < .4:
            ev[-1]["dt"] = dict(ev[-2]["dt"])
    fs = ["y", "m", "d"] if kind == "D" else ["y", "m", "d", "h", "n", "s"]

    def query():
        i, j = rng.sample([1, 2, 3, 4], 2)
        x = rng.random()
        if x < .35:
            return {"op": "posix", "i": i}
        if x < .65:
            return {"op": "cmp", "i": i, "j": j}
        if x < .8:
            return {"op": "diff", "i": i, "j": j}
        if x < .87:
            return {"op": "offset", "i": i}
        if x < .92:
            return {"op": "look", "i": i}
        return {"op": "sort", "is": rng.sample([1, 2, 3, 4], rng.choice([2, 3, 4]))}
    if kind == "A" and not mixed and rng.random() < .5:      # there and back around a transition of the zone
        for i in (1, 2, 3, 4):
            z = rng.choice(zones)
            d = rng.choice(z["edges"]) + datetime.timedelta(seconds=rng.choice([-1, 1]) * rng.choice([7201, 10800, 14400, 18000, 25000, 40000]))
            if d.day < 28:
                ev.append({"op": "new", "i": i, "dt": g.dtrec(d, 0, rng.choice(["Z", z["name"], "O3600"]))})
                for _ in range(rng.choice([1, 2, 3])):
                    ev.append(rng.choice([{"op": "utc", "i": i}, {"op": "adj", "i": i, "tz": "Z"}, {"op": "adj", "i": i, "tz": rng.choice(tzs)}]))
                    if rng.random() < .3:
                        ev.append({"op": rng.choice(["posix", "offset"]), "i": i})
                    ev.append({"op": "adj", "i": i, "tz": z["name"]})
    for _ in range(rng.randint(12, 40)):
        if rng.random() < .5:
            ev.append(query())
            continue
        i, j = rng.randint(1, 4), rng.randint(1, 4)
        x = rng.random()
        if x < .2:
            f = rng.choice(fs)
            lo, hi = {"y": (1990, 2012), "m": (1, 12), "d": (1, 28), "h": (0, 23), "n": (0, 59), "s": (0, 59)}[f]
            if f == "d" or f == "y" or f == "m":      # keep the date valid: fix all of it
                d = when(rng, zones, kind)
                ev.append({"op": "ymd", "i": i, "y": d.year, "m": d.month, "d": d.day})
                if rng.random() < .6:
                    ev.append({"op": "set", "i": i, "f": f, "v": rng.randint(lo, hi)})
            else:
                ev.append({"op": "set", "i": i, "f": f, "v": rng.randint(lo, hi)})
        elif x < .25 and kind != "D":
            d = when(rng, zones, kind)
            ev.append({"op": "hms", "i": i, "h": d.hour, "n": d.minute, "s": d.second})
        elif x < .5:
            f = rng.choice(fs)
            v = rng.choice([0, 0, 1, -1, 2, -2, rng.randint(-9, 9)])
            if f in "yn" and kind == "A":
                v = rng.choice([1, -1, 0])
            ev.append({"op": "off", "i": i, "f": f, "v": v})
        elif x < .62:
            n = rng.choice([0, 1, 3600, 7200, 86400, 90000, 604800, rng.randint(0, 3000000)]) * (1 if kind != "D" else 86400)
            if kind == "D":
                n = n % (86400 * 400)
            sg = rng.choice([1, -1])
            ev.append({"op": "add", "i": i, "j": j, "days": sg * (n // 86400), "secs": sg * (n % 86400), "minus": rng.randint(0, 1)})
        elif x < .72:
            ev.append({"op": "dup", "i": i, "j": j})
        elif mixed:
            if x < .8:
                d = when(rng, zones, kind)
                ev.append({"op": "new", "i": i, "dt": g.dtrec(d, 0, first())})
            else:
                ev.append({"op": "diff", "i": i, "j": i % 4 + 1})
        elif kind == "A":
            if x < .78:
                ev.append({"op": "relabel", "i": i, "tz": tz(), "how": rng.choice(["tz", "id"])})
            elif x < .86:
                ev.append({"op": "adj", "i": i, "tz": tz()})
            elif x < .92:
                ev.append({"op": "adjcopy", "i": i, "j": j, "tz": tz()})
            elif x < .96:
                ev.append({"op": "utc", "i": i})
            else:
                ev.append({"op": "duputc", "i": i, "j": j})
            if x >= .78 and rng.random() < .6:          # a chain of conversions of the same value
                k = ev[-1].get("j", i)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ev.append({"op": "adj", "i": k, "tz": tz()} if rng.random() < .7 else {"op": "utc", "i": k})
                    if rng.random() < .3:
                        ev.append({"op": "posix", "i": k})
        elif kind == "F" and x < .8:
            ev.append({"op": rng.choice(["utc"]), "i": i}) if False else ev.append({"op": "look", "i": i})
        # ask about what was touched
        if rng.random() < .6:
            q = query()
            if "i" in q:
                q["i"] = ev[-1].get("j", i)
                if q.get("j") == q["i"]:
                    q["j"] = q["i"] % 4 + 1
            ev.append(q)
    return {"id": "d%d" % k, "init": {"zones": [{"name": z["name"], "def": z["def"], "text": z["text"], "hi": z["hi"]} for z in zones]}, "events": ev}


def check(run):
    s = [session(run.rng, i) for i in range(run.scale(700, 12000))]
    recs = run.drive("p02", s)
    run.validate("P02Trace", recs)
