"""Generation of recurrence rules, starts and ranges (records as in Recur.tla, plus the iCalendar text)."""
import datetime
WD = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
BASE = {"freq": "DAILY", "interval": 1, "count": 0, "hasuntil": 0, "until": {"do": 1}, "wkst": 1, "bysec": [], "bymin": [], "byhour": [],
        "byday": [], "bymd": [], "byyd": [], "bywk": [], "bymon": [], "bysp": []}


def dtrec(dt, do=0, tz="F"):
    if do:
        return {"y": dt.year, "m": dt.month, "d": dt.day, "h": 0, "n": 0, "s": 0, "do": 1, "tz": tz}
    return {"y": dt.year, "m": dt.month, "d": dt.day, "h": dt.hour, "n": dt.minute, "s": dt.second, "do": 0, "tz": tz}


def todt(r):
    return datetime.datetime(r["y"], r["m"], r["d"], r["h"], r["n"], r["s"])


def dttext(r):
    t = "%04d%02d%02d" % (r["y"], r["m"], r["d"])
    if not r["do"]:
        t += "T%02d%02d%02d" % (r["h"], r["n"], r["s"])
        if r["tz"] == "Z":
            t += "Z"
    return t


def text(r, order=None):
    parts = ["FREQ=" + r["freq"]]
    if r["count"]:
        parts.append("COUNT=%d" % r["count"])
    if r["hasuntil"]:
        parts.append("UNTIL=" + dttext(r["until"]))
    if r["interval"] > 1:
        parts.append("INTERVAL=%d" % r["interval"])
    for k, n in (("bysec", "BYSECOND"), ("bymin", "BYMINUTE"), ("byhour", "BYHOUR")):
        if r[k]:
            parts.append(n + "=" + ",".join(map(str, r[k])))
    if r["byday"]:
        parts.append("BYDAY=" + ",".join(("%d" % n if n else "") + WD[w] for n, w in r["byday"]))
    for k, n in (("bymd", "BYMONTHDAY"), ("byyd", "BYYEARDAY"), ("bywk", "BYWEEKNO"), ("bymon", "BYMONTH"), ("bysp", "BYSETPOS")):
        if r[k]:
            parts.append(n + "=" + ",".join(map(str, r[k])))
    if r["wkst"] != 1:
        parts.append("WKST=" + WD[r["wkst"]])
    if order:
        order.shuffle(parts)
    return ";".join(parts)


def some(rng, pool, k=None):
    k = k or rng.choice([1, 1, 2, 3])
    return rng.sample(pool, min(k, len(pool)))


def wdset(rng):
    return [[0, w] for w in some(rng, range(7), rng.choice([1, 1, 2, 3, 5, 7]))]


def nthset(rng, top):
    res = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 3, 4, 5, top, rng.randint(1, top)])
        p = [n if rng.random() < .5 else -n, rng.randint(0, 6)]
        if p not in res:
            res.append(p)
    if rng.random() < .15:
        p = [0, rng.randint(0, 6)]
        res.append(p)
    return res


def mdset(rng):
    return sorted(set(rng.choice([1, 2, 13, 15, 28, 29, 30, 31, -1, -2, -3, -28, -29, -30, -31, rng.randint(1, 31)]) for _ in range(rng.choice([1, 1, 2, 3]))), key=lambda x: rng.random())


def ydset(rng):
    return sorted(set(rng.choice([1, 31, 59, 60, 61, 100, 200, 364, 365, 366, -1, -2, -100, -306, -307, -365, -366, rng.randint(1, 366)]) for _ in range(rng.choice([1, 1, 2, 3]))), key=lambda x: rng.random())


def timeparts(rng, r, which):
    if "h" in which and rng.random() < .4:
        r["byhour"] = sorted(some(rng, range(24), rng.choice([1, 2, 3])))
    if "m" in which and rng.random() < .3:
        r["bymin"] = some(rng, range(60), rng.choice([1, 2, 3]))
    if "s" in which and rng.random() < .2:
        r["bysec"] = some(rng, range(60), rng.choice([1, 2]))


def setpos(rng, r, p=.35):
    if rng.random() < p:
        r["bysp"] = some(rng, [1, 2, 3, -1, -2, -3, 5, 10, -10, 366, -366])


def rule(rng, start, freq=None, simple=.12, subday=True):
    """a random rule of the judged class for this start"""
    r = {k: (list(v) if isinstance(v, list) else v) for k, v in BASE.items()}
    pool = ["YEARLY"] * 5 + ["MONTHLY"] * 5 + ["WEEKLY"] * 3 + ["DAILY"] * 3
    if subday and not start["do"]:
        pool += ["HOURLY", "MINUTELY", "SECONDLY"]
    r["freq"] = f = freq or rng.choice(pool)
    r["interval"] = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 10, 13])
    timed = not start["do"]
    if rng.random() >= simple:
        if f == "YEARLY":
            kind = rng.choice(["mon", "md", "monmd", "day", "nday", "monday", "monnday", "mdday", "monmdday", "yd", "ydday", "wkday", "time"])
            if "mon" in kind:
                r["bymon"] = some(rng, range(1, 13))
            if "md" in kind:
                r["bymd"] = mdset(rng)
            if kind.endswith("nday"):
                r["byday"] = nthset(rng, 53 if kind == "nday" else 5)
            elif "day" in kind:
                r["byday"] = wdset(rng)
            if kind.startswith("yd"):
                r["byyd"] = ydset(rng)
            if kind.startswith("wk"):
                r["bywk"] = sorted(set(rng.choice([1, 2, 20, 52, 53, -1, -2, -53, rng.randint(1, 53)]) for _ in range(rng.choice([1, 1, 2, 3]))))
            if timed:
                timeparts(rng, r, "hms")
            setpos(rng, r)
        elif f == "MONTHLY":
            kind = rng.choice(["md", "day", "nday", "mdday", "mdnday", "mon", "monmd", "monday", "monnday", "time"])
            if "mon" in kind:
                r["bymon"] = some(rng, range(1, 13), rng.choice([1, 2, 4, 6]))
            if "md" in kind:
                r["bymd"] = mdset(rng) if "day" not in kind else some(rng, list(range(1, 32)) + [-1, -2, -3, -7], 8)
            if kind.endswith("nday"):
                r["byday"] = nthset(rng, 5)
            elif kind.endswith("day"):
                r["byday"] = wdset(rng)
            if timed:
                timeparts(rng, r, "hms")
            setpos(rng, r)
        elif f == "WEEKLY":
            kind = rng.choice(["day", "day", "day", "mon", "time"])
            if kind == "day":
                r["byday"] = wdset(rng)
                if rng.random() < .5:
                    r["wkst"] = rng.randint(0, 6)
            if kind == "mon":
                r["bymon"] = some(rng, range(1, 13), 3)
            if timed:
                timeparts(rng, r, "hms")
            setpos(rng, r)
        elif f == "DAILY":
            kind = rng.choice(["mon", "md", "day", "monday", "monmd", "mdday", "time", "time"])
            if "mon" in kind:
                r["bymon"] = some(rng, range(1, 13), 3)
            if "md" in kind:
                r["bymd"] = mdset(rng) if "day" not in kind else some(rng, list(range(1, 32)) + [-1, -2, -3, -7], 8)
            if kind.endswith("day"):
                r["byday"] = wdset(rng)
            if timed:
                timeparts(rng, r, "hms")
                if r["byhour"] or r["bymin"] or r["bysec"]:
                    setpos(rng, r)
        else:
            n = rng.choice([1, 1, 2])
            for kind in rng.sample(["mon", "md", "day", "h", "m", "s", "yd"], n):
                if kind == "mon":
                    r["bymon"] = [start["m"]] + some(rng, range(1, 13), 2)
                    r["bymon"] = sorted(set(r["bymon"]))
                if kind == "md":
                    r["bymd"] = sorted(set([start["d"]] + mdset(rng)))
                if kind == "day":
                    r["byday"] = wdset(rng)
                if kind == "yd":
                    yd = (todt(start) - datetime.datetime(start["y"], 1, 1)).days + 1
                    r["byyd"] = [yd] + ([-1] if rng.random() < .3 else [])
                if kind == "h":
                    r["byhour"] = sorted(set([start["h"], (start["h"] + 1) % 24] + some(rng, range(24), 1)))
                if kind == "m":
                    r["bymin"] = sorted(set([start["n"]] + some(rng, range(60), 2)))
                if kind == "s":
                    r["bysec"] = sorted(set([start["s"]] + some(rng, range(60), 2)))
            if (f == "HOURLY" and (r["bymin"] or r["bysec"])) or (f == "MINUTELY" and r["bysec"]):
                setpos(rng, r)
    return r


def span(rng, r):
    """a sensible length of expansion (days) for the rule"""
    f, i = r["freq"], r["interval"]
    if f == "YEARLY":
        return rng.choice([3, 6, 9]) * 365 * min(i, 4)
    if f == "MONTHLY":
        return rng.choice([100, 400, 800]) * min(i, 4)
    if f == "WEEKLY":
        return rng.choice([21, 90, 250]) * min(i, 4)
    if f == "DAILY":
        return rng.choice([5, 40, 120]) * min(i, 4) if not (r["bymon"] or r["bymd"]) else rng.choice([60, 400])
    if f == "HOURLY":
        return rng.choice([1, 4, 9]) * min(i, 3)
    if f == "MINUTELY":
        return rng.choice([.05, .3, .8]) * min(i, 3)
    return rng.choice([.0007, .005, .01]) * min(i, 3)


def start(rng):
    y = rng.choice([2019, 2020, 2021, 2022, 2023, 2024, 2024, 2025, 2026, 1996, 1999, 2000, 2096, rng.randint(1971, 2090)])
    k = rng.random()
    if k < .25:
        d = datetime.datetime(y, *rng.choice([(1, 1), (1, 31), (2, 28), (12, 31), (12, 29), (1, 4), (3, 31), (10, 31), (8, 30)]))
    elif k < .35:
        while not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
            y += 1
        d = datetime.datetime(y, 2, 29)
    else:
        d = datetime.datetime(y, 1, 1) + datetime.timedelta(days=rng.randint(0, 364))
    do = 1 if rng.random() < .3 else 0
    if not do:
        d += datetime.timedelta(seconds=rng.choice([0, 0, 32400, 86399, rng.randint(0, 86399)]))
    return dtrec(d, do, "F" if do or rng.random() < .5 else "Z")


def bounded(rng, r, s, days):
    """adds COUNT or UNTIL"""
    k = rng.random()
    if k < .3:
        r["count"] = rng.choice([1, 2, 3, 5, 10, 20, 50])
    elif k < .6:
        r["hasuntil"] = 1
        u = todt(s) + datetime.timedelta(seconds=int(days * 86400 * rng.random()))
        if s["do"]:
            r["until"] = dtrec(u, 1)
        else:
            if rng.random() < .6:
                u = u.replace(hour=s["h"], minute=s["n"], second=s["s"])
            r["until"] = dtrec(u, 0, rng.choice(["Z", s["tz"]]))
            if rng.random() < .15 and r["freq"] not in ("SECONDLY", "MINUTELY"):
                r["until"] = dtrec(u, 1)
    return r


def rng_range(rng, s, days):
    a = todt(s)
    secs = max(60, int(days * 86400))
    k = rng.random()
    lo = a if k < .5 else a + datetime.timedelta(seconds=rng.randint(-secs // 4, secs * 2 // 3))
    hi = a + datetime.timedelta(seconds=rng.randint(secs // 3, secs))
    if hi <= lo:
        lo, hi = a, a + datetime.timedelta(seconds=secs)
    if s["do"]:
        if hi.date() <= lo.date():
            hi = lo + datetime.timedelta(days=1)
        return dtrec(lo, 1), dtrec(hi, 1)
    if rng.random() < .3 and days >= 3:
        hi = hi.replace(hour=s["h"], minute=s["n"], second=s["s"])
        if hi <= lo:
            hi += datetime.timedelta(days=1)
    return dtrec(lo, 0, s["tz"]), dtrec(hi, 0, s["tz"])
