"""P01: date arithmetic against Civil.tla."""
YEARS = [1754, 1799, 1800, 1801, 1896, 1899, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2004, 2012, 2016, 2023, 2024, 2037, 2038, 2096, 2099, 2100, 2104, 2199, 2200, 2400, 3000, 9990]
DIM = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def dim(y, m):
    return 29 if m == 2 and leap(y) else DIM[m]


def rdate(rng):
    y = rng.choice(YEARS) if rng.random() < .6 else rng.randint(1760, 9000)
    m = rng.choice([1, 2, 2, 3, 12, 12, rng.randint(1, 12)])
    d = rng.choice([1, dim(y, m), rng.randint(1, dim(y, m)), 28])
    do = 1 if rng.random() < .25 else 0
    if do:
        h = n = s = 0
    else:
        h, n, s = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
    return {"y": y, "m": m, "d": d, "h": h, "n": n, "s": s, "do": do, "tz": rng.choice(["F", "Z"])}


def mag(rng, big):
    k = rng.choice([1, 1, 2, 3, 7, 28, 30, 31, 59, 60, 61, 365, 366, big, rng.randint(1, big)])
    k = min(k, big)
    return k if rng.random() < .5 else -k


def rop(rng, year):
    op = rng.choice(["offsetYear", "offsetMonth", "offsetMonth", "offsetDay", "offsetDay", "offsetHours", "offsetMinutes", "offsetSeconds", "add", "sub",
                     "setYearDay", "setMonthDay", "setDayOfWeekInMonth", "setDayOfWeekInYear", "setNextDayOfWeek", "setWeekNo", "recur", "assign"])
    if op == "offsetYear":
        return {"op": op, "k": rng.choice([1, -1, 4, -4, 3, -100 if year > 1900 else 1, 100 if year < 9000 else -1, rng.randint(-10, 10)])}
    if op == "offsetMonth":
        return {"op": op, "k": mag(rng, 60)}
    if op == "offsetDay":
        return {"op": op, "k": mag(rng, 1500)}
    if op == "offsetHours":
        return {"op": op, "k": mag(rng, 20000)}
    if op == "offsetMinutes":
        return {"op": op, "k": mag(rng, 400000)}
    if op in ("offsetSeconds", "add", "sub"):
        return {"op": op, "k": rng.choice([mag(rng, 3000), 86400 * mag(rng, 800), 86399, -86399, mag(rng, 40000000)])}
    if op == "setYearDay":
        k = rng.choice([1, 2, 31, 32, 59, 60, 61, 365, 366, rng.randint(1, 366)])
        return {"op": op, "k": k if rng.random() < .5 else -k}
    if op == "setMonthDay":
        k = rng.choice([1, 28, 29, 30, 31, rng.randint(1, 31)])
        return {"op": op, "k": k if rng.random() < .5 else -k}
    if op == "setDayOfWeekInMonth":
        k = rng.randint(1, 5)
        return {"op": op, "k": k if rng.random() < .5 else -k, "w": rng.randint(0, 6)}
    if op == "setDayOfWeekInYear":
        k = rng.choice([1, 2, 52, 53, rng.randint(1, 53)])
        return {"op": op, "k": k if rng.random() < .5 else -k, "w": rng.randint(0, 6)}
    if op == "setNextDayOfWeek":
        return {"op": op, "k": rng.choice([1, 8, 22, 25, 28, rng.randint(1, 28)]), "w": rng.randint(0, 6)}
    if op == "setWeekNo":
        return {"op": op, "k": rng.choice([1, 2, 52, rng.randint(1, 52)])}
    if op == "recur":
        return {"op": op, "f": rng.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "MONTHLY", "YEARLY"]), "k": rng.choice([1, 1, 2, 3, 5, 12, 30, 100])}
    return {"op": "assign", "y": rng.choice(YEARS), "m": rng.randint(-14, 30), "d": rng.randint(-70, 400), "h": rng.randint(-50, 50), "n": rng.randint(-130, 130), "s": rng.randint(-130, 130)}


def queries(rng):
    q = [{"op": "facts"}]
    q.append({"op": "isMonthDay", "k": rng.choice([-31, -30, -29, -28, -2, -1, 1, 15, 28, 29, 30, 31])})
    q.append({"op": "isDayOfWeekInMonth", "k": rng.randint(-5, 5), "w": rng.randint(0, 6)})
    q.append({"op": "isWeekNo", "k": rng.choice([1, 2, 51, 52, 53])})
    return q


def sessions(rng, n, steps):
    out = []
    for i in range(n):
        init = rdate(rng)
        ev = queries(rng)
        for _ in range(steps):
            ev.append(rop(rng, init["y"]))
            ev += queries(rng)[: rng.choice([1, 1, 4])]
        out.append({"id": "r%d" % i, "init": init, "events": ev})
    return out


def sweeps(years):
    """every day of the given years, walked with offsetDay, with its calendar facts; every last-days validity"""
    out = []
    for y in years:
        ev = [{"op": "facts"}]
        for i in range(366):
            ev += [{"op": "offsetDay", "k": 1}, {"op": "facts"}]
        for m in range(1, 13):
            for d in (0, 1, 28, 29, 30, 31, 32, -1):
                ev.append({"op": "invalid", "y": y, "m": m, "d": d})
        out.append({"id": "sweep%d" % y, "init": {"y": y, "m": 1, "d": 1, "h": 12, "n": 0, "s": 0, "do": 0, "tz": "Z"}, "events": ev})
    # every setter value from one date of each of the fourteen kinds of year
    kinds = {}
    for y in range(2001, 2101):
        import datetime
        kinds.setdefault((datetime.date(y, 1, 1).weekday(), leap(y)), y)
    for y in sorted(kinds.values()):
        for (m, d) in ((2, 28), (12, 31), (7, 15)):
            init = {"y": y, "m": m, "d": d, "h": 1, "n": 2, "s": 3, "do": 0, "tz": "F"}
            reset = {"op": "assign", "y": y, "m": m, "d": d, "h": 1, "n": 2, "s": 3}
            ev = []
            for k in list(range(1, 53)) if m == 7 else [1, 2, 26, 52]:
                for dd in (0, 6):
                    ev += [dict(reset, d=d - dd), {"op": "setWeekNo", "k": k}]
            for k in (1, 2, 3, 4, 5, -1, -2, -3, -4, -5):
                for w in range(7):
                    ev += [reset, {"op": "setDayOfWeekInMonth", "k": k, "w": w}]
            for k in (1, 2, 30, 52, 53, -1, -2, -30, -52, -53):
                for w in range(7):
                    ev += [reset, {"op": "setDayOfWeekInYear", "k": k, "w": w}]
            for k in (1, 59, 60, 61, 364, 365, 366):
                ev += [reset, {"op": "setYearDay", "k": k}, reset, {"op": "setYearDay", "k": -k}]
            for w in range(7):
                ev += [reset, {"op": "setNextDayOfWeek", "k": 1, "w": w}, reset, {"op": "setNextDayOfWeek", "k": 25, "w": w}]
            out.append({"id": "kind%d-%d" % (y, m), "init": init, "events": ev})
    return out


def check(run):
    run.mc("CivilMC.tla", run.scale("CivilMC.cfg", "CivilMC_big.cfg"))
    s = sweeps(run.scale(YEARS, list(range(1754, 2420)) + YEARS)) + sessions(run.rng, run.scale(500, 6000), 20)
    recs = run.drive("p01", s)
    run.validate("P01Trace", recs)
