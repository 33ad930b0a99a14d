"""P26: random Olson zones and rules compiled for random ranges of years, against ZoneData.tla."""
import calendar
import datetime

MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAY = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]
NO = {"y": 0, "m": 1, "k": 0, "d": 1, "w": 0, "at": 0, "mode": 0}


def hm(x, sec=False):
    s = "-" if x < 0 else ""
    x = abs(x)
    return "%s%d:%02d" % (s, x // 3600, x // 60 % 60) + (":%02d" % (x % 60) if x % 60 or sec else "")


def off(x):
    """a zone offset or saving"""
    return hm(x)


def onday(r):
    return str(r["d"]) if r["k"] == 0 else "last" + DAY[r["w"]] if r["k"] == 1 else "%s%s%d" % (DAY[r["w"]], ">=" if r["k"] == 2 else "<=", r["d"])


def attime(r):
    """a rule keeps the letter it is written with"""
    return hm(r["at"]) + {0: ["", "", "w"], 1: ["s"], 2: ["u", "u", "g", "z"]}[r["mode"]][(r["at"] + r["d"] + r["m"]) % {0: 3, 1: 1, 2: 4}[r["mode"]]]


def when(rng, month, modes=(0, 0, 0, 1, 2)):
    k = rng.choice([0, 1, 1, 1, 2, 2, 2, 3])
    return {"m": month, "k": k, "d": rng.choice([1, 1, 8, 8, 15, 22, 2, 9, 18, 23]) if k == 2 else rng.choice([7, 14, 28, 30, 5, 17]) if k == 3 else rng.randint(1, 28), "w": rng.choice([0, 0, 0, 6, 5, 4, 1, 2, 3]),
            "at": rng.choice([0, 3600, 7200, 7200, 7200, 10800, 9000, 82800, 84600] + [86400] * (rng.random() < .03)), "mode": rng.choice(modes)}


def ruleset(rng, name, lo, hi):
    """pairs of onset and end of summer time over segments of years, some single years in between"""
    rules = []
    y = lo + rng.randint(0, 15)
    south = rng.random() < .3
    save = rng.choice([3600, 3600, 3600, 3600, 1800, 7200, 1200, -3600, -1800])
    while y < hi:
        n = rng.choice([0, 0, 1, 2, 3, 5, 8, 12, 25])
        last = rng.random() < .2 or y + n >= hi
        a, b = rng.choice([3, 4, 5, 5, 6]), rng.choice([8, 9, 10, 10, 11])
        if south:
            a, b = b, a
        modes = rng.choice([(0, 0, 0, 1, 2), (0,), (0,), (2,), (1,)])
        for m, s in ((a, save if rng.random() < .9 else 3600), (b, 0)):
            r = when(rng, m, modes)
            r.update(f=y, t=9999 if last else y + n, save=s, letter="-" if rng.random() < .3 else "D" if s else "S")
            rules.append(r)
        if last:
            break
        y += n + 1 + (rng.choice([0, 0, 0, 1, 4, 10]))
    if rng.random() < .2 and lo + 25 < hi:
        pass
    rng.shuffle(rules)
    return rules


def ruletext(name, r):
    to = "only" if r["t"] == r["f"] else "max" if r["t"] == 9999 else str(r["t"])
    return "\t".join(["Rule", name, str(r["f"]), to, "-", MON[r["m"] - 1], onday(r), attime(r), hm(r["save"]) if r["save"] else "0", r["letter"]])


def until(rng, y):
    x = rng.random()
    r = dict(NO, y=y)
    if x < .3:
        return r, str(y)
    r["m"] = rng.randint(1, 12)
    if x < .45:
        return r, "%d %s" % (y, MON[r["m"] - 1])
    w = rng.choice([(0, 1, 0), (0, rng.randint(1, 28), 0), (0, rng.randint(1, 28), 0), (1, 1, 0), (1, 1, 6), (1, 1, 4), (2, 1, 0), (2, 8, 0), (2, 23, 5), (3, 30, 6), (3, 3, 2)])
    r["k"], r["d"], r["w"] = w
    if x < .65:
        return r, "%d %s %s" % (y, MON[r["m"] - 1], onday(r))
    r["at"], r["mode"] = rng.choice([0, 3600, 7200, 7200, 10800, 82800]), rng.choice([0, 0, 0, 1, 2])
    return r, "%d %s %s %s" % (y, MON[r["m"] - 1], onday(r), attime(r))


def zone(rng):
    """(lines, rule sets, texts)"""
    nset = rng.choice([0, 1, 1, 1, 2, 2])
    names = ["Aa", "B_b"][:nset]
    sets = [ruleset(rng, n, 1920 if rng.random() < .3 else 1965, 2036) for n in names]
    k = rng.choice([1, 2, 2, 3, 4, 5])
    lines, texts = [], []
    y = rng.randint(1907, 1925)
    g = rng.choice([-36000, -18000, -18000, -12600, -3600, 0, 3600, 3600, 7200, 19800, 36000, 43200])
    for i in range(k):
        fin = i == k - 1
        if i == 0 and k > 1:
            l = {"g": g + rng.choice([0, 77, -1058, 600]), "r": 0, "save": 0}
            fmt, rule = "LMT", "-"
        else:
            l = {"g": g, "r": 0, "save": 0}
            x = rng.random()
            if x < .7 and nset:
                l["r"] = rng.randint(1, nset)
                rule, fmt = names[l["r"] - 1], rng.choice(["E%sT", "EST/EDT", "+03/+04", "XYZ"])
            elif x < .8:
                l["save"] = rng.choice([3600, 1800, 7200, -1800, -3600])
                rule, fmt = hm(l["save"]), "EDT"
            else:
                rule, fmt = "-", rng.choice(["EST", "+05"])
        if fin:
            u, t = dict(NO, u=0), ""
        else:
            u, t = until(rng, y)
            u["u"] = 1
        l.update(u)
        lines.append(l)
        o = hm(l["g"])
        texts.append("\t".join([o, rule, fmt] + ([t] if t else [])))
        y += rng.choice([1, 3, 10, 20, 30])
        y = min(y, 2020 + i)
        g += rng.choice([0, 0, 3600, -3600, 1800])
    return lines, sets, names, texts


def ts(y, m, d, h=0):
    return calendar.timegm((y, m, d, h, 0, 0))


def points(rng, lo, hi, sets):
    out = set()
    for y in range(max(lo, 1905), min(hi, 2037)):
        out |= {ts(y, 1, 1), ts(y, 1, 15), ts(y, 7, 15), ts(y, 12, 31, 23)}
        for rs in sets:
            for r in rs:
                if r["f"] <= y <= r["t"] and rng.random() < .4:
                    if r["k"] == 0:
                        d = datetime.date(y, r["m"], r["d"])
                    else:
                        d = datetime.date(y, r["m"], calendar.monthrange(y, r["m"])[1] - 6 if r["k"] == 1 else r["d"])
                        while (d.weekday() + 1) % 7 != r["w"]:
                            d += datetime.timedelta(1)
                    b = ts(d.year, d.month, d.day) + r["at"]
                    for x in (-90000, -46801, -1, 0, 1, -7200, 7200, -3600, 3600, 86400, rng.randint(-50000, 50000)):
                        out.add(b + x)
    return sorted(out)


def check(run):
    run.mc("ZoneMC.tla", run.scale("ZoneMC.cfg", "ZoneMC_big.cfg"))
    rng = run.rng
    sess = []
    for i in range(run.scale(200, 2500)):
        lines, sets, names, texts = zone(rng)
        if i == 0:      # the known finding
            lines, names = [dict(NO, g=7200, r=1, save=0, u=0)], ["Aa"]
            base = dict(f=1990, t=9999, k=2, d=8, w=0, mode=0)
            sets, texts = [[dict(base, m=4, at=7200, save=3600, letter="S"), dict(base, m=10, at=86400, save=0, letter="-")]], ["2:00\tAa\tEE%sT"]
        zt = "Zone Some/Zone%d\t" % i + "\n\t\t\t".join(texts)
        st = ["\n".join(ruletext(n, r) for r in rs) for n, rs in zip(names, sets)]
        f = ["# data"]
        for t in st:
            f += t.split("\n")
        zl = zt.split("\n")
        if rng.random() < .3:
            zl.insert(1, "# in between") if len(zl) > 1 else None
        f = f + zl if rng.random() < .5 else zl + f
        is24 = int(any(r["at"] == 86400 for rs in sets for r in rs))
        used = sorted({l["r"] for l in lines} - {0})
        last = 2037
        ev = [{"op": "text", "names": names, "lines": st + [zt]}]
        for _ in range(rng.choice([1, 2, 3])):
            lo = rng.choice([1800, 1800, 1906, rng.randint(1930, 2030)])
            hi = rng.choice([2037, rng.randint(max(lo, 1930) + 1, 2037)])
            ev.append({"op": "expand", "miny": lo, "maxy": hi, "is24": is24, "conv": int(rng.random() < .5)})
            ev.append({"op": "vtz", "miny": lo, "maxy": hi, "is24": is24, "conv": int(rng.random() < .5), "at": points(rng, max(lo, hi - 40), hi, [sets[u - 1] for u in used])})
        how = int(rng.random() < .5)
        name = "Some/Zone%d" % i
        links = rng.sample(["Other/Name", "Alias", "US/East-ern", "A/B/C"], rng.choice([0, 1, 1, 2])) if how else []
        for x in links:
            f.insert(rng.choice([0, len(f)]), "Link\t%s\t%s" % (name, x))
        if how and rng.random() < .5:
            lo = rng.choice([1800, 1906, 1970])
            hi = rng.choice([2037, rng.randint(1975, 2037)])
            ev.append({"op": "files", "miny": lo, "maxy": hi, "is24": is24, "wantnames": sorted(x + " " + x for x in links + [name]), "wantlinks": sorted("%s\t%s" % (x, name) for x in links),
                       "at": points(rng, max(lo, hi - 12), hi, [sets[u - 1] for u in used])})
        sess.append({"id": "z%d" % i, "init": {"ls": lines, "sets": sets, "last": last, "how": how, "name": name, "settext": st, "zonetext": zt, "file": "\n".join(f) + "\n"}, "events": ev})
    run.validate("P26Trace", run.drive("p26", sess))
