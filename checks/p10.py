"""P10: recurrence sets against RecurSet.tla."""
import copy, datetime
from . import recurgen as g
EMPTY = ("rules", "exrules", "rdates", "exdates", "rpers", "expers")


def off(tz):
    return int(tz[1:]) if tz[0] == "O" else 0


def withoff(r):
    return dict(r, off=off(r["tz"]))


def inzone(dt, do, frm, to):
    """local time dt of zone frm, written in zone to"""
    return withoff(g.dtrec(dt + datetime.timedelta(seconds=off(to) - off(frm)), do, to))


def weight(r, days):
    n = days * (24 // r["interval"] if r["freq"] == "HOURLY" and not r["byhour"] else 1)
    for k in ("bysec", "bymin", "byhour"):
        n *= max(1, len(r[k]))
    return n


def newrule(rng, s, days, tz):
    r = g.rule(rng, s, None if s["do"] else rng.choice(["YEARLY", "MONTHLY", "WEEKLY", "DAILY", "DAILY", "HOURLY"]), simple=.4, subday=False)
    if not s["do"] and r["freq"] == "HOURLY":
        r["interval"] = rng.choice([1, 6, 12, 25])
    for k in ("bysec", "bymin", "byhour"):          # keep the number of instances within what TLC handles quickly
        if weight(r, days) > 1500:
            r[k] = []
    if rng.random() < .7:
        g.bounded(rng, r, s, days)
    r["fo"] = 0
    if r["hasuntil"] and not r["until"]["do"] and tz[0] == "O":
        r["until"]["tz"] = "Z"
        r["fo"] = off(tz)
    return r


def build(rng, via, s=None):
    given = s is not None
    s = s or g.start(rng)
    tz = s["tz"]
    if not given and not s["do"] and rng.random() < .4:
        tz = rng.choice(["O3600", "O-18000", "O19800"])
        s["tz"] = tz
    days = rng.choice([20, 60, 200, 700])
    zones = [tz] if tz == "F" else [tz, "Z", "O-25200"]
    x = {k: [] for k in EMPTY}
    x["start"] = withoff(s)
    x["via"] = via
    rules = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        rules.append(newrule(rng, s, days, tz))
    x["rules"] = rules
    if rng.random() < .25:
        x["exrules"] = [newrule(rng, s, days, tz)]
    a = g.todt(s)

    def near():
        k = rng.random()
        d = datetime.timedelta(days=rng.randint(-3, days))
        b = a + d
        if not s["do"] and k < .3:
            b += datetime.timedelta(seconds=rng.choice([3600, 1, -1, 43200]))
        if k > .95:
            b = a
        return b
    used = [near() for _ in range(6)]

    def dates(n):
        return [inzone(rng.choice(used) if rng.random() < .7 else near(), s["do"], tz, rng.choice(zones)) for _ in range(n)]
    if rng.random() < .6:
        x["rdates"] = dates(rng.choice([1, 2, 4]))
    if rng.random() < .7:
        x["exdates"] = dates(rng.choice([1, 2, 5]))
        if rng.random() < .2:
            x["exdates"].append(withoff(dict(s)))
    if not s["do"]:
        def pers(n):
            res = []
            for _ in range(n):
                b = rng.choice(used) if rng.random() < .7 else near()
                z = rng.choice(zones)
                e = b + datetime.timedelta(seconds=rng.choice([3600, 86400, 86400 * 5, 1]))
                res.append({"s": inzone(b, 0, tz, z), "e": inzone(e, 0, tz, z), "dur": rng.choice([0, 1])})
            return res
        if rng.random() < .35:
            x["rpers"] = pers(rng.choice([1, 2]))
        if rng.random() < .15:
            x["expers"] = pers(1)
    x["rtexts"] = [g.text(r) for r in x["rules"]]
    x["extexts"] = [g.text(r) for r in x["exrules"]]
    return x, days, used


def variant(rng, x):
    """the same set in another order, or one that differs somewhere"""
    y = copy.deepcopy(x)
    for k in EMPTY:
        rng.shuffle(y[k])
    if rng.random() < .6:
        ks = [k for k in EMPTY if y[k]]
        if ks:
            k = rng.choice(ks)
            how = rng.random()
            if how < .3 and len(y[k]) > 1:         # the same number of items, one of them twice
                i = rng.randrange(len(y[k]))
                y[k][i] = copy.deepcopy(y[k][i - 1])
            elif how < .5:
                y[k].pop()
            elif how < .7:
                y[k].append(copy.deepcopy(y[k][0]))
            else:
                i = rng.randrange(len(y[k]))
                v = y[k][i]
                if k in ("rules", "exrules"):
                    v["interval"] += 1
                elif k in ("rdates", "exdates"):
                    y[k][i] = dict(v, y=v["y"] + 1)
                    if v["m"] == 2 and v["d"] == 29:
                        y[k][i]["d"] = 28
                else:
                    e = g.todt(v["e"]) + datetime.timedelta(days=1)
                    v["e"] = withoff(g.dtrec(e, 0, v["e"]["tz"]))
    y["rtexts"] = [g.text(r) for r in y["rules"]]
    y["extexts"] = [g.text(r) for r in y["exrules"]]
    return y


def case(rng, i):
    x, days, used = build(rng, rng.choice(["api", "text"]))
    s = x["start"]
    a = g.todt(s)
    ev = []

    def expand(mx=0):
        lo, hi = g.rng_range(rng, s, days)
        if rng.random() < .3 and not s["do"]:
            lo = g.dtrec(rng.choice(used) + datetime.timedelta(seconds=rng.choice([0, 0, 1, 1800])), 0, s["tz"])
        if x["rpers"] and rng.random() < .4:         # exactly at the edge of a period
            p = rng.choice(x["rpers"])
            v = dict(p[rng.choice("ses")])
            v = dict(inzone(g.todt(v), 0, v["tz"], s["tz"]))
            if rng.random() < .7:
                lo = v
            else:
                hi = v
        if g.todt(hi) <= g.todt(lo):
            hi = g.dtrec(g.todt(lo) + datetime.timedelta(days=5), s["do"], s["tz"])
        return {"op": "expand", "lo": withoff(lo), "hi": withoff(hi), "max": mx}
    for _ in range(rng.choice([1, 2, 3])):
        ev.append(expand(rng.choice([0, 0, 0, 1, 2, 3, 5, 10])))
        if rng.random() < .2:
            ev.append({"op": "dup"})
    if rng.random() < .4:
        ev.append({"op": "eq", "other": variant(rng, x)})
    if rng.random() < .25:
        at = a + datetime.timedelta(days=rng.randint(1, days), seconds=0 if s["do"] else rng.choice([0, 0, 1, 3600]))
        ev.append(expand())
        ev.append({"op": "exclude", "at": withoff(g.dtrec(at, s["do"], s["tz"]))})
        ev += [expand(), expand()]
    return {"id": "s%d" % i, "init": x, "events": ev}


def check(run):
    s = [case(run.rng, i) for i in range(run.scale(900, 12000))]
    recs = run.drive("p10", s)
    run.validate("P10Trace", recs)
