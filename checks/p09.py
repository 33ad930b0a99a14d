"""P09: recurrence rule values against the RECUR grammar of RRuleText.tla."""
import copy
from . import recurgen as g
ALL = ["freq", "interval", "bound", "bysec", "bymin", "byhour", "byday", "bymd", "byyd", "bywk", "bymon", "bysp", "wkst"]


def anyrule(rng):
    """any grammatical combination of parts (values, not expansions, are judged here)"""
    s = g.start(rng)
    r = {k: (list(v) if isinstance(v, list) else v) for k, v in g.BASE.items()}
    r["freq"] = rng.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])
    r["interval"] = rng.choice([1, 1, 2, 3, 10, 53, 999])
    for p in rng.sample(ALL[2:], rng.choice([0, 1, 1, 2, 3, 5, 11])):
        setp(rng, r, p, s)
    return r


def pick(rng, lo, hi, neg):
    n = rng.choice([1, 1, 2, 3, 6])
    res = set()
    for _ in range(n):
        v = rng.choice([lo, hi, rng.randint(lo, hi)])
        if neg and v and rng.random() < .4:
            v = -v
        res.add(v)
    res = list(res)
    rng.shuffle(res)
    return res


def setp(rng, r, p, s):
    if p == "bound":
        r["count"], r["hasuntil"], r["until"] = 0, 0, {"do": 1}
        g.bounded(rng, r, s, 400)
    elif p == "byday":
        seen = []
        for _ in range(rng.choice([1, 2, 4])):
            d = [rng.choice([0, 0, 1, -1, 2, 5, 53, -53, rng.randint(1, 53)]), rng.randint(0, 6)]
            if d not in seen:
                seen.append(d)
        r["byday"] = seen
    elif p == "wkst":
        r["wkst"] = rng.randint(0, 6)
    elif p == "interval":
        r["interval"] = r["interval"] % 7 + 1
    elif p == "freq":
        r["freq"] = rng.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])
    else:
        lo, hi, neg = {"bysec": (0, 60, 0), "bymin": (0, 59, 0), "byhour": (0, 23, 0), "bymd": (1, 31, 1), "byyd": (1, 366, 1), "bywk": (1, 53, 1),
                       "bymon": (1, 12, 0), "bysp": (1, 366, 1)}[p]
        r[p] = pick(rng, lo, hi, neg)


BADVAL = {"BYSECOND": ["61", "-1", "", "a", "1,,2", "100"], "BYMINUTE": ["60", "-1", "", "x,1"], "BYHOUR": ["24", "-1", "25,1", "1,"], "BYDAY": ["0MO", "54MO", "-54SU", "XX", "M", "", "MO,", "1", "MOO", "1+MO"],
          "BYMONTHDAY": ["0", "32", "-32", "1,0", ""], "BYYEARDAY": ["0", "367", "-367", "-0"], "BYWEEKNO": ["0", "54", "-54", "1.5"], "BYMONTH": ["0", "13", "-1", "1,13"],
          "BYSETPOS": ["0", "367", "-367", "a"], "COUNT": ["0", "-1", "x", ""], "INTERVAL": ["0", "-1", "a"], "UNTIL": ["2020", "20200101T", "20200101T0000", "20200101T000000X", "2020010", "", "20200101TT00000Z"],
          "WKST": ["XX", "", "1MO", "MON"], "FREQ": ["", "FORTNIGHTLY", "daily", "DAILYX"]}


def corrupt(rng, t):
    parts = t.split(";")
    k = rng.random()
    i = rng.randrange(len(parts))
    name = parts[i].split("=")[0]
    if k < .35:
        n = rng.choice(sorted(BADVAL))
        v = rng.choice(BADVAL[n])
        hit = [j for j, p in enumerate(parts) if p.split("=")[0] == n]
        if hit:
            parts[hit[0]] = n + "=" + v
        else:
            parts.insert(rng.randint(0, len(parts)), n + "=" + v)
    elif k < .5:
        parts[i] = parts[i].replace(name, name + "X" if rng.random() < .5 else name[:-1], 1)
    elif k < .6:
        parts.append("X-FOO=1")
    elif k < .75:
        parts.append(parts[i])                     # repeated part
    elif k < .85:
        parts = [p for p in parts if not p.startswith(("COUNT", "UNTIL"))] + (["COUNT=3", "UNTIL=20250101T000000Z"] if rng.random() < .5 else ["UNTIL=20250101", "COUNT=3"])
    elif k < .93:
        parts[i] = parts[i].replace("=", rng.choice(["", "==", "=1="]), 1)
    else:
        parts.insert(i, "")
    return ";".join(parts)


def session(rng, i):
    r = anyrule(rng)
    t = g.text(r, rng if rng.random() < .5 else None)
    ev = [{"op": "parse", "text": t}, {"op": "parse", "text": corrupt(rng, t)}, {"op": "parse", "text": corrupt(rng, t)}]
    # an equal one, and ones that differ in a single part
    r2 = copy.deepcopy(r)
    for k in ALL[3:-1]:
        rng.shuffle(r2[k])
    ev.append({"op": "eq", "text": t, "other": g.text(r2, rng)})
    for _ in range(2):
        r3 = copy.deepcopy(r)
        p = rng.choice(ALL)
        if r[p if p != "bound" else "freq"] and isinstance(r.get(p), list) and rng.random() < .6:
            r3[p] = r3[p][1:]
        elif p == "bound" and r["hasuntil"] and rng.random() < .6:
            u = r3["until"]
            if u["do"]:
                r3["until"] = dict(u, do=0, tz=rng.choice("FZ"))
            elif rng.random() < .5:
                r3["until"] = dict(u, tz="Z" if u["tz"] == "F" else "F")
            else:
                r3["until"] = dict(u, do=1, h=0, n=0, s=0)
        else:
            setp(rng, r3, p, g.start(rng))
        ev.append({"op": "eq", "text": t, "other": g.text(r3)})
    return {"id": "v%d" % i, "init": {}, "events": ev}


def systematic():
    ev = []
    for f in ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]:
        ev.append({"op": "parse", "text": "FREQ=" + f})
    for n, (lo, hi, neg) in {"BYSECOND": (0, 60, 0), "BYMINUTE": (0, 59, 0), "BYHOUR": (0, 23, 0), "BYMONTHDAY": (1, 31, 1), "BYYEARDAY": (1, 366, 1), "BYWEEKNO": (1, 53, 1),
                             "BYMONTH": (1, 12, 0), "BYSETPOS": (1, 366, 1), "COUNT": (1, 3000, 0), "INTERVAL": (1, 3000, 0)}.items():
        for v in sorted(set(list(range(-3, 62)) + [hi - 1, hi, hi + 1, -hi, -hi - 1, -lo, 1000])):
            ev.append({"op": "parse", "text": "FREQ=YEARLY;%s=%d" % (n, v)})
    for w in g.WD:
        for v in list(range(-55, 56)):
            ev.append({"op": "parse", "text": "FREQ=MONTHLY;BYDAY=%s%s" % (v or "", w)})
        ev.append({"op": "parse", "text": "FREQ=WEEKLY;WKST=" + w})
    for n, vs in BADVAL.items():
        for v in vs:
            ev.append({"op": "parse", "text": ("FREQ=DAILY;" if n != "FREQ" else "") + n + "=" + v})
        good = {"BYDAY": "MO", "UNTIL": "20200101", "WKST": "SU", "FREQ": "DAILY"}.get(n, "1")
        ev.append({"op": "parse", "text": "FREQ=DAILY;%s=%s;%s=%s" % (n, good, n, good)})
    return [{"id": "sys%d" % i, "init": {}, "events": ev[i:i + 100]} for i in range(0, len(ev), 100)]


def check(run):
    s = systematic() + [session(run.rng, i) for i in range(run.scale(1200, 15000))]
    recs = run.drive("p09", s)
    run.validate("P09Trace", recs)
