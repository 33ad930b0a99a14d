"""P08: histories of one or several recurrence objects (TLC-generated and random) against the history-free specification."""
import copy, datetime
from . import recurgen as g


def family(rng):
    """four rules reachable from one another through single setters, a pool of starts and range ends"""
    while True:
        s = g.start(rng)
        r = g.rule(rng, s, rng.choice(["YEARLY", "MONTHLY", "MONTHLY", "WEEKLY", "DAILY", "DAILY", "HOURLY"]) if not s["do"] else rng.choice(["YEARLY", "MONTHLY", "WEEKLY", "DAILY"]), simple=.3)
        for k in ("bysec", "bymin", "byhour", "bywk"):
            r[k] = []
        if r["freq"] == "HOURLY" and r["bysp"]:
            r["bysp"] = []
        if r["freq"] == "DAILY":
            r["bysp"] = []
        r["wkst"] = 1
        if r["byday"] and r["freq"] == "YEARLY" and not (r["bymon"] or r["bymd"] or r["byyd"]) and False:
            continue
        return s, r


def mutate(rng, r, s, days):
    """a rule that differs in one settable part, and the name of the part"""
    r = copy.deepcopy(r)
    parts = ["interval", "bound", "bound"]
    if r["count"]:
        parts += ["count"] * 2
    if r["hasuntil"]:
        parts += ["until"] * 2
    for k in ("bymon", "bymd", "byyd", "byday", "bysp"):
        if r[k]:
            parts += [k] * 2
    by = any(r[k] for k in ("bymon", "bymd", "byyd", "byday", "bysp"))
    if not by:
        parts += ["freq"]
    part = rng.choice(parts)
    if part == "interval":
        r["interval"] = r["interval"] % 4 + 1
    elif part == "freq":
        r["freq"] = rng.choice([f for f in ["YEARLY", "MONTHLY", "WEEKLY", "DAILY"] if f != r["freq"]])
    elif part == "bound":
        r["count"], r["hasuntil"], r["until"] = 0, 0, {"do": 1}
        g.bounded(rng, r, s, days)
    elif part == "count":
        r["count"] = rng.choice([c for c in (1, 2, 3, 4, 7, 12) if c != r["count"]])
    elif part == "until":
        if rng.random() < .5 and r["until"]["tz"] in ("Z", "F") and not r["until"]["do"] and not s["do"]:
            r["until"] = dict(r["until"], do=1, h=0, n=0, s=0, tz="F")       # same day, but all of it
        else:
            u = {"count": 0, "freq": r["freq"]}
            while not u.get("hasuntil"):
                u = g.bounded(rng, {"count": 0, "freq": r["freq"]}, s, days)
            r["until"] = u["until"]
    elif part == "bymon":
        r["bymon"] = g.some(rng, range(1, 13), rng.choice([1, 2, 5]))
    elif part == "bymd":
        r["bymd"] = g.mdset(rng) if not r["byday"] else g.some(rng, list(range(1, 32)), 10)
    elif part == "byyd":
        r["byyd"] = g.ydset(rng)
    elif part == "byday":
        nth = any(n for n, w in r["byday"])
        r["byday"] = g.nthset(rng, 53 if r["freq"] == "YEARLY" and not r["bymon"] else 5) if nth else g.wdset(rng)
    elif part == "bysp":
        r["bysp"] = g.some(rng, [1, 2, 3, -1, -2, 4])
    return part, r


def pools(rng, s, r):
    days = min(g.span(rng, r), 2500)
    a = g.todt(s)
    starts = [s]
    for d in (1, 9):
        b = a + datetime.timedelta(days=d)
        starts.append(g.dtrec(b, s["do"], s["tz"]))
    if not s["do"]:
        starts.append(dict(s, tz="F" if s["tz"] == "Z" else "Z"))       # same fields, other kind
        starts.append(g.dtrec(a, 1, "F"))                                # same day as a date
    cuts = []
    for f in (.02, .1, .25, .4, .6, .8, 1.0):
        b = a + datetime.timedelta(days=max(1, int(days * f)))
        cuts.append(b)
    return days, starts, cuts


def sub_daily(r):
    return r["freq"] in ("HOURLY", "MINUTELY", "SECONDLY")


def expand_event(rng, o, rule, st, hi, lo=None, mx=0, fo=0):
    do, tz = st["do"], st["tz"]
    H = g.dtrec(hi, do, tz)
    L = g.dtrec(lo, do, tz) if lo else dict(st)
    if not do and hi.hour == 0:
        pass
    return {"op": "expand", "o": o, "start": st, "lo": L, "hi": H, "max": mx, "fo": fo, "text": g.text(rule)}


def concretise(rng, i, beh):
    """a behaviour of RecurHist with concrete rules, starts and ranges"""
    s, base = family(rng)
    days, starts, cuts = pools(rng, s, base)
    if sub_daily(base):
        starts = [x for x in starts if not x["do"]]
    g.bounded(rng, base, s, days)
    cur, objs = base, [base]
    events = []
    init = {"rule": dict(base, fo=0), "text": g.text(base), "start": s}
    for b in beh:
        if b["op"] == "expand":
            r = objs[b["o"] - 1]
            st = starts[b["s"] % len(starts)] if rng.random() < .8 else starts[rng.randrange(len(starts))]
            hi = cuts[min(b["hi"], len(cuts) - 1)]
            lo = None if rng.random() < .6 else g.todt(st) + datetime.timedelta(days=int((hi - g.todt(st)).days * rng.random()) if hi > g.todt(st) else 0)
            if hi <= g.todt(st) or (lo and lo >= hi):
                lo, hi = None, g.todt(st) + datetime.timedelta(days=1)
            mx = 0 if not b["max"] else rng.choice([1, 2, 3, 5, 8, 12])
            fo = 0
            if r["hasuntil"] and not r["until"]["do"] and r["until"]["tz"] == "Z" and st["tz"] == "F" and not st["do"] and rng.random() < .5:
                fo = rng.choice([3600, -18000, 86400, -172800])
            if st["do"] and sub_daily(r):
                continue
            events.append(expand_event(rng, b["o"], r, st, hi, lo, mx, fo))
        elif b["op"] == "set":
            part, r = mutate(rng, objs[b["o"] - 1], s, days)
            objs[b["o"] - 1] = r
            events.append({"op": "set", "o": b["o"], "part": part, "rule": dict(r, fo=0)})
        elif b["op"] == "dup":
            objs.append(objs[b["o"] - 1])
            events.append({"op": "dup", "o": b["o"]})
            prev = [e for e in events if e["op"] == "expand" and e["o"] == b["o"]]
            if prev and rng.random() < .6:          # the same question to the copy
                events.append(dict(prev[-1], o=len(objs), text=g.text(objs[-1])))
        elif b["op"] == "spoil":
            events.append({"op": "spoil"})
    return {"id": "h%d" % i, "init": init, "events": events}


def exclude_case(rng, i):
    s, r = family(rng)
    days, starts, cuts = pools(rng, s, r)
    g.bounded(rng, r, s, days)
    ev = [expand_event(rng, 1, r, s, rng.choice(cuts))]
    at = g.todt(s) + datetime.timedelta(days=rng.randint(1, max(2, int(days * .7))))
    if not s["do"]:
        at = at.replace(hour=rng.choice([s["h"], 0, 23]), minute=s["n"], second=s["s"])
        if at <= g.todt(s):
            at += datetime.timedelta(days=1)
    ev.append({"op": "exclude", "o": 1, "at": g.dtrec(at, s["do"], s["tz"])})
    if rng.random() < .3:
        ev.append({"op": "dup", "o": 1})
    for _ in range(2):
        ev.append(expand_event(rng, rng.choice([1, len([e for e in ev if e["op"] == "dup"]) + 1]), r, s, rng.choice(cuts)))
    return {"id": "x%d" % i, "init": {"rule": dict(r, fo=0), "text": g.text(r), "start": s}, "events": ev}


def check(run):
    run.mc("RecurHist.tla", run.scale("RecurHist.cfg", "RecurHist_big.cfg"))
    beh = run.gen("RecurHist.tla", "RecurHist_gen.cfg", run.scale(400, 6000), 16)
    s = [concretise(run.rng, i, b) for i, b in enumerate(beh)] + [exclude_case(run.rng, i) for i in range(run.scale(150, 2000))]
    recs = run.drive("p08", s)
    run.validate("P08Trace", recs)
