"""P12: start, end and duration of components against P12Trace.tla."""
import datetime
from . import recurgen as g
from . import p10
from .p10 import withoff
TD = datetime.timedelta
KINDS = ["VEVENT"] * 4 + ["VTODO"] * 4 + ["VJOURNAL", "VFREEBUSY"]


def sometime(rng, do, tz):
    d = datetime.datetime(rng.choice([2019, 2020, 2023, 2024]), rng.randint(1, 12), rng.choice([1, 28, rng.randint(1, 28)]))
    if not do:
        d += TD(seconds=rng.choice([0, 3600 * 9, 86399, 1800 * rng.randint(0, 47)]))
    return withoff(g.dtrec(d, do, tz))


def later(rng, s, zones=None):
    if s["do"]:
        n = 86400 * rng.choice([1, 1, 2, 7, 14, 31, 366])
    else:
        n = rng.choice([3600, 1, 86400, 86399, 90061, 7 * 86400, 14 * 86400, 40 * 86400])
    return g.todt(s) + TD(seconds=n), n


def pick(rng, kind):
    do = 1 if rng.random() < .4 else 0
    if kind == "VFREEBUSY":
        do = 0
    tz = "F" if do else ("Z" if kind == "VFREEBUSY" else rng.choice(["F", "Z", "O3600", "O-18000", "O19800"]))
    s = sometime(rng, do, tz)
    e, n = later(rng, s)
    z = tz
    if tz not in "F" and not do and kind != "VFREEBUSY" and rng.random() < .25:
        z = rng.choice(["Z", "O3600", "O19800"])
    end = p10.inzone(e, do, tz, z)
    return s, end, n


def given(rng, kind):
    s, e, n = pick(rng, kind)
    b = {"dtstart": [s], "dtend": [], "due": [], "dur": []}
    k = rng.random()
    endp = "due" if kind == "VTODO" else "dtend"
    if kind == "VJOURNAL":
        if rng.random() < .3:
            b["dtstart"] = []
        return b
    if k < .35:
        b[endp] = [e]
    elif k < .65:
        b["dur"] = [n]
    elif k < .8:
        b[endp] = [e]
        b["dur"] = [n + (86400 if s["do"] else 60)]
    if rng.random() < .15 and not (b["dur"] and not b[endp]):
        b["dtstart"] = []
    return b


def timing(rng, i):
    kind = rng.choice(KINDS)
    ev = [{"op": "load", "given": given(rng, kind), "order": rng.choice([0, 1])}]
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.random()
        s, e, n = pick(rng, kind)
        ops = {"VEVENT": ["startend", "startdur", "none"], "VTODO": ["startend", "startdur", "due", "due", "none"],
               "VJOURNAL": ["none"], "VFREEBUSY": ["startend", "startdur"]}[kind]
        if k < .55:
            op = rng.choice(ops)
            if op == "startend":
                if rng.random() < .15:
                    e = withoff(g.dtrec(g.todt(s) - TD(seconds=86400 * rng.choice([0, 1, 5])), s["do"], s["tz"]))
                ev.append({"op": op, "start": s, "end": e})
            elif op == "startdur":
                ev.append({"op": op, "start": s, "n": n})
            elif op == "due":
                ev.append({"op": op, "end": e})
            else:
                ev.append({"op": op})
        elif k < .9:
            ev.append({"op": "reload", "how": rng.choice(["text", "text", "json"])})
        else:
            ev.append({"op": "dup"})
    ev.append({"op": "reload", "how": rng.choice(["text", "text", "json"])})
    return {"id": "t%d" % i, "init": {"what": "timing", "kind": kind}, "events": ev}


def recur(rng, i):
    x, days, used = p10.build(rng, "text")
    while x["expers"] or not (x["rules"] or x["rdates"] or x["rpers"]) or (days > 60 and any(r["freq"] == "HOURLY" for r in x["rules"] + x["exrules"])):
        x, days, used = p10.build(rng, "text")
    x["what"] = "recur"
    s = x["start"]
    a = g.todt(s)

    def expand():
        lo, hi = g.rng_range(rng, s, days)
        return {"op": "expand", "lo": withoff(lo), "hi": withoff(hi), "max": 0}
    ev = [expand()] if rng.random() < .6 else []

    def some():
        k = rng.random()
        d = rng.choice(used) if k < .6 else a + TD(days=rng.randint(0, days))
        if s["do"]:
            d = datetime.datetime(d.year, d.month, d.day)
        return withoff(g.dtrec(d, s["do"], s["tz"]))
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.random()
        if k < .35:
            ev.append({"op": "exdate", "at": some()})
        elif k < .6:
            at = a + TD(days=rng.randint(1, days), seconds=0 if s["do"] else rng.choice([0, 0, 1, 3600]))
            ev.append({"op": "cut", "at": withoff(g.dtrec(at, s["do"], s["tz"]))})
        elif k < .75:
            y, _, _ = p10.build(rng, "text", dict(s))
            while y["expers"] or not (y["rules"] or y["rdates"] or y["rpers"]):
                y, _, _ = p10.build(rng, "text", dict(s))
            ev.append({"op": "set", "set": y})
        else:
            ev.append({"op": "dup"})
        if rng.random() < .5:
            ev.append({"op": rng.choice(["reload", "reload", "dup"])})
        ev.append(expand())
    ev += [{"op": "reload"}, expand()]
    return {"id": "r%d" % i, "init": x, "events": ev}


def check(run):
    s = [timing(run.rng, i) for i in range(run.scale(1500, 25000))] + [recur(run.rng, i) for i in range(run.scale(250, 4000))]
    run.validate("P12Trace", run.drive("p12", s))
