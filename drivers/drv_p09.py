import base, json
from recurlib import *
from pycalendar.icalendar import definitions
FREQ = dict([(getattr(definitions, "eRecurrence_" + f), f) for f in ("SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY")])


def lst(l):
    return [num(x) for x in (l or [])]


def part(r, attr, key):
    """a part without an accessor: from the object where it keeps it under this name, else from its text"""
    if hasattr(r, attr):
        return getattr(r, attr)
    q = [p[len(key) + 1:] for p in r.getText().split(";") if p.startswith(key + "=")]
    return [int(x) for x in q[0].split(",")] if q else []


def wkst(r):
    if hasattr(r, "mWeekstart"):
        return r.mWeekstart
    q = [p[5:] for p in r.getText().split(";") if p.startswith("WKST=")]
    return getattr(definitions, "eRecurrence_WEEKDAY_" + (q[0] if q else "MO"))


def rec(r):
    u = r.getUntil()
    return {"freq": FREQ.get(r.getFreq(), "?"), "interval": num(r.getInterval()), "count": num(r.getCount()) if r.getUseCount() else 0,
            "hasuntil": 1 if r.getUseUntil() else 0, "until": pdt(u) if r.getUseUntil() else {"do": 1}, "wkst": num(wkst(r)),
            "bysec": lst(part(r, "mBySeconds", "BYSECOND")), "bymin": lst(part(r, "mByMinutes", "BYMINUTE")), "byhour": lst(part(r, "mByHours", "BYHOUR")),
            "byday": [[num(a), num(b)] for a, b in (r.getByDay() or [])], "bymd": lst(r.getByMonthDay()), "byyd": lst(r.getByYearDay()),
            "bywk": lst(part(r, "mByWeekNo", "BYWEEKNO")), "bymon": lst(r.getByMonth()), "bysp": lst(r.getBySetPos())}


def text(v):
    return str(v)


def full(e):
    r = mkrule(e["text"])
    e["rec"] = rec(r)
    e["gen"] = text(r.getText())
    again = mkrule(e["gen"])
    e["again"], e["againeq"] = rec(again), bool(again == r) and not (again != r) and hash(again) == hash(r)
    d = r.duplicate()
    e["dup"], e["dupeq"] = rec(d), bool(d == r) and not (d != r) and hash(d) == hash(r)
    j = []
    r.writeJSON(j)
    j = json.loads(json.dumps(j))
    if len(j) != 1 or not isinstance(j[0], dict):
        e["json"] = [{"k": "NOTADICT", "v": []}]
    else:
        e["json"] = [{"k": str(k), "v": [str(x) for x in (v if isinstance(v, list) else [v])]} for k, v in sorted(j[0].items())]
    jr = Recurrence()
    jr.parseJSON(j[0])
    e["jread"], e["jeq"] = rec(jr), bool(jr == r) and not (jr != r)


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        if e["op"] == "parse":
            ok, v = attempt(mkrule, e["text"])
            e["ok"] = 1 if ok else 0
            e["exc"] = "" if ok else v
            if ok:
                ok, v = attempt(full, e)
                if not ok:
                    e["ok"], e["exc"] = 0, "after parsing: " + v
        else:
            def both():
                return mkrule(e["text"]), mkrule(e["other"])
            ok, v = attempt(both)
            e["ok"] = 1 if ok else 0
            e["exc"] = "" if ok else v
            if ok:
                a, b = v
                e["eq"], e["ne"], e["hash"] = bool(a == b), bool(a != b), hash(a) == hash(b)
                if bool(b == a) != e["eq"]:
                    e["eq"] = "asymmetric"
        out.append(e)
    return out
