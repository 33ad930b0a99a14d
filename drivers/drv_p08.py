import base
from recurlib import *
from pycalendar.icalendar import definitions

FREQ = dict([(f, getattr(definitions, "eRecurrence_" + f)) for f in ("SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY")])


def setpart(rule, part, r):
    if part == "freq":
        rule.setFreq(FREQ[r["freq"]])
    elif part == "interval":
        rule.setInterval(r["interval"])
    elif part == "bound":
        rule.setUseCount(False)
        rule.setUseUntil(False)
        if r["count"]:
            rule.setCount(r["count"])
            rule.setUseCount(True)
        if r["hasuntil"]:
            rule.setUntil(mkdt(r["until"]))
            rule.setUseUntil(True)
    elif part == "count":
        rule.setCount(r["count"])
    elif part == "until":
        u = mkdt(r["until"])
        rule.setUntil(u)
        u.offsetDay(-3)          # the caller's object is the caller's
    elif part == "bymon":
        rule.setByMonth(list(r["bymon"]))
    elif part == "bymd":
        l = list(r["bymd"])
        rule.setByMonthDay(l)
        l.append(1)
    elif part == "byyd":
        rule.setByYearDay(list(r["byyd"]))
    elif part == "byday":
        rule.setByDay([tuple(x) for x in r["byday"]])
    elif part == "bysp":
        rule.setBySetPos(list(r["bysp"]))
    else:
        raise HarnessError(part)


def doexpand(rule, e):
    start = mkdt(e["start"])
    p = Period(mkdt(e["lo"]), mkdt(e["hi"]))
    items = []
    kw = {}
    if e["max"]:
        kw["maxInstances"] = e["max"]
    ok, r = attempt(rule.expand, start, p, items, float_offset=e["fo"], **kw)
    o = {"ok": 1 if ok else (2 if r == "EXC:TooManyInstancesError" else 0), "exc": "" if ok else r, "items": [], "kind": 1, "limited": 1}
    if ok:
        o["items"] = [item(i) for i in items]
        o["kind"] = 1 if all([i.isDateOnly() == start.isDateOnly() and tzname(i) == tzname(start) for i in items]) else 0
        o["limited"] = 1 if r else 0
    return o, (items, start, p)


def run(sess):
    objs = [mkrule(sess["init"]["text"])]
    out = []
    last = None
    for e in sess["events"]:
        e = dict(e)
        op = e["op"]
        if op == "expand":
            o, last = doexpand(objs[e["o"] - 1], e)
            e.update(o)
            e["fresh"], _ = doexpand(mkrule(e["text"]), e)
        elif op == "set":
            ok, v = attempt(setpart, objs[e["o"] - 1], e["part"], e["rule"])
            e["ok"], e["exc"] = (1, "") if ok else (0, v)
        elif op == "dup":
            ok, v = attempt(objs[e["o"] - 1].duplicate)
            e["ok"], e["exc"] = (1, "") if ok else (0, v)
            if ok:
                objs.append(v)
        elif op == "exclude":
            ok, v = attempt(objs[e["o"] - 1].excludeFutureRecurrence, mkdt(e["at"]))
            e["ok"], e["exc"] = (1, "") if ok else (0, v)
        elif op == "spoil" and last is not None:
            items, start, p = last
            for i in items:
                i.offsetDay(400)
            start.offsetDay(7)
            p.getEnd().offsetDay(5000)
        out.append(e)
        if e.get("ok") == 0:
            break
    return out
