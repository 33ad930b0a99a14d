import base
from base import *


def pdur(d):
    n = d.getTotalSeconds()
    a = abs(n)
    return {"neg": 1 if n < 0 else 0, "d": num(a // 86400), "s": num(a % 86400)}


def comps(a, b):
    return {"eq": bool(a == b), "ne": bool(a != b), "lt": bool(a < b), "gt": bool(a > b), "le": bool(a <= b), "ge": bool(a >= b), "hash": hash(a) == hash(b)}


def mkp(e):
    if e["how"] == "text":
        return Period.parseText(str(e["text"]))
    s = mkdt(e["s"])
    if e["use"]:
        return Period(start=s, duration=Duration(duration=e["days"] * 86400 + e["secs"]))
    return Period(start=s, end=mkdt(e["e"]))


def run(sess):
    slots = {}
    out = []

    def step(e):
        op = e["op"]
        if op == "dur":
            if e["how"] == "text":
                d = Duration.parseText(str(e["text"]))
            elif e["how"] == "parts":
                w, dd, h, n, s = e["parts"]
                d = Duration(weeks=w, days=dd, hours=h, minutes=n, seconds=s)
            elif e["how"] == "set":
                d = Duration(days=3, hours=7)
                d.setDuration(e["days"] * 86400 + e["secs"])
            elif e["how"] == "neg":
                d = Duration(duration=-(e["days"] * 86400 + e["secs"]))
                d = Duration(duration=-d.getTotalSeconds()).duplicate()
            else:
                d = Duration(duration=e["days"] * 86400 + e["secs"])
            e["o"] = {"total": pdur(d), "text": str(d.getText()),
                      "parts": {"w": num(d.getWeeks()), "d": num(d.getDays()), "h": num(d.getHours()), "n": num(d.getMinutes()), "s": num(d.getSeconds()), "fwd": 1 if d.getForward() else 0}}
        elif op == "durcmp":
            e.update(comps(Duration(duration=e["a"][0] * 86400 + e["a"][1]), Duration(duration=e["b"][0] * 86400 + e["b"][1])))
        elif op == "new":
            slots[e["i"]] = mkp(e)
        elif op == "use":
            slots[e["i"]].setUseDuration(bool(e["use"]))
        elif op == "dup":
            slots[e["j"]] = slots[e["i"]].duplicate()
        elif op == "utc":
            slots[e["i"]].adjustToUTC()
        elif op == "look":
            p = slots[e["i"]]
            f = {"start": lambda: pdt(p.getStart()), "end": lambda: pdt(p.getEnd()), "len": lambda: pdur(p.getDuration()), "use": lambda: 1 if p.getUseDuration() else 0,
                 "text": lambda: str(p.getText())}
            e["o"] = {}
            for k in e["order"]:
                e["o"][k] = f[k]()
        elif op == "point":
            p, t = slots[e["i"]], mkdt(e["t"])
            e["within"], e["before"], e["after"] = bool(p.isDateWithinPeriod(t)), bool(p.isDateBeforePeriod(t)), bool(p.isDateAfterPeriod(t))
        elif op == "pair":
            p, q = slots[e["i"]], slots[e["j"]]
            e["overlap"] = bool(p.isPeriodOverlap(q))
            e.update(comps(p, q))
        elif op == "sort":
            l = [mkp(x) for x in e["list"]]
            e["given"] = [{"s": pdt(x.getStart()), "e": pdt(x.getEnd())} for x in [mkp(y) for y in e["list"]]]
            l.sort()
            e["o"] = [{"s": pdt(x.getStart()), "e": pdt(x.getEnd())} for x in l]

    for e in sess["events"]:
        e = dict(e)
        ok, v = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, v)
        out.append(e)
        if not ok:
            break
    return out
