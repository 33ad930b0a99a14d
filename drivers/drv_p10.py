import base
from recurlib import *
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase


def mkset(x):
    rs = RecurrenceSet()
    for t in x["rtexts"]:
        rs.addRule(mkrule(t))
    for t in x["extexts"]:
        rs.subtractRule(mkrule(t))
    for d in x["rdates"]:
        rs.addDT(mkdt(d))
    for d in x["exdates"]:
        rs.subtractDT(mkdt(d))
    for p in x["rpers"]:
        rs.addPeriod(mkper(p))
    for p in x["expers"]:
        rs.subtractPeriod(mkper(p))
    return rs


def mkper(p):
    if p["dur"]:
        return Period(mkdt(p["s"]), duration=mkdt(p["e"]) - mkdt(p["s"]))
    return Period(mkdt(p["s"]), mkdt(p["e"]))


def txt(r):
    if r["do"]:
        return "%04d%02d%02d" % (r["y"], r["m"], r["d"])
    return "%04d%02d%02dT%02d%02d%02d%s" % (r["y"], r["m"], r["d"], r["h"], r["n"], r["s"], "Z" if r["tz"] == "Z" else "")


def tzpar(tz):
    return ";TZID=" + tz if tz[0] == "O" else ""


def pertxt(p):
    return txt(p["s"]) + "/" + ((mkdt(p["e"]) - mkdt(p["s"])).getText() if p["dur"] else txt(p["e"]))


def vtext(x):
    def dts(name, l):
        """one property for each run of values of the same kind and zone"""
        res = []
        last = None
        for d in l:
            per = "dur" in d
            z = (d["s"] if per else d)
            kind = (";VALUE=PERIOD" if per else ";VALUE=DATE" if z["do"] else "") + tzpar(z["tz"])
            key = (kind, z["tz"])
            if key == last:
                res[-1] += "," + (pertxt(d) if per else txt(d))
            else:
                res.append(name + kind + ":" + (pertxt(d) if per else txt(d)))
                last = key
        return res
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y//EN"]
    used = set([x["start"]["tz"]])
    for k in ("rdates", "exdates"):
        used |= set([d["tz"] for d in x[k]])
    for k in ("rpers", "expers"):
        used |= set([d["s"]["tz"] for d in x[k]])
    for tz in sorted(used):
        if tz[0] == "O":
            n = int(tz[1:])
            o = "%s%02d%02d" % ("-" if n < 0 else "+", abs(n) / 3600, abs(n) / 60 % 60)
            lines += ["BEGIN:VTIMEZONE", "TZID:" + tz, "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:" + o, "TZOFFSETTO:" + o,
                      "END:STANDARD", "END:VTIMEZONE"]
    lines += ["BEGIN:VEVENT", "UID:u1", "DTSTAMP:20200101T000000Z"]
    lines.append("DTSTART" + (";VALUE=DATE" if x["start"]["do"] else "") + tzpar(x["start"]["tz"]) + ":" + txt(x["start"]))
    lines += ["RRULE:" + t for t in x["rtexts"]]
    lines += ["EXRULE:" + t for t in x["extexts"]]
    h = len(x["rdates"]) / 2
    lines += dts("RDATE", x["rdates"][:h]) + dts("RDATE", x["rdates"][h:])
    lines += dts("EXDATE", x["exdates"]) + dts("RDATE", x["rpers"]) + dts("EXDATE", x["expers"])
    lines += ["SUMMARY:x", "END:VEVENT", "END:VCALENDAR", ""]
    return "\r\n".join([str(l) for l in lines])


def fromtext(x):
    cal = Calendar.parseText(vtext(x))
    ev = cal.getComponents("VEVENT")[0]
    rs = ev.getRecurrenceSet()
    if rs is None:
        rs = RecurrenceSet()
    return rs


def run(sess):
    x = sess["init"]
    TimezoneDatabase.getTimezoneDatabase().clear()
    out = []
    ok, rs = attempt(fromtext if x["via"] == "text" else mkset, x)
    if not ok:
        return [{"op": "load", "ok": 0, "exc": rs}]
    for e in sess["events"]:
        e = dict(e)
        if e["op"] == "expand":
            items = []
            st = mkdt(x["start"])
            kw = {"maxInstances": e["max"]} if e["max"] else {}
            ok, r = attempt(rs.expand, st, Period(mkdt(e["lo"]), mkdt(e["hi"])), items, **kw)
            e["ok"] = 1 if ok else (2 if r == "EXC:TooManyInstancesError" else 0)
            e["exc"] = "" if ok else r
            if ok:
                e["items"] = [item(i) + [off(i)] for i in items]
                e["limited"] = 1 if r else 0
                for i in items:
                    i.offsetDay(77)       # the caller's copies
            else:
                e["items"], e["limited"] = [], 1
        elif e["op"] == "eq":
            other = mkset(e["other"])
            ok, r = attempt(rs.equals, other)
            if not ok:
                e["res"] = "EXC"
                out.append(dict(e, op="load", ok=0, exc=r))
                break
            e["res"] = bool(r)
            ok, r2 = attempt(other.equals, rs)
            if not ok or bool(r2) != e["res"]:
                out.append(dict(e, op="load", ok=0, exc="equality is not symmetric"))
                break
        elif e["op"] == "exclude":
            ok, r = attempt(rs.excludeFutureRecurrence, mkdt(e["at"]))
            e["ok"], e["exc"] = (1, "") if ok else (0, r)
        elif e["op"] == "dup":
            rs2 = rs.duplicate()
            rs2, rs = rs, rs2
        out.append(e)
    return out


def off(dt):
    n = tzname(dt)
    return int(n[1:]) if n[0] == "O" else 0
