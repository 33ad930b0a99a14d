import base
from base import *
from drv_p10 import mkset, mkper, item, off as off10
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from cStringIO import StringIO

TZ = "BEGIN:VTIMEZONE\r\nTZID:%s\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nTZOFFSETFROM:%s\r\nTZOFFSETTO:%s\r\nTZNAME:X\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"


def fixed(tz):
    """name of the fixed-offset zone O<seconds>"""
    return "Fixed" + tz[1:].replace("-", "M")


def sgn(n):
    return "%s%02d%02d" % ("-" if n < 0 else "+", abs(n) / 3600, abs(n) / 60 % 60)


def dprop(name, r, extra=""):
    t = "%04d%02d%02d" % (r["y"], r["m"], r["d"])
    if r["do"]:
        return "%s;VALUE=DATE%s:%s" % (name, extra, t)
    t += "T%02d%02d%02d" % (r["h"], r["n"], r["s"])
    if r["tz"] == "Z":
        t += "Z"
    elif r["tz"][0] == "O":
        extra += ";TZID=" + fixed(r["tz"])
    return "%s%s:%s" % (name, extra, t)


def ctext(c):
    if c["kind"] == "other":
        typ = c["typ"]
    else:
        typ = "VEVENT"
    l = ["BEGIN:" + typ, "UID:" + c["uid"], "DTSTAMP:20200101T%06dZ" % c["stamp"]]
    l.append(dprop("DTSTART", c["start"]))
    if c["endf"] == "dtend":
        l.append(dprop("DTEND" if typ == "VEVENT" else "DUE", c["end"]))
    elif c["endf"] == "dur":
        n = c["len"]
        l.append("DURATION:P" + (("%dD" % (n / 86400)) if n % 86400 == 0 and n else "T%dS" % n))
    if c["kind"] == "over":
        l.append(dprop("RECURRENCE-ID", c["rid"], ";RANGE=THISANDFUTURE" if c["future"] else ""))
    if c["kind"] in ("master", "other"):
        l += ["RRULE:" + t for t in c["rtexts"]]
    if c["kind"] == "master":
        l += ["EXRULE:" + t for t in c["extexts"]]
        for d in c["rdates"]:
            l.append(dprop("RDATE", d))
        for d in c["exdates"]:
            l.append(dprop("EXDATE", d))
        for p in c["rpers"]:
            l.append("RDATE;VALUE=PERIOD:" + mkper(p).getText())
    l += ["SUMMARY:" + c["id"], "END:" + typ]
    return l


def text(comps):
    zones = set()
    for c in comps:
        for k in ("start", "end", "rid"):
            if k in c and c[k]["tz"][0] == "O":
                zones.add(c[k]["tz"])
        for d in c.get("rdates", []) + c.get("exdates", []):
            if d["tz"][0] == "O":
                zones.add(d["tz"])
    t = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//x//y//EN\r\n"
    for z in sorted(zones):
        o = sgn(int(z[1:]))
        t += TZ % (fixed(z), o, o)
    for c in comps:
        t += "".join([str(x) + "\r\n" for x in ctext(c)])
    return str(t + "END:VCALENDAR\r\n")


def offof(dt):
    n = tzname(dt)
    if n[:5] == "Fixed":
        return int(n[5:].replace("M", "-"))
    return 0


def load(cal, e):
    if e["via"] == "all":
        cal.parse(StringIO(text(e["comps"])))
    elif e["via"] == "one":
        cal.parseComponent(StringIO(text(e["comps"])))
    else:
        other = Calendar.parseText(text(e["comps"]))
        for c in other.getComponents():
            if c.getType() != "VTIMEZONE":
                cal.addComponent(c.duplicate(parent=cal))


def find(cal, cid):
    for c in cal.getComponents():
        if c.getType() != "VTIMEZONE" and c.loadValueString("SUMMARY") == cid:
            return c
    raise HarnessError(cid)


def query(cal, e):
    items = []
    cal.getVEvents(Period(mkdt(e["lo"]), mkdt(e["hi"])), items, bool(e["top"]))
    res = []
    for i in items:
        s, n = i.getInstanceStart(), i.getInstanceEnd()
        o = i.getOwner()
        st = o.getStart()
        res.append({"id": str(o.loadValueString("SUMMARY")), "s": item(s) + [offof(s)], "e": item(n) + [offof(n)], "rec": 1 if i.recurring() else 0,
                    "kind": 1 if s.isDateOnly() == st.isDateOnly() and n.isDateOnly() == st.isDateOnly() else 0})
    if e.get("spoil"):
        for i in items:       # handed out: the caller's
            if i.recurring() and not i.getOwner().isRecurrenceInstance():
                i.getInstanceStart().offsetDay(50)
    return res


def run(sess):
    out = []
    TimezoneDatabase.getTimezoneDatabase().clear()
    cal = Calendar()
    for e in sess["events"]:
        e = dict(e)
        if e["op"] == "load":
            ok, r = attempt(load, cal, e)
        elif e["op"] == "remove":
            c = find(cal, e["rid"])
            ok, r = attempt(cal.removeComponent, c)
        elif e["op"] == "dup":
            ok, r = attempt(cal.duplicate)
            if ok:
                cal = r
        else:
            ok, r = attempt(query, cal, e)
            e["items"] = r if ok else []
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
        if not ok:
            break
    return out
