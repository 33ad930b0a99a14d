from base import *
from drv_p11 import fixed, sgn, TZ
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from cStringIO import StringIO

ZONE_E = "".join([l + "\r\n" for l in """BEGIN:VTIMEZONE
TZID:East
BEGIN:STANDARD
DTSTART:19700101T000000
TZOFFSETFROM:-0500
TZOFFSETTO:-0500
TZNAME:EST
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20200308T020000
TZOFFSETFROM:-0500
TZOFFSETTO:-0400
TZNAME:EDT
END:DAYLIGHT
BEGIN:STANDARD
DTSTART:20201101T020000
TZOFFSETFROM:-0400
TZOFFSETTO:-0500
TZNAME:EST
END:STANDARD
END:VTIMEZONE""".split("\n")])


def tzid(tz):
    return "East" if tz == "E" else fixed(tz)


def dprop(name, r):
    t = "%04d%02d%02d" % (r["y"], r["m"], r["d"])
    if r["do"]:
        return "%s;VALUE=DATE:%s" % (name, t)
    t += "T%02d%02d%02d" % (r["h"], r["n"], r["s"])
    if r["tz"] == "Z":
        return "%s:%sZ" % (name, t)
    return "%s%s:%s" % (name, "" if r["tz"] == "F" else ";TZID=" + tzid(r["tz"]), t)


def ctext(c):
    l = ["BEGIN:" + c["typ"], dprop("DTSTART", c["start"])]
    if c["endform"] == "end":
        l.append(dprop("DTEND" if c["typ"] == "VEVENT" else "DUE", c["end"]))
    if c["rid"]:
        l.append(dprop("RECURRENCE-ID", c["start"]))
    l += c["rlines"] + [x for x in c["lines"]] + ["END:" + c["typ"]]
    return "".join([str(x) + "\r\n" for x in l])


def zones():
    t = ZONE_E
    for o in (3600, -18000, 19800):
        t += TZ % (fixed("O%d" % o), sgn(o), sgn(o))
    return t


def wrap(body):
    return str("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + zones() + body + "END:VCALENDAR\r\n")


def zname(dt):
    n = tzname(dt)
    if n == "East":
        return "E", 0
    if n[:5] == "Fixed":
        o = int(n[5:].replace("M", "-"))
        return "O%d" % o, o
    return n, 0


def rec(dt):
    r = pdt(dt)
    r["tz"], r["fix"] = zname(dt)
    if r["do"]:
        r["h"] = r["n"] = r["s"] = 0
    return r


NONE = {"y": 2000, "m": 1, "d": 1, "h": 0, "n": 0, "s": 0, "do": 9, "tz": "NONE", "fix": 0}
GONE = ("DTSTART", "DTEND", "DUE", "RECURRENCE-ID", "RRULE", "RDATE", "EXRULE", "EXDATE", "BEGIN", "END")


def unfold(t):
    return t.replace("\r\n ", "").split("\r\n")


def name(l):
    return l.split(":")[0].split(";")[0]


def observe(c):
    g = {"null": 0, "typ": str(c.getType()), "start": rec(c.getStart()), "recurring": 1 if c.isRecurring() else 0, "isover": 1 if c.isRecurrenceInstance() else 0,
         "prid": rec(c.getRecurrenceID()) if c.getRecurrenceID() is not None else NONE}
    t = c.getText()
    depth, lines, bad, dur = 0, [], 0, 0
    ends = []
    for l in unfold(t):
        if l[:6] == "BEGIN:":
            depth += 1
            if depth > 1:
                lines.append(l)
        elif l[:4] == "END:":
            if depth > 1:
                lines.append(l)
            depth -= 1
        elif not l:
            pass
        elif depth > 1 or name(l) not in GONE:
            lines.append(l)
            if depth == 1 and name(l) == "DURATION":
                dur = 1
        elif name(l) in ("DTEND", "DUE"):
            ends.append(l)
        elif name(l) in ("RRULE", "RDATE", "EXRULE", "EXDATE"):
            bad = 1
    g["recurring"] = max(g["recurring"], bad)
    g["lines"] = lines
    wantend = "DTEND" if g["typ"] == "VEVENT" else "DUE"
    g["endform"] = "end" if len(ends) == 1 and name(ends[0]) == wantend and not dur else "dur" if dur and not ends else "none" if not ends else "bad"
    g["pend"] = NONE
    if g["endform"] == "end":
        g["pend"] = rec(c.loadValueDateTime(wantend))
    # the effective end of a journal has no meaning
    g["hasend"] = 0 if g["typ"] == "VJOURNAL" or (g["typ"] == "VTODO" and g["endform"] == "none") else 1
    g["end"] = rec(c.getEnd())
    return g


def query(cal, e):
    from pycalendar.datetime import DateTime
    from pycalendar.period import Period
    from pycalendar.timezone import Timezone
    items = []
    u = Timezone(utc=True)
    cal.getVEvents(Period(DateTime(*(e["lo"] + [0, 0, 0, u])), DateTime(*(e["hi"] + [0, 0, 0, u]))), items)
    res = []
    for i in items:
        a, b = i.getInstanceStart(), i.getInstanceEnd()
        res.append([posix(a.getPosixTime()), posix(b.getPosixTime()), 1 if a.isDateOnly() else 0])
    res.sort()
    return res


def run(sess):
    TimezoneDatabase.getTimezoneDatabase().clear()
    ok, cal = attempt(Calendar.parseText, wrap("".join([ctext(c) for c in sess["init"]["comps"]])))
    if not ok or cal is None:
        return [{"op": "derive", "ok": 0, "exc": str(cal), "rid": NONE, "got": {"null": 1}}]
    last = [None]

    def derive(e):
        rid = dict(e["rid"])
        if rid["tz"] == "E":
            rid["tz"] = "East"
        elif rid["tz"][0] == "O":
            rid["tz"] = fixed(rid["tz"])
        before = cal_[0].getText(includeTimezones=Calendar.NO_TIMEZONES)
        dt = mkdt(rid)
        c = cal_[0].deriveComponent(dt)
        if c is None:
            e["got"] = {"null": 1}
            return
        last[0] = c
        g = observe(c)
        g["same"] = 1 if cal_[0].getText(includeTimezones=Calendar.NO_TIMEZONES) == before and dt.getText() == mkdt(rid).getText() else 0
        back = Calendar.parseText(wrap(c.getText()))
        h = observe([x for x in back.getComponents() if x.getType() != "VTIMEZONE"][0])
        h["same"] = g["same"]
        g["lines"].sort()
        h["lines"].sort()
        g["reread"] = 1 if g == h else 0
        e["got"] = g

    def step(e):
        cal = cal_[0]
        if e["op"] == "derive":
            derive(e)
        elif e["op"] == "addin":
            e["before"] = query(cal, e)
            cal.addComponent(last[0])
            e["after"] = query(cal, e)
        elif e["op"] == "shift":
            c = last[0].duplicate() if e["dup"] else last[0]
            e["rid1"] = str(c.getRecurrenceID().getText())
            c.getStart().offsetDay(3)
            e["rid2"] = str(c.loadValueDateTime("RECURRENCE-ID").getText())
        elif e["op"] == "dup":
            cal_[0] = cal.duplicate()
        elif e["op"] == "expand":
            query(cal, e)
        elif e["op"] == "rename":
            cal.changeUID(str(e["old"][4:]), str(e["new"][4:]))
        else:
            raise HarnessError(e["op"])
    cal_ = [cal]
    out = []
    for e in sess["events"]:
        e = dict(e)
        if e["op"] in ("addin", "shift") and last[0] is None:
            continue
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        if e["op"] == "shift":
            last[0] = None
        out.append(e)
        if not ok:
            break
    return out
