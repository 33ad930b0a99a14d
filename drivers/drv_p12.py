import base
from base import *
import drv_p10
from drv_p10 import mkset, vtext, off
from drv_p11 import dprop, fixed, TZ, sgn, offof
from recurlib import item
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.duration import Duration
from cStringIO import StringIO

ZONES = ["O3600", "O-18000", "O19800"]


def zdt(r):
    """record -> DateTime in a named fixed zone"""
    if r["tz"][0] == "O":
        return DateTime(r["y"], r["m"], r["d"], r["h"], r["n"], r["s"], tzid=Timezone(tzid=fixed(r["tz"])))
    return mkdt(r)


def named(r):
    """record -> DateTime in the zone of that name (what an iCalendar text can carry)"""
    if r["tz"][0] == "O":
        return DateTime(r["y"], r["m"], r["d"], r["h"], r["n"], r["s"], tzid=Timezone(tzid=str(r["tz"])))
    return mkdt(r)


def rec(dt):
    r = pdt(dt)
    o = offof(dt)
    r["off"] = o
    if r["tz"][:5] == "Fixed":
        r["tz"] = "O" + r["tz"][5:].replace("M", "-")
    return r


def durtext(n):
    if n and n % 604800 == 0 and n % 1209600 == 0:
        return "P%dW" % (n / 604800)
    if n % 86400 == 0 and n:
        return "P%dD" % (n / 86400)
    d, s = divmod(n, 86400)
    return "P" + ("%dD" % d if d else "") + "T%dH%dM%dS" % (s / 3600, s / 60 % 60, s % 60)


def ctext(kind, b, order):
    l = []
    if b["dtstart"]:
        l.append(dprop("DTSTART", b["dtstart"][0]))
    if b["dtend"]:
        l.append(dprop("DTEND", b["dtend"][0]))
    if b["due"]:
        l.append(dprop("DUE", b["due"][0]))
    if b["dur"]:
        l.append("DURATION:" + durtext(b["dur"][0]))
    if order:
        l.reverse()
    return ["BEGIN:" + kind, "UID:u1", "DTSTAMP:20200101T000000Z"] + l + ["SUMMARY:x", "END:" + kind]


def zonetext():
    t = ""
    for z in ZONES:
        o = sgn(int(z[1:]))
        t += TZ % (fixed(z), o, o)
    for z in ZONES + ["O-25200"]:
        o = sgn(int(z[1:]))
        t += TZ % (z, o, o)
    return t


def observe(c, e):
    e["hasstart"] = 1 if c.hasStart() else 0
    e["hasend"] = 1 if c.hasEnd() else 0
    e["usedur"] = 1 if c.useDuration() else 0
    e["start"] = rec(c.getStart()) if c.hasStart() else rec(DateTime(1970, 1, 1))
    e["end"] = rec(c.getEnd())
    b, dups = {}, 0
    for k in ("dtstart", "dtend", "due"):
        ps = c.getProperties(k)
        dups += max(0, len(ps) - 1)
        b[k] = [rec(p.getDateTimeValue().getValue()) for p in ps[:1]]
    ps = c.getProperties("duration")
    dups += max(0, len(ps) - 1)
    b["dur"] = [num(p.getDurationValue().getValue().getTotalSeconds()) for p in ps[:1]]
    e["bag"], e["dups"] = b, dups


class Box(object):
    pass


def load(box, text, kind):
    box.cal = Calendar.parseText(str(text))
    box.c = box.cal.getComponents(kind)[0]


def timing(box, kind, e):
    op = e["op"]
    if op == "load":
        load(box, "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + "\r\n".join(ctext(kind, e["given"], e["order"])) + "\r\nEND:VCALENDAR\r\n", kind)
    elif op == "startend":
        box.c.editTimingStartEnd(zdt(e["start"]), zdt(e["end"]))
    elif op == "startdur":
        box.c.editTimingStartDuration(zdt(e["start"]), Duration(duration=e["n"]))
    elif op == "due":
        box.c.editTimingDue(zdt(e["end"]))
    elif op == "none":
        box.c.editTiming()
    elif op == "reload":
        if e["how"] == "json":
            t = box.cal.getTextJSON()
            box.cal = Calendar.parseJSONData(t)
            box.c = box.cal.getComponents(kind)[0]
        else:
            load(box, box.cal.getText(includeTimezones=Calendar.ALL_TIMEZONES), kind)
    elif op == "dup":
        box.cal = box.cal.duplicate()
        box.c = box.cal.getComponents(kind)[0]
    want = dict((k, e[k]) for k in ("start", "end") if k in e and op != "load")
    observe(box.c, e)
    for k in want:            # keep what was asked under its own name
        e["o" + k], e[k] = e[k], want[k]


def run_timing(sess):
    kind = sess["init"]["kind"]
    box = Box()
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(timing, box, kind, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
        if not ok:
            break
    return out


def run_recur(sess):
    box = Box()
    x = sess["init"]
    out = []
    drv_p10.mkdt = named      # the values of a set given to an event are in zones a text can name

    def first():
        load(box, vtext(x), "VEVENT")

    def step(e):
        op = e["op"]
        if op == "set":
            box.c.editRecurrenceSet(mkset(e["set"]))
        elif op == "exdate":
            box.c.excludeRecurrence(named(e["at"]))
        elif op == "cut":
            box.c.excludeFutureRecurrence(named(e["at"]))
        elif op == "reload":
            load(box, box.cal.getText(), "VEVENT")
        elif op == "dup":
            box.cal = box.cal.duplicate()
            box.c = box.cal.getComponents("VEVENT")[0]
        elif op == "expand":
            items = []
            e["limited"] = 1
            rs = box.c.getRecurrenceSet()
            if rs is None:
                from pycalendar.icalendar.recurrenceset import RecurrenceSet
                rs = RecurrenceSet()
            rs.expand(box.c.getStart(), Period(named(e["lo"]), named(e["hi"])), items)
            e["items"] = [item(i) + [off(i)] for i in items]
    ok, r = attempt(first)
    if not ok:
        return [{"op": "load", "ok": 0, "exc": r}]
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
        if not ok:
            break
    return out


def run(sess):
    TimezoneDatabase.getTimezoneDatabase().clear()
    cal = Calendar()
    cal.parse(StringIO("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + str(zonetext()) + "END:VCALENDAR\r\n"))
    return run_timing(sess) if sess["init"]["what"] == "timing" else run_recur(sess)
