from base import *
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from cStringIO import StringIO
import datetime as pdtm

BASE = pdtm.date(2020, 1, 1).toordinal()
RECURS = ("VEVENT", "VTODO", "VJOURNAL")
TYPES = RECURS + ("VFREEBUSY", "X-THING")


def day(n):
    d = pdtm.date.fromordinal(BASE + n)
    return "%04d%02d%02dT100000" % (d.year, d.month, d.day)


def ctext(c):
    l = ["BEGIN:" + c["typ"]]
    if c["typ"] != "X-THING":
        l += ["UID:" + c["uid"], "DTSTAMP:20200101T000000Z"]
    if c["typ"] == "VFREEBUSY":
        l += ["DTSTART:20200101T000000Z", "DTEND:20200102T000000Z"]
    elif c["typ"] in RECURS:
        l.append("DTSTART:" + day(c["start"]))
        if c["typ"] == "VEVENT":
            l.append("DURATION:PT1H")
        if c["rid"] >= 0:
            l.append("RECURRENCE-ID:" + day(c["rid"]))
        elif c["cnt"] > 1:
            l.append("RRULE:FREQ=DAILY;COUNT=%d" % c["cnt"])
        if c["alarm"] and c["typ"] != "VJOURNAL":
            l += ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M", "END:VALARM"]
    l += ["X-TAG:" + c["tag"], "END:" + c["typ"]]
    return "".join([x + "\r\n" for x in l])


def caltext(comps):
    return str("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + "".join([ctext(c) for c in comps]) + "END:VCALENDAR\r\n")


def tag(c):
    return str(c.loadValueString("X-TAG")) if c is not None else ""


def rid_of(t):
    if not t:
        return -1
    return pdtm.date(int(t[:4]), int(t[4:6]), int(t[6:8])).toordinal() - BASE


def scan(text):
    out = []
    depth = 0
    for l in text.split("\r\n"):
        if l[:6] == "BEGIN:":
            depth += 1
            if depth == 2:
                cur = {"typ": l[6:], "uid": "", "rid": "", "tag": ""}
        elif l[:4] == "END:":
            if depth == 2:
                out.append([cur["typ"], cur["uid"], rid_of(cur["rid"]), cur["tag"]])
            depth -= 1
        elif depth == 2:
            for k, p in (("uid", "UID:"), ("rid", "RECURRENCE-ID:"), ("tag", "X-TAG:")):
                if l[:len(p)] == p:
                    cur[k] = cur[k] + l[len(p):] if k == "uid" and cur[k] else l[len(p):]
    return out


def find(cal, t):
    for c in cal.getComponents():
        if tag(c) == t:
            return c
    raise HarnessError(t)


def look(cal, e):
    e["all"] = [tag(c) for c in cal.getComponents()]
    e["types"] = [{"typ": t, "tags": [tag(c) for c in cal.getComponents(t)]} for t in TYPES]
    e["over"] = []
    e["mast"] = []
    e["keys"] = []
    m = getattr(cal, "mMasterComponentsByTypeAndUID", None)
    for u in e["uids"]:
        for t in RECURS:
            items, ids = [], []
            cal.getRecurrenceInstancesItems(t, u, items)
            cal.getRecurrenceInstancesIds(t, u, ids)
            e["over"].append({"typ": t, "uid": u, "tags": [tag(c) for c in items], "ids": [rid_of(i.getText()) for i in ids]})
            if isinstance(m, dict):
                v = m.get(t, {}).get(u, None)
                v = [] if v is None else list(v) if isinstance(v, (list, tuple, set)) else [v]
                e["mast"].append({"typ": t, "uid": u, "tags": [tag(c) for c in v]})
        for r in e["rids"]:
            from pycalendar.icalendar.componentrecur import ComponentRecur
            k = ComponentRecur.mapKey(u, day(r)) if r >= 0 else ComponentRecur.mapKey(u)
            e["keys"].append({"uid": u, "rid": r, "tag": tag(cal.getComponentByKey(k))})
    e["first"] = tag(cal.masterComponent())
    e["text"] = scan(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
    lo, hi = DateTime.parseText(day(e["lo"])), DateTime.parseText(day(e["hi"]))
    items = []
    cal.getVEvents(Period(lo, hi), items)
    e["items"] = [[tag(i.getOwner()), rid_of(i.getInstanceStart().getText())] for i in items]


def step(st, e):
    cals, pool = st
    op = e["op"]
    if op == "newcal":
        cals.append(Calendar())
        return
    cal = cals[e["cal"] - 1]
    if op == "parse":
        cal.parse(StringIO(caltext(e["comps"])))
    elif op == "parseone":
        cal.parseComponent(StringIO(caltext(e["comps"])))
    elif op == "add":
        for c in e["comps"]:
            other = Calendar.parseText(caltext([c]))
            src = other.getComponents()[0]
            how = e["how"]
            if how == "dup":
                cal.addComponent(src.duplicate())
            elif how == "dupin":
                cal.addComponent(src.duplicate(parent=cal))
            elif how == "move":
                other.removeComponent(src)
                cal.addComponent(src)
            else:               # built piece by piece
                n = Component.makeComponent(str(c["typ"]), None)
                for p in src.getComponents():
                    n.addComponent(p.duplicate(parent=n))
                for ps in src.getProperties().values():
                    for p in ps:
                        n.addProperty(p.duplicate())
                n.finalise()
                cal.addComponent(n)
    elif op == "remove":
        c = find(cal, e["tag"])
        cal.removeComponent(c)
        pool.append(c)
    elif op == "readd":
        c = [x for x in pool if tag(x) == e["tag"]][0]
        for i, x in enumerate(pool):
            if x is c:
                del pool[i]
                break
        if e["uid"]:
            c.setUID(str(e["uid"]))
        cal.addComponent(c)
    elif op == "copyin":
        c = find(cals[e["src"] - 1], e["tag"]).duplicate()
        if e["uid"]:
            c.setUID(str(e["uid"]))
        cal.addComponent(c)
    elif op == "rmkey":
        from pycalendar.icalendar.componentrecur import ComponentRecur
        cal.removeComponentByKey(ComponentRecur.mapKey(e["uid"], day(e["rid"])) if e["rid"] >= 0 else ComponentRecur.mapKey(e["uid"]))
        e["left"] = [tag(c) for c in cal.getComponents()]
    elif op == "cleartype":
        cal.removeAllComponent(e["typ"])
    elif op == "clear":
        cal.removeAllComponent()
    elif op == "rename":
        cal.changeUID(str(e["old"]), str(e["new"]))
    elif op == "dup":
        cals.append(cal.duplicate())
    elif op == "look":
        look(cal, e)
    else:
        raise HarnessError(op)


def run(sess):
    TimezoneDatabase.getTimezoneDatabase().clear()
    st = ([Calendar()], [])
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, st, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
        if not ok:
            break
    return out
