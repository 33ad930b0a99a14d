from base import *
from drv_p15 import s, o
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vfreebusy import VFreeBusy
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

BASE = 1577836800


def at(t):
    d = DateTime(2020, 1, 1, 0, 0, 0, tzid=Timezone(utc=True))
    d.offsetMinutes(t)
    return d


def mins(d):
    m, r = divmod(d.getPosixTime() - BASE, 60)
    return num(m) if r == 0 else -2147483647


def items(q):
    return [[num(f.getType()), mins(f.getPeriod().getStart()), mins(f.getPeriod().getEnd())] for f in q]


def run(sess):
    TimezoneDatabase.getTimezoneDatabase().clear()
    cal = Calendar.parseText(s(sess["init"]["text"]))
    out = []
    for e in sess["events"]:
        e = dict(e)

        def step():
            fbs = cal.getComponents("VFREEBUSY")
            p = Period(at(e["a"]), at(e["b"])) if "a" in e else None
            q = []
            if e["op"] == "query":
                cal.getFreeBusy(p, q)
                e["res"] = items(q)
            elif e["op"] == "vfb":
                c = Calendar()
                f = VFreeBusy(parent=c)
                f.setUID("x")
                c.addComponent(f)
                cal.getVFreeBusyFB(p, f)
                c = Calendar.parseText(c.getText())
                c.getComponents("VFREEBUSY")[0].expandPeriodFB(Period(at(-1000000), at(1000000)), q)
                e["res"] = items(q)
            elif e["op"] == "comp":
                fbs[e["i"] - 1].expandPeriodFB(p, q)
                e["res"] = items(q)
            elif e["op"] == "list":
                cal.getVFreeBusyList(p, q)
                e["res"] = [num(int(c.getUID())) for c in q]
            elif e["op"] == "change":
                f = fbs[e["i"] - 1]
                f.removeProperties("FREEBUSY")
                for l in e["lines"]:
                    f.addProperty(Property.parseText(str(l)))
                f.finalise()
        ok, r = attempt(step)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        e.pop("lines", None)
        out.append(e)
        if not ok:
            break
    return out
