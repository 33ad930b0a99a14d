from base import *
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.exceptions import TooManyInstancesError


def mkrule(txt):
    r = Recurrence()
    r.parse(str(txt))
    return r


def item(dt):
    return [num(dt.getYear()), num(dt.getMonth()), num(dt.getDay()), num(dt.getHours()), num(dt.getMinutes()), num(dt.getSeconds())]


def expand(rule, start, e):
    items = []
    kw = {}
    if e.get("max"):
        kw["maxInstances"] = e["max"]
    ok, r = attempt(rule.expand, start, Period(mkdt(e["lo"]), mkdt(e["hi"])), items, **kw)
    e = dict(e)
    e["ok"] = 1 if ok else (2 if r == "EXC:TooManyInstancesError" else 0)
    if not ok:
        e["exc"] = r
        e["items"], e["kind"], e["limited"] = [], 1, 1
    else:
        e["items"] = [item(i) for i in items]
        e["kind"] = 1 if all([i.isDateOnly() == start.isDateOnly() and tzname(i) == tzname(start) for i in items]) else 0
        e["limited"] = 1 if r else 0
    return e, items
