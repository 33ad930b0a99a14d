from base import *
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase


def s(c):
    return "".join([chr(x) for x in c])


def o(t):
    if isinstance(t, unicode):
        t = t.encode("utf-8")
    return [ord(x) for x in t]


def step(e):
    TimezoneDatabase.getTimezoneDatabase().clear()
    d = s(e["data"])
    a = Calendar.parseText(d)
    if e["op"] == "rt":
        t = a.getText()
        e["out"] = o(t)
        b = Calendar.parseText(t)
        fresh = Calendar.parseText(d)
        e["again"] = int(a.getText() == t and str(a) == t)
        u = b.getText()
        e["reread"] = int(u == t)
        c = Calendar.parseText(t)
        pairs = [(a, b), (b, a), (fresh, c), (c, fresh), (a, fresh), (fresh, b), (a, a)]
        e["eq"] = int(all([x == y for x, y in pairs]))
        e["ne"] = int(any([x != y for x, y in pairs]))
    else:
        b = Calendar.parseText(s(e["data2"]))
        e["eq"] = int(a == b)
        if int(b == a) != e["eq"]:
            e["eq"] = 2
        e["ne"] = int(a != b)
        e["out"], e["out2"] = o(a.getText()), o(b.getText())
        if int(a == b) != e["eq"]:
            e["eq"] = 3


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
