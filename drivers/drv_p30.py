from base import *
import time
from drv_p15 import s, o
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

BASE = 1577836800
CLOCK = [0]
NAMES = ("STATUS", "COMPLETED", "SUMMARY", "DESCRIPTION", "LOCATION")
TYPES = ("VEVENT", "VTODO", "VJOURNAL")
HEADS = ("Cancelled", "Completed", "Not Completed", "Overdue", "Due today", "Due")


def txt(x):
    if x is None or x == "":
        return []
    return [o(x)]


def at(t, tz):
    d = DateTime(2020, 1, 1, 0, 0, 0, tzid=Timezone(utc=True) if tz == "Z" else Timezone(tzid=str(tz)))
    d.offsetSeconds(t if tz == "Z" else t - 18000)
    return d


def secs(d):
    return num(d.getPosixTime() - BASE) if d.getTimezoneUTC() and not d.isDateOnly() else -2147483647


def items(cal):
    r = dict([(str(c.getUID()), c) for c in cal.getComponents() if c.getType() in TYPES])
    return [r[k] for k in sorted(r)]


def written(t):
    """per item the number of lines of each name, those of the calendar, and all the other lines"""
    ls = t.replace("\r\n", "\n").replace("\n ", "").split("\n")
    stack, cur, res, rest, top = [], None, {}, [], {"X-WR-CALNAME": 0, "X-WR-CALDESC": 0}
    for l in ls:
        n = l.replace(";", ":").split(":")[0].upper()
        if n == "BEGIN":
            stack.append(l)
            if len(stack) == 2:
                cur = [None, dict([(k, 0) for k in NAMES])]
        if n == "END":
            stack.pop()
        if len(stack) == 1 and n in top:
            top[n] += 1
        elif len(stack) == 2 and n in NAMES and stack[1][6:] in TYPES:
            cur[1][n] += 1
        else:
            rest.append("/".join(stack) + "/" + l)
        if len(stack) == 2 and n == "UID":
            res[l[4:]] = cur[1]
    return [res[k] for k in sorted(res)], top, sorted(rest)


def view(cal, n=None):
    v = []
    for i, c in enumerate(items(cal)):
        r = {"status": 0, "done": [], "sum": txt(c.getSummary()), "desc": txt(c.getDescription()), "loc": txt(c.getLocation())}
        if c.getType() != "VJOURNAL":
            r["status"] = num(c.getStatus())
        if c.getType() == "VTODO" and c.hasCompleted():
            r["done"] = [secs(c.getCompleted())]
        r["n"] = n[0][i] if n else {}
        v.append(r)
    return {"items": v, "name": txt(cal.getName()), "cdesc": txt(cal.getDescription()),
            "nname": n[1]["X-WR-CALNAME"] if n else 0, "ncdesc": n[1]["X-WR-CALDESC"] if n else 0}


def sign(x):
    return (x > 0) - (x < 0)


def run(sess):
    real = time.time, time.localtime, time.gmtime
    fix = lambda x=None: real[2](BASE + CLOCK[0] if x is None else x)
    # Jython's time module is a class
    time.time, time.localtime, time.gmtime = staticmethod(lambda: float(BASE + CLOCK[0])), staticmethod(fix), staticmethod(fix)
    try:
        return work(sess)
    finally:
        time.time, time.localtime, time.gmtime = real


def work(sess):
    CLOCK[0] = sess["init"]["now"]
    TimezoneDatabase.getTimezoneDatabase().clear()
    cal = [Calendar.parseText(s(sess["init"]["text"]))]
    rest = written(cal[0].getText())[2]
    out = []
    for e in sess["events"]:
        e = dict(e)
        op = e["op"]

        def step():
            q = items(cal[0])
            c = q[e["i"] - 1] if "i" in e else None
            if op == "pass":
                CLOCK[0] += e["k"]
                return
            elif op == "status":
                c.editStatus(e["status"])
            elif op == "done":
                c.editCompleted(at(e["at"], e["tz"]))
            elif op == "summary":
                c.editSummary(s(e["x"]))
            elif op == "details":
                c.editDetails(s(e["x"]), s(e["y"]))
            elif op == "name":
                cal[0].editName(s(e["x"]))
            elif op == "cdesc":
                cal[0].editDescription(s(e["x"]))
            elif op == "text":
                cal[0] = Calendar.parseText(cal[0].getText())
            elif op == "json":
                cal[0] = Calendar.parseJSONData(cal[0].getTextJSON())
            elif op == "dup":
                cal[0] = cal[0].duplicate()
            elif op == "state":
                e["state"], e["head"], e["day"] = [], [], []
                for c in q:
                    r = [0, "", 0]
                    if c.getType() == "VTODO":
                        t = str(c.getStatusText())
                        r[0] = num(c.getCompletionState())
                        r[1] = t.split(":")[0]
                        if r[1] == "Completed" and ": " in t:
                            m, d, y = [int(x) for x in t.split(": ")[1].split("/")]
                            r[2] = num((DateTime(y, m, d, 0, 0, 0, tzid=Timezone(utc=True)).getPosixTime() - BASE) / 86400)
                    e["state"].append(r[0])
                    e["head"].append(r[1])
                    e["day"].append(r[2])
                return
            elif op == "order":
                e["order"] = [[sign(VToDo.sort_for_display(a, b)) if a.getType() == b.getType() == "VTODO" else 0 for b in q] for a in q]
                return
            t = cal[0].getText()
            w = written(t)
            e["view"] = view(cal[0], w)
            e["again"] = view(Calendar.parseText(t))
            e["same"] = int(w[2] == rest)
        ok, r = attempt(step)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
        if not ok:
            break
    return out
