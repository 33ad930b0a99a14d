from base import *
from drv_p15 import s, o
import hashlib
import os
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar import definitions
from pycalendar.parameter import Parameter
from pycalendar.period import Period
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty

START = DateTime(2020, 1, 6, 9, 0, 0)
RANGE = Period(DateTime(2019, 1, 1, 0, 0, 0), DateTime(2021, 1, 1, 0, 0, 0))


def dig(t):
    h = hashlib.md5(t).hexdigest() + ":" + str(len(t))
    if os.environ.get("VDEBUG"):        # keeps what was shown, to look at differences
        open(os.path.join(os.environ["VDEBUG"], h), "w").write(t)
    return h


def ans(f, *a):
    ok, r = attempt(f, *a)
    if not ok:
        return r
    if isinstance(r, unicode):
        return r.encode("utf-8")
    return str(r)


def dts(q):
    return ",".join([x.getText() if hasattr(x, "getText") else str(x) for x in q])


# --- making objects
def fresh(kind, data):
    TimezoneDatabase.getTimezoneDatabase().clear()
    if kind == "cal":
        return Calendar.parseText(data)
    if kind == "card":
        return Card.parseText(data)
    if kind == "prop":
        return Property.parseText(data)
    if kind == "vprop":
        return VProperty.parseText(data)
    if kind in ("comp", "alarm"):
        n, d = data.split("|", 1)
        q = allcomps(Calendar.parseText(d))[1:]
        if kind == "alarm":
            q = [c for c in q if c.getType() == "VALARM"]
        return q[int(n) % len(q)]
    if kind == "recur":
        r = Recurrence()
        r.parse(data)
        return r
    if kind == "rset":
        s_ = RecurrenceSet()
        for l in data.split("|"):
            k, v = l.split(":", 1)
            if k in ("R", "E"):
                r = Recurrence()
                r.parse(v)
                s_.addRule(r) if k == "R" else s_.subtractRule(r)
            elif k in ("RD", "ED"):
                d = DateTime.parseText(v)
                s_.addDT(d) if k == "RD" else s_.subtractDT(d)
            else:
                s_.addPeriod(Period.parseText(v))
        return s_
    if kind == "dt":
        return DateTime.parseText(data)
    if kind == "dur":
        return Duration.parseText(data)
    if kind == "per":
        return Period.parseText(data)


def copy(kind, x):
    return x.duplicate()


def allcomps(c):
    out = [c]
    for k in c.getComponents():
        out += allcomps(k)
    return out


# --- what an object contains and answers
def text(kind, x):
    if kind == "cal":
        return x.getText(includeTimezones=Calendar.NO_TIMEZONES)
    if kind == "rset":
        return "|".join([r.getText() for r in x.getRules()]) + "/" + "|".join([r.getText() for r in x.getExrules()]) + "/" + dts(x.getDates()) + "/" + dts(x.getExdates()) + "/" + dts(x.getPeriods())
    if kind in ("comp", "alarm"):
        import cStringIO
        os_ = cStringIO.StringIO()
        x.generate(os_)
        return os_.getvalue()
    if kind in ("recur",):
        return x.getText()
    return x.getText()


def expand(x):
    q = []
    x.expand(START, RANGE, q)
    return dts(q[:20])


def compshow(c):
    t = [c.getType(), ans(c.getUID)]
    for n in ("getSeq", "getOriginalSeq", "getChanged", "hasStart", "hasEnd", "useDuration", "isRecurring", "isRecurrenceInstance", "isAdjustFuture", "getSummary", "getStatus", "getPriority",
              "hasCompleted", "hasStamp", "getAction", "isTriggerAbsolute", "isTriggerOnStart", "getRepeats", "getAlarmStatus", "getID", "getUTCOffsetSortKey", "getMapKey" if c.getType() == "VEVENT" else "recurring",
              "getStart", "getEnd", "getRecurrenceID", "getCompleted", "getStamp", "getTriggerOn", "getTriggerDuration", "getInterval"):
        if hasattr(c, n):
            t.append(n + "=" + ans(getattr(c, n)))
    if hasattr(c, "getActionData"):
        a = c.getActionData()
        t.append(type(a).__name__)
        for n in ("getDescription", "getSummary", "getAttendees", "getURI", "getSpeakText"):
            if hasattr(a, n):
                t.append(n + "=" + ans(getattr(a, n)))
    if hasattr(c, "getRecurrenceSet") and hasattr(c, "mRecurrences"):
        rs = c.getRecurrenceSet()
        t.append("rset=" + ("None" if rs is None else ans(text, "rset", rs) + "@" + ans(expand, rs)))
    if c.getType() == "VTIMEZONE":
        t.append("off=" + ",".join([ans(c.getTimezoneOffsetSeconds, DateTime(2020, m, 1, 12, 0, 0)) for m in (1, 7)]) + ans(lambda: [(str(a[0]), str(a[1]), a[2], a[3]) for a in c.expandAll(DateTime(2019, 1, 1), DateTime(2021, 1, 1))]))
    p = c.getParentComponent()
    t.append("parent=" + (p.getType() if p is not None else "-"))
    if hasattr(c, "getMaster") and p is not None:
        m = c.getMaster()
        t.append("master-inside=%d" % (m is None or m is c or m.getParentComponent() is p))
    return ";".join(t)


def evlist(c):
    q = []
    c.getVEvents(RANGE, q)
    return "\n".join(sorted([str(e.getInstanceStart()) + str(e.getInstanceEnd()) + str(e.getOwner().getSummary()) for e in q]))


def insts(c):
    out = []
    for k in c.getComponents():
        q = []
        c.getRecurrenceInstancesIds(k.getType(), k.getUID(), q)
        out.append(dts(q))
    m = c.masterComponent()
    out.append("-" if m is None else str(m.getUID()))
    return "\n".join(out)


def show(kind, x):
    t = [ans(text, kind, x)]
    if kind == "cal":
        t += [ans(x.getTextJSON, Calendar.NO_TIMEZONES), ans(x.getName), ans(x.getDescription), ans(x.getMethod), ans(evlist, x), ans(insts, x)]
        t += [compshow(c) for c in allcomps(x)[1:]]
    elif kind in ("comp", "alarm"):
        p = x.getParentComponent()
        x.setParentComponent(None)
        t += [compshow(c) for c in allcomps(x)]
        x.setParentComponent(p)
    elif kind in ("recur", "rset"):
        t += [ans(expand, x)]
    elif kind == "dt":
        t += [ans(x.getPosixTime), ans(x.getDayOfWeek), ans(x.getXMLText), str(x.isDateOnly())]
    elif kind == "per":
        t += [ans(x.getStart), ans(x.getEnd), ans(x.getDuration), ans(x.isDateWithinPeriod, START)]
    elif kind == "dur":
        t += [ans(x.getTotalSeconds)]
    elif kind in ("prop", "vprop"):
        t += [repr(x), ans(lambda: x.getGroup()), ans(lambda: x.getValue().getType()), ans(lambda: x.getValue().getText())]
    return "\n".join(t)


# --- changes; r is a list of numbers that chooses deterministically
def chval(v, r):
    """"wild": something was changed in place that the object also knows in another form"""
    n = type(v).__name__
    i = v.getValue()
    if n == "MultiValue":
        q = v.getValues()
        if r[3] % 4 == 0:
            q.append(q[0].duplicate())
        elif r[3] % 4 == 1:
            q.pop()
        else:
            return chval(q[r[4] % len(q)], r)
    elif n == "DateTimeValue":
        chdt(i, r)
    elif n == "DurationValue":
        i.setDuration(r[3])
    elif n == "PeriodValue":
        return chper(i, r)
    elif n == "RecurrenceValue":
        chrec(i, r)
    elif n in ("RequestStatusValue", "GeoValue"):
        i[0] = "9.9" if n[0] == "R" else 1.25
    elif n in ("IntegerValue", "UTCOffsetValue"):
        v.setValue(i + 60 * (1 + r[3] % 5))
    elif n == "FloatValue":
        v.setValue(i + 1.0)
    elif n == "NValue":
        i.setFirst("F%d" % r[3])
    elif n == "AdrValue":
        i.setStreet(("S%d" % r[3], "b"))
    elif n == "OrgValue":
        v.setValue(("O", "%d" % r[3]))
    else:
        v.setValue(str(i) + "-%d" % r[3])


def chdt(d, r):
    k = r[3] % 6
    if k == 0:
        d.offsetDay(1 + r[4] % 40)
    elif k == 1:
        d.setYear(2001 + r[4] % 20)
    elif k == 2:
        d.setMonth(1 + r[4] % 12)
    elif k == 3:
        d.setDateOnly(not d.isDateOnly())
    elif k == 4:
        d.setTimezoneID("Local/A" if r[4] % 2 else None) if not d.isDateOnly() else d.offsetMonth(1)
    else:
        d.setHours(r[4] % 24)


def chper(p, r):
    k = r[3] % 5
    if k == 0:
        p.getStart().offsetDay(-1)
        return "wild"
    elif k == 1:
        p.getEnd().offsetDay(1 + r[4] % 3)
        return "wild"
    elif k == 2:
        p.setUseDuration(not p.getUseDuration())
    else:
        p.setDuration(Duration(hours=1 + r[4] % 5))


def chrec(x, r):
    k = r[3] % 8
    if k == 0:
        x.setInterval(1 + r[4] % 4)
    elif k == 1:
        x.setUseCount(True)
        x.setCount(1 + r[4] % 5)
    elif k == 2 and x.getUntil() is not None:
        x.getUntil().offsetDay(5)
        x.clear()
    elif k == 3:
        x.setFreq(definitions.eRecurrence_WEEKLY)
    elif k in (4, 5) and [q for q in (x.getByMonth(), x.getByMonthDay(), x.getByYearDay(), x.getByDay(), x.getBySetPos()) if q]:
        # the lists of the rule changed in place
        qs = [q for q in (x.getByMonth(), x.getByMonthDay(), x.getByYearDay(), x.getByDay(), x.getBySetPos()) if q]
        q = qs[r[4] % len(qs)]
        if k == 5 and len(q) > 1:
            q.pop()
        elif k == 5:
            q[0] = (2, q[0][1]) if isinstance(q[0], tuple) else 2
        else:
            q.append((1, DateTime.FRIDAY) if isinstance(q[0], tuple) else 7)
        x.clear()
    elif k == 6:
        x.setByMonthDay([1 + r[4] % 28])
    elif k == 7:
        x.excludeFutureRecurrence(DateTime(2020, 3, 1, 9, 0, 0))
    else:
        x.setInterval(7)


def chset(x, r):
    k = r[3] % 6
    if k == 0:
        x.addDT(DateTime(2020, 1 + r[4] % 12, 3, 9, 0, 0))
    elif k == 1:
        x.subtractDT(START.duplicate())
    elif k == 2 and x.getRules():
        chrec(x.getRules()[0], [0, 0, 0] + r[4:] + r[4:])
    elif k == 3 and x.getDates():
        x.getDates()[0].offsetDay(2)
    elif k == 4 and x.getRules():
        del x.getRules()[:]
    elif k == 5 and x.getPeriods():
        return chper(x.getPeriods()[0], [0, 0, 0] + r[4:] + r[4:])
    else:
        x.addPeriod(Period(DateTime(2020, 5, 1, 10, 0, 0), duration=Duration(hours=2)))
    x.changed()


def chprop(p, r, cls):
    k = r[2] % 5
    if k == 0:
        p.addParameter(Parameter("X-NEW", "v%d" % r[3]))
    elif k == 1 and [n for n in p.getParameters() if n != "VALUE"]:
        q = sorted([n for n in p.getParameters() if n != "VALUE"])      # VALUE goes when the property is written
        n = q[r[3] % len(q)]
        a = p.getParameters()[n][0]
        [lambda: a.addValue("more"), lambda: a.setValues(["x", "y"]), lambda: a.getValues().append("z"), lambda: p.removeParameters(n)][r[4] % 4]()
    elif k == 2 and cls is VProperty:
        p.setGroup("grp%d" % (r[3] % 3))
    else:
        return chval(p.getValue(), r)


def chcomp(c, r):
    names = sorted(c.getProperties().keys())
    k = r[0] % 16
    t = c.getType()
    if k < 4 and names:
        q = c.getProperties(names[r[1] % len(names)])
        w = chprop(q[r[2] % len(q)], r, Property)
        while c is not None:            # what the components know of their properties
            c.finalise()
            c = c.getParentComponent()
        return w
    elif k == 4 and names:
        c.removeProperties(names[r[1] % len(names)])
    elif k == 5:
        c.addProperty(Property("X-ADDED", "v%d" % r[1]))
    elif k == 6 and c.getComponents():
        q = c.getComponents()
        c.removeComponent(q[r[1] % len(q)])
    elif k == 7 and hasattr(c, "getStart"):
        # the times it gives out
        q = [getattr(c, n)() for n in ("getStart", "getEnd", "getStamp", "getCompleted", "getRecurrenceID") if hasattr(c, n)]
        q = [d for d in q if d is not None]
        q[r[2] % len(q)].offsetDay(1 + r[1] % 5)
        return "wild"
    elif k == 8 and hasattr(c, "editTimingStartEnd"):
        c.editTimingStartEnd(DateTime(2020, 2, 1 + r[1] % 20, 10, 0, 0), DateTime(2020, 2, 21, 11, 0, 0))
    elif k == 9 and hasattr(c, "editSummary"):
        c.editSummary("s%d" % r[1])
    elif k == 10 and hasattr(c, "mRecurrences") and hasattr(c, "getRecurrenceSet") and c.getRecurrenceSet() is not None:
        chset(c.getRecurrenceSet(), r)
        return "wild"
    elif k == 11 and hasattr(c, "setSeq"):
        c.setSeq(r[1] % 9)
        c.setChanged(True)
    elif t == "VALARM":
        j = r[1] % 7
        if j == 0:
            c.editTriggerBy(Duration(minutes=-(r[2] % 50)), r[3] % 2 == 0)
        elif j == 1:
            c.editRepeats(1 + r[2] % 3, Duration(minutes=5))
        elif j == 2:
            c.getTriggerDuration().setDuration(r[2] % 9999)
            return "wild"
        elif j == 3:
            c.getInterval().setDuration(r[2] % 9999)
            return "wild"
        elif j == 4:
            c.getTriggerOn().offsetDay(3)
            return "wild"
        elif j == 5 and hasattr(c.getActionData(), "getAttendees"):
            c.getActionData().getAttendees().append("mailto:new@example.com")
        else:
            c.editStatus(definitions.eAlarm_Status_Completed)
    elif hasattr(c, "editRecurrenceSet") and k == 12:
        rs = RecurrenceSet()
        rr = Recurrence()
        rr.parse("FREQ=DAILY;COUNT=%d" % (1 + r[1] % 6))
        rs.addRule(rr)
        c.editRecurrenceSet(rs)
    elif k == 13 and hasattr(c, "editStatus") and t == "VEVENT":
        c.editStatus(definitions.eStatus_VEvent_Cancelled)
    elif k == 13 and hasattr(c, "editStatus") and t == "VTODO":
        if r[1] % 3 == 0:
            c.editCompleted(DateTime(2020, 2, 1 + r[2] % 20, 10, 0, 0))
        else:
            c.editStatus((definitions.eStatus_VToDo_Completed, definitions.eStatus_VToDo_InProcess)[r[1] % 2])      # now
            return "wild"
    elif k == 14:
        c.finalise()
    elif k == 15 and c.getComponents():
        q = c.getComponents()
        return chcomp(q[r[1] % len(q)], r[1:] + r[:1])
    else:
        c.addProperty(Property("X-OTHER", "v%d" % r[2]))


def chcal(c, r):
    k = r[5] % 9
    q = c.getComponents()
    if k == 0:
        c.setName("n%d" % r[0])
    elif k == 1:
        c.editDescription("d%d" % r[0])
    elif k == 2 and q:
        c.removeComponent(q[r[0] % len(q)])
    elif k == 3:
        c.addComponent(Calendar.parseText("BEGIN:VCALENDAR\nVERSION:2.0\nPRODID:X\nBEGIN:VEVENT\nUID:added-%d\nDTSTAMP:20200101T000000Z\nDTSTART:20200202T100000\nDTEND:20200202T110000\nSUMMARY:added\nEND:VEVENT\nEND:VCALENDAR\n" % r[0]).getComponents()[0])
    elif k == 4 and q and q[0].getUID():
        c.changeUID(q[r[0] % len(q)].getUID(), "changed-%d" % (r[1] % 3))
    elif k == 5 and c.masterComponent() is not None:
        m = c.masterComponent()
        ids = []
        l = []
        if hasattr(m, "getRecurrenceSet") and m.isRecurring():
            m.getRecurrenceSet().expand(m.getStart(), RANGE, l)
            if l:
                d = c.deriveComponent(l[r[0] % len(l)])
                if d is not None:
                    c.addComponent(d)
    elif k == 6:
        c.removeAllComponent("VTODO")
    else:
        a = allcomps(c)
        x = a[r[6] % len(a)]
        w = chcomp(x, r)
        return "wild" if x.getType() in ("VTIMEZONE", "STANDARD", "DAYLIGHT") else w        # what they computed before


def change(kind, x, r):
    if kind == "cal":
        return chcal(x, r)
    elif kind in ("comp", "alarm"):
        w = chcomp(x, r)
        return "wild" if x.getType() in ("VTIMEZONE", "STANDARD", "DAYLIGHT") else w
    elif kind == "card":
        names = sorted(x.getProperties().keys())
        if r[0] % 5 == 0:
            x.addProperty(VProperty(name="NOTE", value="n%d" % r[1]))
        elif r[0] % 5 == 1:
            x.removeProperties(names[r[1] % len(names)])
        else:
            q = x.getProperties(names[r[1] % len(names)])
            return chprop(q[r[2] % len(q)], r, VProperty)
    elif kind in ("prop", "vprop"):
        return chprop(x, r, Property if kind == "prop" else VProperty)
    elif kind == "recur":
        chrec(x, r)
    elif kind == "rset":
        return chset(x, r)
    elif kind == "dt":
        chdt(x, r)
    elif kind == "dur":
        x.setDuration(r[3] * 60)
    elif kind == "per":
        return chper(x, r)
    return "done"


def query(kind, x, r):
    """questions, and changes to what they returned"""
    k = r[0] % 6
    if kind == "cal":
        if k == 0:
            q = []
            x.getVEvents(RANGE, q)
            for e in q:
                e.getInstanceStart().offsetDay(7)
            return "wild"
        if k == 1:
            return insts(x)
        if k == 2:
            return x.validate(doFix=False)
        if k == 3:
            for c in allcomps(x):
                if hasattr(c, "getRecurrenceSet") and hasattr(c, "mRecurrences") and c.getRecurrenceSet() is not None:
                    q = []
                    c.getRecurrenceSet().expand(c.getStart(), RANGE, q)
                    for d in q[:3]:
                        if hasattr(d, "offsetDay"):
                            d.offsetDay(1)
            return "wild"
        if k == 4:
            return x.getText(includeTimezones=Calendar.NO_TIMEZONES) == x.duplicate().getText(includeTimezones=Calendar.NO_TIMEZONES)
        return x == x.duplicate()
    if kind in ("comp", "alarm"):
        if k < 3 and hasattr(x, "getRecurrenceSet") and hasattr(x, "mRecurrences") and x.getRecurrenceSet() is not None:
            return expand(x.getRecurrenceSet())
        return x == x.duplicate()
    if kind in ("recur", "rset"):
        q = []
        x.expand(START, RANGE, q)
        for d in q[:2]:
            if hasattr(d, "offsetDay"):
                d.offsetDay(1)
        return dts(q[:5])
    if kind == "dt":
        x.duplicateAsUTC()
        y = x + Duration(days=1)
        return str(y) + str(x.getPosixTime())
    if kind == "per":
        return str(x.isPeriodOverlap(Period(START.duplicate(), duration=Duration(days=1))))
    return x == x.duplicate()


def apply(kind, x, e):
    if e["op"] == "mut":
        a = ans(change, kind, x, e["r"])
        if a == "wild":
            e["op"] = "wild"
        return dig("m:" + a)
    if e["op"] == "qry":
        a = ans(query, kind, x, e["r"])
        if a == "wild":
            e["op"] = "wild"
        return dig("q:" + a)
    return dig(show(kind, x))


def run(sess):
    kind, data = sess["init"]["kind"], s(sess["init"]["data"])
    out = []
    objs = [fresh(kind, data)]
    lins = [[]]
    codes = {}
    for n, e in enumerate(sess["events"]):
        e = dict(e)
        i = e["o"] - 1
        if e["op"] == "dup":
            def dup():
                x = objs[i]
                y = copy(kind, x)
                e["eq"] = int(x == y and y == x and not (x != y) and type(x) is type(y)) if kind not in ("rset",) else int(x.equals(y) and y.equals(x))
                e["text"] = int(text(kind, x) == text(kind, y))
                if os.environ.get("VDEBUG"):
                    e["text1"], e["text2"] = dig(text(kind, x)), dig(text(kind, y))
                objs.append(y)
            ok, r = attempt(dup)
            e["ok"], e["exc"] = (1, "") if ok else (0, r)
            lins.append(list(lins[i]))
            out.append(e)
            if not ok:
                break
            continue
        e["k"] = n + 1
        codes[n + 1] = e
        lins[i].append(n + 1)
        e["show"] = apply(kind, objs[i], e)
        out.append(e)
        if [k for k in lins[i] if codes[k]["op"] == "wild"]:
            continue
        # the same history on an object that has nothing to do with copies
        x = fresh(kind, data)
        for k in lins[i]:
            last = apply(kind, x, codes[k])
        out.insert(len(out) - 1, {"op": "ref", "lin": list(lins[i]), "show": last})
    return out
