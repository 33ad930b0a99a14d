from base import *
s = str
import os
import shutil
import tempfile
from cStringIO import StringIO
from java.io import StringReader
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import InputSource
from pycalendar.datetime import DateTime
from pycalendar.exceptions import NoTimezoneInDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vtimezone import VTimezone
from pycalendar.icalendar.vtimezonestandard import Standard
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase


def off(sec):
    m, r = divmod(sec, 60)
    return num(m) if r == 0 else -2147483647


def defof(tz):
    """a definition is recognised by its offset: number n is n minutes"""
    if tz is None:
        return 0
    c = tz.getComponents()
    return off(c[0].getUTCOffset()) if len(c) == 1 else -2147483647


def tzs(cal):
    return [[z.getID(), defof(z)] for z in cal.getComponents("VTIMEZONE")]


def build(tid, n):
    tz = VTimezone()
    tz.addProperty(Property("TZID", tid))
    sub = Standard(parent=tz)
    for l in sublines(n):
        sub.addProperty(Property.parseText(l))
    sub.finalise()
    tz.addComponent(sub)
    tz.finalise()
    return tz


def offtext(n):
    return "%s%02d%02d" % ("-" if n < 0 else "+", abs(n) // 60, abs(n) % 60)


def sublines(n):
    return ["DTSTART:19700101T000000", "TZNAME:D%d" % n, "TZOFFSETFROM:" + offtext(n), "TZOFFSETTO:" + offtext(n)]


def xmltzs(text):
    fac = DocumentBuilderFactory.newInstance()
    fac.setNamespaceAware(True)
    doc = fac.newDocumentBuilder().parse(InputSource(StringReader(text.decode("utf-8"))))

    def of(z, name):
        return str(z.getElementsByTagNameNS("*", name).item(0).getTextContent()).strip().replace(":", "")
    q = []
    zs = doc.getElementsByTagNameNS("*", "vtimezone")
    for i in range(zs.getLength()):
        t = of(zs.item(i), "tzoffsetto")
        q.append([of(zs.item(i), "tzid"), (int(t[1:3]) * 60 + int(t[3:5])) * (-1 if t[0] == "-" else 1)])
    return q


def texttzs(text):
    """from the written text alone"""
    q, tid, cur = [], None, False
    for l in text.replace("\r\n ", "").split("\r\n"):
        if l == "BEGIN:VTIMEZONE":
            cur, tid = True, None
        elif cur and l.startswith("TZID:"):
            tid = l[5:]
        elif cur and l.startswith("TZOFFSETTO:"):
            t = l[11:]
            q.append([tid, (int(t[1:3]) * 60 + int(t[3:5])) * (-1 if t[0] == "-" else 1)])
    return q


def jsontzs(text):
    import json
    q = []
    for c in json.loads(text)[2]:
        if c[0] == "vtimezone":
            t = [p[3] for p in c[2][0][1] if p[0] == "tzoffsetto"][0].replace(":", "")
            q.append([[p[3] for p in c[1] if p[0] == "tzid"][0].encode("utf-8"), (int(t[1:3]) * 60 + int(t[3:5])) * (-1 if t[0] == "-" else 1)])
    return q


def load(e, top):
    t = s(e["text"]).replace("@", top)
    if e["via"] == "text":
        return Calendar.parseText(t)
    if e["via"] == "comp":
        c = Calendar(add_defaults=False)
        c.parseComponent(StringIO(t))
        # the first component only is the result, all of them are read
        return c
    if e["via"] == "multi":
        return Calendar.parseData(t)
    return Calendar.parseData(s(e["json"]).replace("@", top), format=Calendar.sFormatJSON)


def run(sess):
    top = tempfile.mkdtemp(prefix="p23")
    try:
        return run1(sess, top)
    finally:
        TimezoneDatabase.getTimezoneDatabase().setPath(None)
        TimezoneDatabase.getTimezoneDatabase().clear()
        shutil.rmtree(top)


def run1(sess, top):
    for name, text in sess["init"]["files"]:
        p = os.path.join(top, s(name))
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        f = open(p, "w")
        f.write(s(text).replace("@", top))
        f.close()
    TimezoneDatabase.createTimezoneDatabase(s(sess["init"]["dbpath"]).replace("@", top) if sess["init"]["dir"] else None)
    db = TimezoneDatabase.getTimezoneDatabase()
    cals, out = {}, []
    for e in sess["events"]:
        e = dict(e)
        tid = s(e["id"]).replace("@", top) if "id" in e else None

        def step():
            op = e["op"]
            if op == "load":
                c = cals[e["c"]] = load(e, top)
                e["res"] = tzs(c)
                e["offs"] = []
                for ev in c.getComponents("VEVENT"):
                    d = ev.getStart()
                    if d.getTimezoneID():
                        u = DateTime(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(), tzid=Timezone(utc=True))
                        e["offs"].append([d.getTimezoneID(), off(u.getPosixTime() - d.getPosixTime())])
            elif op == "badload":
                load(e, top)
            elif op == "add":
                tz = build(tid, e["def"])
                db.addTimezone(tz)
                edit(tz, 777)
            elif op == "cache":
                try:
                    db.cacheTimezone(tid)
                except NoTimezoneInDatabase, x:
                    x.mTZID == tid or fail()
                    raise
            elif op == "clear":
                for name, text in e["files"]:
                    p = os.path.join(top, s(name))
                    if text == "":
                        os.remove(p)
                    else:
                        with open(p, "w") as f:
                            f.write(s(text))
                TimezoneDatabase.clearTimezoneDatabase()
            elif op == "lookup":
                tz = TimezoneDatabase.getTimezone(tid)
                e["res"] = defof(tz)
                if tz is not None and tz.getID() != tid:
                    e["res"] = -2147483646
            elif op == "off":
                e["res"] = off(TimezoneDatabase.getTimezoneOffsetSeconds(tid, DateTime(e["y"], 3, 4, 5, 6, 7), e["rel"] == 1))
            elif op == "desc":
                t = TimezoneDatabase.getTimezoneDescriptor(tid, DateTime(e["y"], 3, 4, 5, 6, 7))
                e["res"] = 0 if t == "" else num(int(t[2:-1]))
            elif op == "incal":
                c = TimezoneDatabase.getTimezoneInCalendar(tid)
                e["res"] = 0
                if c is not None:
                    t = texttzs(c.getText())
                    e["res"] = t[0][1] if len(t) == 1 and t[0][0] == tid and tzs(c) == t else -2147483646
                    edit(c.getComponents("VTIMEZONE")[0], 778)
            elif op == "std":
                e["res"] = 1 if TimezoneDatabase.isStandardTimezone(tid) else 0
            elif op == "edit":
                edit(cals[e["c"]].getComponents("VTIMEZONE")[e["i"] - 1], e["def"])
            elif op == "strip":
                e["changed"] = 1 if cals[e["c"]].stripStandardTimezones() else 0
                e["res"] = tzs(cals[e["c"]])
            elif op == "complete":
                c = cals[e["c"]]
                mode = None if e["default"] else e["mode"]
                if e["how"] == "call":
                    c.includeMissingTimezones(includeTimezones=mode)
                elif e["how"] == "text":
                    e["out"] = texttzs(c.getText(includeTimezones=mode))
                elif e["how"] == "json":
                    e["out"] = jsontzs(c.getText(includeTimezones=mode, format=Calendar.sFormatJSON))
                elif e["how"] == "xml":
                    e["out"] = xmltzs(c.getTextXML(includeTimezones=mode))
                elif e["how"] == "str":
                    e["out"] = texttzs(str(c))
                e["res"] = tzs(c)
            elif op == "sort":
                q = cals[e["c"]].getComponents("VTIMEZONE")
                q.sort(VTimezone.sortByUTCOffsetComparator)
                e["res"] = [[z.getID(), defof(z)] for z in q]
        ok, x = attempt(step)
        e["ok"] = 1 if ok else 0
        e["exc"] = "" if ok else x
        for k in ("res", "out", "offs"):
            if isinstance(e.get(k), list):
                e[k] = [[str(x[0]).replace(top, "@"), x[1]] for x in e[k]]
        out.append(e)
    return out


def fail():
    raise HarnessError("exception without the id")


def edit(tz, n):
    sub = tz.getComponents()[0]
    sub.removeProperties("TZOFFSETTO")
    sub.addProperty(Property.parseText("TZOFFSETTO:" + offtext(n)))
    sub.finalise()
