from base import *
import re
from pycalendar.datetime import DateTime
from pycalendar.exceptions import ValidationError
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.componentexpanded import ComponentExpanded
from pycalendar.icalendar.property import Property
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty

INTS = ("PRIORITY", "PERCENT-COMPLETE", "REPEAT", "SEQUENCE")
TIMES = ("COMPLETED", "CREATED", "DTSTAMP", "LAST-MODIFIED", "ACKNOWLEDGED", "DTSTART")
ACTIONS = ("AUDIO", "DISPLAY", "EMAIL", "URI", "NONE")


def prop(line):
    """what the rules look at, from the written line alone"""
    i = line.index(":")
    while line[:i].count('"') % 2:
        i = line.index(":", i + 1)
    head, value = line[:i], line[i + 1:]
    ps = head.split(";")
    name = ps[0].upper().split(".")[-1]
    pars = dict([(p.split("=", 1)[0].upper(), p.split("=", 1)[1]) for p in ps[1:]])
    vt = pars.get("VALUE", "").upper()
    kind = "int" if vt == "INTEGER" or vt == "" and name in INTS else "dt" if vt in ("DATE", "DATE-TIME") or vt == "" and name in TIMES else "text" if vt in ("", "TEXT") else "other"
    x = {"n": name, "k": kind, "i": 0, "utc": 0, "s": "", "ud": 0, "ut": 0, "uz": 0, "line": line}
    if kind == "int":
        x["i"] = num(int(value))
    elif kind == "dt":
        x["utc"] = 1 if value.endswith("Z") else 0
        if name == "DTSTART":
            x["ut"] = -1
            if "T" in value:
                h = int(value[9:11])
                if "TZID" in pars:
                    h = (h - 2) % 24
                x["ut"] = h * 10000 + int(value[11:15])
    elif kind == "text":
        x["s"] = value.lower()
    if name == "RRULE":
        q = []
        for r in value.split(";"):
            if r.startswith("UNTIL="):
                x["ud"] = int(r[6:14])
                x["ut"] = int(r[15:21]) if r[14:15] == "T" else -1
                x["uz"] = 1 if r.endswith("Z") else 0
            else:
                q.append(r)
        x["line"] = head + ":" + ";".join(sorted(q))
    return x


def tree(text):
    st = [{"c": []}]
    for l in text.replace("\r\n ", "").split("\r\n"):
        if l.startswith("BEGIN:"):
            st.append({"t": l[6:].upper(), "a": "", "p": [], "c": []})
        elif l.startswith("END:"):
            n = st.pop()
            if n["t"] == "VALARM":
                a = [x["s"] for x in n["p"] if x["n"] == "ACTION"]
                n["a"] = a[0] if a and a[0].upper() in ACTIONS else "unknown" if a else "display"
            st[-1]["c"].append(n)
        elif l:
            st[-1]["p"].append(prop(l))
    return st[0]["c"][0]


def names(msg):
    m = re.match(r"^\[([^\]]+)\] (.*)$", msg)
    if not m:
        return ["?", msg]
    return [m.group(1).upper(), ",".join(sorted(re.findall(r"\b[A-Z][A-Z0-9-]*\b", m.group(2))))]


def dt(d):
    return None if d is None else (d.getText(), d.getTimezoneID())


def shows(cal):
    """what an object answers about itself, apart from its text"""
    q = []
    for c in cal.getComponents():
        r = [c.getType()]
        for f in ("getStart", "getEnd", "getDuration", "getSummary", "getUID", "isRecurring", "useDuration", "hasEnd", "getStatus", "recurring", "getMapKey"):
            if f == "getMapKey" and c.getType() not in ("VEVENT", "VTODO", "VJOURNAL"):
                continue
            if hasattr(c, f) and f != "getUID":
                ok, x = attempt(getattr(c, f))
                if hasattr(x, "getTimezoneID"):
                    x = dt(x)
                elif hasattr(x, "getText"):
                    x = x.getText()
                r.append((f, ok, x))
        for a in c.getComponents("VALARM"):
            d = a.getActionData()
            r.append((a.getAction(), d.getType(), getattr(d, "mDescription", None) or "", getattr(d, "mSummary", None) or ""))
        q.append(repr(r))
    q.sort()
    if not [c for c in cal.getComponents("VEVENT") if not c.hasProperty("DTSTART")]:
        ex = []
        ok, x = attempt(cal.getVEvents, Period(DateTime(2019, 12, 1, 0, 0, 0, tzid=Timezone(utc=True)), DateTime(2020, 4, 1, 0, 0, 0, tzid=Timezone(utc=True))), ex)
        q.append(repr((ok, x if not ok else sorted([(dt(i.getInstanceStart()), dt(i.getInstanceEnd())) for i in ex]))))
    return q


def run(sess):
    TimezoneDatabase.getTimezoneDatabase().clear()
    card = sess["init"]["card"]
    kind = Card if card else Calendar
    st = {}
    out = []
    for e in sess["events"]:
        e = dict(e)

        def text():
            return st["o"].getText() if card else st["o"].getText(includeTimezones=Calendar.NO_TIMEZONES)

        def step():
            if e["op"] == "load":
                o = st["o"] = kind.parseText(str(e["text"]))
                for l in e["drop"]:
                    o.removeProperties(str(l))
                for l in e["add"]:
                    o.addProperty((CardProperty if card else Property).parseText(str(l)))
                e["tree"] = tree(text())
            elif e["op"] == "validate":
                o = st["o"]
                c = o if e["sub"] == 0 else o.getComponents()[e["sub"] - 1]

                def again():
                    return shows(Calendar.parseText(o.getText()))
                t0 = o.getText()
                was = None if card else shows(o)
                fresh = None if card else attempt(again)
                try:
                    f, u = c.validate(e["fix"] == 1, e["raise"] == 1) if e["sub"] == 0 else c.validate(e["fix"] == 1)
                    e["raised"] = 0
                except ValidationError, x:
                    f, u = [], x.mReason.split(";")
                    e["raised"] = 1
                e["fixed"] = [names(m) for m in f]
                e["unfixed"] = [names(m) for m in u]
                e["tree"] = tree(text())
                e["same"] = 1
                if not card:
                    now = shows(o)
                    if o.getText() == t0:
                        if now != was:
                            e["same"] = 0
                            e["was"] = [x for x in zip(now, was) if x[0] != x[1]][:1]
                    elif fresh == (True, was):
                        ok, x = attempt(again)
                        if ok and x != now:
                            e["same"] = 0
                            e["was"] = [y for y in zip(now, x) if y[0] != y[1]][:1]
        ok, x = attempt(step)
        e["ok"] = 1 if ok else 0
        e["exc"] = "" if ok else x
        out.append(e)
    return out
