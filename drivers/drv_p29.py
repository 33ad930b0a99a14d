from base import *
from drv_p15 import s, o
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.timezone import Timezone

ACTS = {
    definitions.eAction_VAlarm_Audio: "AUDIO", definitions.eAction_VAlarm_Display: "DISPLAY", definitions.eAction_VAlarm_Email: "EMAIL",
    definitions.eAction_VAlarm_Procedure: "PROCEDURE", definitions.eAction_VAlarm_URI: "URI", definitions.eAction_VAlarm_None: "NONE",
    definitions.eAction_VAlarm_Unknown: "UNKNOWN",
}
STATUS = {definitions.eAlarm_Status_Pending: "pending", definitions.eAlarm_Status_Completed: "completed", definitions.eAlarm_Status_Disabled: "disabled"}
BASE = 1577836800
CLOCK = [0]


def now():
    d = DateTime(2020, 1, 1, 0, 0, 0, tzid=Timezone(utc=True))
    d.offsetSeconds(CLOCK[0])
    return d


def at(t, tz):
    d = DateTime(2020, 1, 1, 0, 0, 0, tzid=Timezone(utc=True) if tz == "Z" else None)
    d.offsetSeconds(t)
    return d


def secs(d):
    """wall clock seconds since 2020-01-01T00:00:00"""
    import datetime
    t = datetime.datetime(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds()) - datetime.datetime(2020, 1, 1)
    return num(t.days * 86400 + t.seconds)


def txt(x):
    if x is None:       # no text is the empty text
        return []
    return o(x.encode("utf-8") if isinstance(x, unicode) else str(x))


def data(a):
    d = a.getActionData()
    n = type(d).__name__
    if n == "VAlarmAudio":
        return [txt(d.getSpeakText())]
    if n == "VAlarmDisplay":
        return [txt(d.getDescription())]
    if n == "VAlarmEmail":
        return [txt(d.getDescription()), txt(d.getSummary())] + sorted([txt(x) for x in d.getAttendees()])
    if n == "VAlarmURI":
        return [txt(d.getURI())]
    return []


def view(a):
    return {
        "act": ACTS.get(a.getAction(), "?"), "abs": int(bool(a.isTriggerAbsolute())), "on": secs(a.getTriggerOn()) if a.isTriggerAbsolute() else 0,
        "by": num(a.getTriggerDuration().getTotalSeconds()), "start": int(bool(a.isTriggerOnStart())), "rep": num(a.getRepeats()),
        "int": num(a.getInterval().getTotalSeconds()), "data": data(a), "status": STATUS.get(a.getAlarmStatus(), "?"),
    }


def alarm(c):
    q = [k for k in c.getComponents() if k.getType() in ("VEVENT", "VTODO")]
    return q[0].getComponents()[0]


def make(act, d):
    d = [s(x) if x else None for x in d]
    if act == "AUDIO":
        return definitions.eAction_VAlarm_Audio, VAlarm.VAlarmAudio(d[0])
    if act == "DISPLAY":
        return definitions.eAction_VAlarm_Display, VAlarm.VAlarmDisplay(d[0])
    if act == "EMAIL":
        return definitions.eAction_VAlarm_Email, VAlarm.VAlarmEmail(d[0], d[1], d[2:])
    if act == "URI":
        return definitions.eAction_VAlarm_URI, VAlarm.VAlarmURI(d[0])
    return definitions.eAction_VAlarm_None, VAlarm.VAlarmNone()


def run(sess):
    real = DateTime.getNowUTC
    DateTime.getNowUTC = staticmethod(now)
    try:
        return work(sess)
    finally:
        DateTime.getNowUTC = real


def work(sess):
    tz = sess["init"]["tz"]
    CLOCK[0] = 0
    cal = [Calendar.parseText(s(sess["init"]["text"]))]
    out = []
    for e in sess["events"]:
        e = dict(e)
        op = e["op"]
        if op == "pass":
            CLOCK[0] += e["k"]
            out.append(e)
            continue

        def step():
            a = alarm(cal[0])
            if op == "again":
                cal[0] = Calendar.parseText(cal[0].getText())
                a = alarm(cal[0])
            elif op == "triggeron":
                a.editTriggerOn(at(e["on"], "Z"))
                a.changed()
            elif op == "trigger":
                a.editTriggerBy(Duration(duration=e["by"]), bool(e["start"]))
                a.changed()
            elif op == "repeats":
                a.editRepeats(e["rep"], Duration(duration=e["int"]))
                a.changed()
            elif op == "status":
                a.editStatus([k for k, v in STATUS.items() if v == e["status"]][0])
                a.changed()
            elif op == "action":
                a.editAction(*make(e["act"], e["data"]))
                a.changed()
            elif op == "first":
                d = DateTime()
                a.getFirstTrigger(d)
                e["at"] = secs(d)
            elif op == "next":
                d = DateTime()
                a.getNextTrigger(d)
                e["at"] = secs(d)
                e["status"] = STATUS.get(a.getAlarmStatus(), "?")
            elif op == "fire":
                d = DateTime()
                a.getNextTrigger(d)
                e["rung"] = 0
                if a.getAlarmStatus() == definitions.eAlarm_Status_Pending and not d > now():
                    e["rung"] = 1
                    e["more"] = int(bool(a.alarmTriggered(d)))
                    e["at"] = secs(d)
            if op not in ("first", "next"):
                e["view"] = view(a)
                e["again"] = view(alarm(Calendar.parseText(cal[0].getText())))
        ok, r = attempt(step)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
        if not ok:
            break
    return out
