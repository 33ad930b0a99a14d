I="src/pycalendar/icalendar/"
B="src/pycalendar/"
C='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
def cal(*lines):
    return Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x") + lines + ("END:VCALENDAR", "")))
TODO = ("BEGIN:VTODO", "UID:1", "DTSTAMP:20240101T000000Z")
'''
S=[
dict(id="p30-reopen", prop="P30", file=I+"vtodo.py",
 edits=[("            self.removeProperties(definitions.cICalProperty_STATUS)\n            self.removeProperties(definitions.cICalProperty_COMPLETED)\n            self.mHasCompleted = False\n","            self.removeProperties(definitions.cICalProperty_STATUS)\n            self.removeProperties(definitions.cICalProperty_COMPLETED)\n            self.mHasCompleted = self.mHasCompleted and status == definitions.eStatus_VToDo_InProcess\n")],
 demo=C+'''
t = cal(*(TODO + ("STATUS:COMPLETED", "COMPLETED:20240101T000000Z", "END:VTODO"))).getComponents("VTODO")[0]
t.editStatus(definitions.eStatus_VToDo_InProcess)
assert not t.hasCompleted()
''', needs="a completed to-do that is set back to in process", breaks="the to-do still says it has a completion time"),
dict(id="p30-completed-zone", prop="P30", file=I+"vtodo.py",
 edits=[("        self.mCompleted.adjustToUTC()\n","        if self.mCompleted.floating():\n            self.mCompleted.setTimezoneUTC(True)\n")],
 demo=C+'''
c = cal("BEGIN:VTIMEZONE", "TZID:A/B", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD", "END:VTIMEZONE", *(TODO + ("END:VTODO",)))
t = c.getComponents("VTODO")[0]
t.editCompleted(DateTime(2024, 1, 1, 9, 0, 0, tzid=Timezone(tzid="A/B")))
assert "COMPLETED:20240101T140000Z" in t.getText(), t.getText()
''', needs="a completion time given in a named zone", breaks="COMPLETED is not in UTC"),
dict(id="p30-due-today", prop="P30", file=I+"vtodo.py",
 edits=[("                if self.getEnd() > today:\n                    return VToDo.DUE_LATER\n","                if self.getEnd().compareDate(today) >= 0 and self.getEnd() != today:\n                    return VToDo.DUE_LATER\n")],
 demo='''
pass
''', needs="x", breaks="x"),
dict(id="p30-dup-completed", prop="P22", file=I+"vtodo.py",
 edits=[("        other.mCompleted = self.mCompleted.duplicate()\n","        other.mCompleted = self.mCompleted\n")],
 demo=C+'''
t = cal(*(TODO + ("STATUS:CANCELLED", "COMPLETED:20240101T000000Z", "END:VTODO"))).getComponents("VTODO")[0]
d = t.duplicate()
d.editStatus(definitions.eStatus_VToDo_Completed)
assert t.getCompleted().getText() == "20240101T000000Z", t.getCompleted().getText()
''', needs="a duplicated to-do whose status is then set to completed", breaks="the completion time of the original changes"),
dict(id="p07-53rd-weekday", prop="P07", file=I+"recurrence.py",
 edits=[("                    for i in range(1, 54):\n","                    for i in range(1, 53):\n")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
r = Recurrence()
r.parse("FREQ=YEARLY;BYDAY=MO")
out = []
r.expand(DateTime(2018, 1, 1, 9, 0, 0), Period(DateTime(2018, 1, 1, 0, 0, 0), DateTime(2019, 1, 1, 0, 0, 0)), out)
assert len(out) == 53, len(out)
''', needs="a yearly rule for a weekday that occurs 53 times in the year", breaks="the last one is missing"),
dict(id="p18-bysecond-list", prop="P18", file=I+"recurrence.py",
 edits=[("                \"bysecond\", \"byminute\", \"byhour\",\n","                \"byminute\", \"byhour\",\n")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence()
r.parse("FREQ=DAILY;BYSECOND=10,20")
j = []
r.writeJSON(j)
s = Recurrence()
try:
    s.parseJSON(j[0])
except Exception as e:
    raise AssertionError(e)
assert s.getText() == r.getText(), s.getText()
''', needs="a rule with two seconds read from JSON", breaks="the rule cannot be read back"),
dict(id="p02-sub-float", prop="P02", file=B+"datetime.py",
 edits=[("                    copy1.setTimezoneID(copy2.getTimezoneID())\n                    copy1.setTimezoneUTC(copy2.getTimezoneUTC())\n                    return copy1 - copy2\n                else:","                    copy1.setTimezoneUTC(True)\n                    return copy1 - copy2\n                else:")],
 demo=C+'''
c = cal("BEGIN:VTIMEZONE", "TZID:A/B", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD", "END:VTIMEZONE")
a = DateTime(2024, 1, 1, 12, 0, 0)
b = DateTime(2024, 1, 1, 9, 0, 0, tzid=Timezone(tzid="A/B"))
assert (a - b).getTotalSeconds() == 3 * 3600, (a - b).getTotalSeconds()
''', needs="the difference of a floating time and one in a named zone", breaks="the difference is off by the zone's offset"),
dict(id="p02-copyfrom-cache", prop="P02", file=B+"datetime.py",
 edits=[("        self.mTZOffset = other.mTZOffset\n\n        self.changed()\n","        self.mTZOffset = other.mTZOffset\n")],
 demo='''
from pycalendar.datetime import DateTime
a = DateTime(2024, 1, 31, 12, 0, 0)
a.getPosixTime()
b = DateTime(2024, 3, 1, 12, 0, 0)
a._copyFrom(b)
assert a.getPosixTime() == b.getPosixTime()
''', needs="x", breaks="x"),
dict(id="p12-edit-rset-exrule", prop="P12", file=I+"componentrecur.py",
 edits=[("        self.removeProperties(definitions.cICalProperty_RRULE)\n        self.removeProperties(definitions.cICalProperty_EXRULE)\n        self.removeProperties(definitions.cICalProperty_RDATE)\n","        self.removeProperties(definitions.cICalProperty_RRULE)\n        if self.mRecurrences.getExrules():\n            self.removeProperties(definitions.cICalProperty_EXRULE)\n        self.removeProperties(definitions.cICalProperty_RDATE)\n")],
 demo=C+'''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.recurrence import Recurrence
e = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T090000Z", "DTEND:20240101T100000Z", "RRULE:FREQ=DAILY;COUNT=4", "EXRULE:FREQ=DAILY;INTERVAL=2;COUNT=2", "END:VEVENT").getComponents("VEVENT")[0]
s = RecurrenceSet()
r = Recurrence()
r.parse("FREQ=DAILY;COUNT=2")
s.addRule(r)
e.editRecurrenceSet(s)
assert "EXRULE" not in e.getText(), e.getText()
''', needs="an event with an EXRULE given a recurrence set that has none", breaks="the old EXRULE stays in the text"),
dict(id="p12-one-day-duration", prop="P12", file=I+"componentrecur.py",
 edits=[("            not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)","            not start.isDateOnly() or (duration.getDays() > 1)")],
 demo="pass", needs="x", breaks="x"),
dict(id="p13-remove-case", prop="P13", file=B+"componentbase.py",
 edits=[("            for component in tuple(self.mComponents):\n                if component.getType().upper() == compname:\n","            for component in self.mComponents:\n                if component.getType().upper() == compname:\n")],
 demo=C+'''
c = cal("BEGIN:VEVENT", "UID:1", "END:VEVENT", "BEGIN:VEVENT", "UID:2", "END:VEVENT", "BEGIN:VEVENT", "UID:3", "END:VEVENT")
c.removeAllComponent("VEVENT")
assert c.countComponents("VEVENT") == 0
''', needs="several components of a type removed together", breaks="some of them stay"),
dict(id="p10-equal-dates-zone", prop="P10", file=I+"recurrenceset.py",
 edits=[("        dt1.sort(key=lambda x: x.getPosixTime())\n        dt2.sort(key=lambda x: x.getPosixTime())\n","        dt1.sort(key=lambda x: x.getDay())\n        dt2.sort(key=lambda x: x.getDay())\n")],
 demo='''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.datetime import DateTime
a = RecurrenceSet()
b = RecurrenceSet()
x = DateTime(2024, 1, 5, 9, 0, 0)
y = DateTime(2024, 2, 5, 9, 0, 0)
for d in (x, y):
    a.addDT(d.duplicate())
for d in (y, x):
    b.addDT(d.duplicate())
assert a == b
''', needs="the same dates, on one day of different months, added in another order", breaks="the sets are not equal"),
dict(id="p23-include-own", prop="P23", file=I+"calendar.py",
 edits=[("            tz = self.getTimezone(tzid)\n            if tz is None:\n                # Find it in the static object\n                tz = TimezoneDatabase.getTimezone(tzid)\n","            tz = self.getTimezone(tzid)\n            if tz is None or tz.getID() != tzid or not tz.mComponents:\n                # Find it in the static object\n                tz = TimezoneDatabase.getTimezone(tzid)\n")],
 demo="pass", needs="x", breaks="x"),
dict(id="p24-free-status", prop="P24", file=I+"calendar.py",
 edits=[("            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:\n","            if transp == definitions.cICalProperty_TRANSPARENT:\n")],
 demo="pass", needs="x", breaks="x"),
]
S = [s for s in S if s["needs"] != "x"]
