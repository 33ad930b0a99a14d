P="src/pycalendar/"
CAL='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def cal(*comps):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + "".join(comps) + "END:VCALENDAR\\r\\n")
def ev(*lines):
    return "BEGIN:VEVENT\\r\\nDTSTAMP:20200101T000000Z\\r\\n" + "".join([l + "\\r\\n" for l in lines]) + "END:VEVENT\\r\\n"
def D(*a):
    return DateTime(*a)
def q(c, lo, hi, top=True):
    l = []
    c.getVEvents(Period(lo, hi), l, top)
    return [(str(i.getOwner().loadValueString("SUMMARY")), i.getInstanceStart().getText(), i.getInstanceEnd().getText()) for i in l]
'''
S=[
dict(id="p13-clear-type-skips", prop="P13", file=P+"componentbase.py",
 edits=[("            for component in tuple(self.mComponents):\n", "            for component in self.mComponents:\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000"), ev("UID:2", "DTSTART:20200101T100000"), ev("UID:3", "DTSTART:20200101T100000"))
c.removeAllComponent("VEVENT")
assert c.getComponents("VEVENT") == [] and q(c, D(2020, 1, 1, 0, 0, 0), D(2020, 1, 2, 0, 0, 0)) == []
''', needs="two components of the removed type stored next to each other", breaks="removing all components of a type leaves every second one"),
dict(id="p13-rename-override-key", prop="P13", file=P+"icalendar/componentrecur.py",
 edits=[("""        super(ComponentRecur, self).setUID(uid)

        # Update the map key
        if self.mHasRecurrenceID:
            self.mMapKey = self.mapKey(self.mUID, self.mRecurrenceID.getText())
""", """        super(ComponentRecur, self).setUID(uid)

        # Update the map key
        if self.mAdjustFuture or self.mAdjustPrior:
            self.mMapKey = self.mapKey(self.mUID, self.mRecurrenceID.getText())
""")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000", "RRULE:FREQ=DAILY;COUNT=3"), ev("UID:1", "DTSTART:20200102T110000", "RECURRENCE-ID:20200102T100000"))
m, o = c.getComponents()
c.changeUID("1", "2")
assert c.getComponentByKey(o.mapKey("2", "20200102T100000")) is o
assert c.getComponentByKey(o.mapKey("2")) is m
c.removeComponentByKey(o.mapKey("2", "20200102T100000"))
assert c.getComponents() == [m]
''', needs="renaming an event with an override, then looking the override up by its key", breaks="a renamed override is filed under the key of its master"),
dict(id="p14-keeps-wall-clock", prop="P14", file=P+"icalendar/calendar.py",
 edits=[("                newdtstartValue.adjustTimezone(dtstart.getTimezone())\n", "                if newdtstartValue.getTimezoneID():\n                    newdtstartValue.setTimezone(dtstart.getTimezone())\n                else:\n                    newdtstartValue.adjustTimezone(dtstart.getTimezone())\n")],
 demo=CAL+"""
def tz(n, o):
    return "BEGIN:VTIMEZONE\\r\\nTZID:%s\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\nTZOFFSETFROM:%s\\r\\nTZOFFSETTO:%s\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\n" % (n, o, o)
from pycalendar.timezone import Timezone
c = cal(tz("A", "+0100"), tz("B", "+0300"), ev("UID:1", "DTSTART;TZID=A:20200101T100000", "DURATION:PT1H", "RRULE:FREQ=DAILY"))
d = c.deriveComponent(DateTime(2020, 1, 3, 12, 0, 0, Timezone(tzid="B")))
assert d.getStart().getText() == "20200103T100000", d.getStart().getText()
""", needs="a recurrence id given in a timezone other than UTC and other than the master's", breaks="the derived occurrence starts at another instant"),
dict(id="p14-drops-alarm-due", prop="P14", file=P+"icalendar/calendar.py",
 edits=[("        oldduration = dtend - dtstart\n", "        oldduration = dtend - dtstart\n        if oldduration.getTotalSeconds() % 86400 == 0 and not dtstart.isDateOnly():\n            oldduration = Duration(days=1)\n"), ("from pycalendar.datetime import DateTime\n", "from pycalendar.datetime import DateTime\nfrom pycalendar.duration import Duration\n")],
 demo=CAL+"""
c = cal(ev("UID:1", "DTSTART:20200101T100000", "DTEND:20200104T100000", "RRULE:FREQ=WEEKLY"))
d = c.deriveComponent(D(2020, 1, 8, 10, 0, 0))
assert d.getEnd().getText() == "20200111T100000", d.getEnd().getText()
""", needs="a timed event that lasts a whole number of days, more than one", breaks="the derived occurrence is shortened to one day"),
]
