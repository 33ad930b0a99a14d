P="src/pycalendar/"
CAL='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def cal(*comps):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + "".join(comps) + "END:VCALENDAR\\r\\n")
def ev(*lines):
    return "BEGIN:VEVENT\\r\\nDTSTAMP:20200101T000000Z\\r\\n" + "".join([l + "\\r\\n" for l in lines]) + "END:VEVENT\\r\\n"
def D(*a):
    return DateTime(*a)
def q(c, lo, hi, top=True):
    l = []
    c.getVEvents(Period(lo, hi), l, top)
    return [(str(i.getOwner().loadValueString("SUMMARY")), i.getInstanceStart().getText(), i.getInstanceEnd().getText()) for i in l]
'''
S=[
dict(id="p11-override-in-range", prop="P11", file=P+"icalendar/componentrecur.py",
 edits=[("                recurs.sort()\n", "                recurs = sorted([r for r in recurs if period.isDateWithinPeriod(r)])\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "SUMMARY:m", "DTSTART:20200101T230000", "DURATION:PT3H", "RRULE:FREQ=DAILY;COUNT=5"),
        ev("UID:1", "SUMMARY:o", "DTSTART:20200110T230000", "RECURRENCE-ID:20200102T230000"))
assert q(c, D(2020, 1, 3, 0, 0, 0), D(2020, 1, 3, 12, 0, 0)) == [], q(c, D(2020, 1, 3, 0, 0, 0), D(2020, 1, 3, 12, 0, 0))
''', needs="an overridden instance that starts before the range and lasts into it", breaks="the master's instance is listed besides its override"),
dict(id="p11-touching-end", prop="P11", file=P+"icalendar/componentrecur.py",
 edits=[("            if self.mEnd <= period.getStart() or self.mStart >= period.getEnd():", "            if self.mEnd < period.getStart() or self.mStart >= period.getEnd() or (self.mEnd == period.getStart() and not self.mStart.isDateOnly()):")],
 demo=CAL+'''
c = cal(ev("UID:1", "SUMMARY:a", "DTSTART;VALUE=DATE:20200101", "DTEND;VALUE=DATE:20200103"))
assert q(c, D(2020, 1, 3, 0, 0, 0), D(2020, 1, 4, 0, 0, 0)) == []
assert len(q(c, D(2020, 1, 2, 0, 0, 0), D(2020, 1, 4, 0, 0, 0))) == 1
''', needs="an all-day event ending where the range starts", breaks="an event that does not overlap the range is listed"),
]
S += [
dict(id="p12-left-due", prop="P12", file=P+"icalendar/componentrecur.py",
 edits=[('''        self.mEnd = start + duration
        self.mDuration = True

        # Remove existing DTSTART & DTEND & DURATION & DUE items
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
        self.removeProperties(definitions.cICalProperty_DURATION)
        self.removeProperties(definitions.cICalProperty_DUE)
''','''        self.mEnd = start + duration
        self.mDuration = True

        # Remove existing DTSTART & DTEND & DURATION items
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
        self.removeProperties(definitions.cICalProperty_DURATION)
''')],
 demo=CAL+'''
from pycalendar.duration import Duration
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VTODO\\r\\nUID:1\\r\\nDTSTART:20200101T100000\\r\\nDUE:20200101T110000\\r\\nEND:VTODO\\r\\nEND:VCALENDAR\\r\\n")
t = c.getComponents()[0]
t.editTimingStartDuration(D(2020, 2, 1, 10, 0, 0), Duration(hours=2))
u = Calendar.parseText(c.getText()).getComponents()[0]
assert u.getEnd() == D(2020, 2, 1, 12, 0, 0), u.getEnd().getText()
''', needs="a to-do with a due time re-timed by start and duration, then written and read back", breaks="the old due time wins over the new timing"),
dict(id="p12-cut-keeps-rdate", prop="P12", file=P+"icalendar/componentrecur.py",
 edits=[('''        # Remove existing RRULE & RDATE
        self.removeProperties(definitions.cICalProperty_RRULE)
        self.removeProperties(definitions.cICalProperty_RDATE)
''','''        # Remove existing RRULE & RDATE
        self.removeProperties(definitions.cICalProperty_RRULE)
        if len(self.mRecurrences.getDates()) != 0:
            self.removeProperties(definitions.cICalProperty_RDATE)
''')],
 demo=CAL+'''
c = cal(ev("UID:1", "SUMMARY:m", "DTSTART:20200101T100000", "DURATION:PT1H", "RRULE:FREQ=DAILY;COUNT=5", "RDATE:20200301T100000"))
c.getComponents()[0].excludeFutureRecurrence(D(2020, 1, 4, 10, 0, 0))
r = Calendar.parseText(c.getText())
assert len(q(c, D(2020, 1, 1, 0, 0, 0), D(2021, 1, 1, 0, 0, 0))) == 3
assert len(q(r, D(2020, 1, 1, 0, 0, 0), D(2021, 1, 1, 0, 0, 0))) == 3, q(r, D(2020, 1, 1, 0, 0, 0), D(2021, 1, 1, 0, 0, 0))
''', needs="cutting a recurrence before all of its RDATEs, then writing and reading back", breaks="removed RDATEs come back"),
]
