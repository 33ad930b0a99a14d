P="src/pycalendar/"
CAL='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.exceptions import ErrorBase
def cal(*comps):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + "".join(comps) + "END:VCALENDAR\\r\\n")
def ev(*lines):
    return "BEGIN:VEVENT\\r\\nDTSTAMP:20200101T000000Z\\r\\n" + "".join([l + "\\r\\n" for l in lines]) + "END:VEVENT\\r\\n"
'''
S=[
dict(id="p16-tab-fold", prop="P16", file=P+"utils.py",
 edits=[("            lines[0] = lines[0] + lines[1][1:]\n", "            lines[0] = lines[0] + (lines[1][1:] if lines[1][0] == \" \" else lines[1].lstrip(\"\\t\"))\n")],
 demo=CAL+'''
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nX-A:one\\r\\n\\t\\ttwo\\r\\nEND:VCALENDAR\\r\\n")
assert c.findFirstProperty("X-A").getValue().getValue() == "one\\ttwo"
''', needs="a line folded with a tab right before a tab of the value", breaks="a character of the value is lost on reading"),
dict(id="p23-strip-by-definition", prop="P23", file=P+"timezonedb.py",
 edits=[("            self.tzcache[tzid] = tz\n", "            if tz is not None:\n                self.tzcache[tzid] = tz\n"), ("        return self.tzcache[tzid]\n", "        return self.tzcache.get(tzid) or self.calendar.getTimezone(tzid)\n"), ("        if tzid in self.stdtzcache:\n            return True\n        elif tzid in self.notstdtzcache:\n            return False\n        else:\n            self._getTimezone(tzid)\n            return tzid in self.stdtzcache\n", "        self._getTimezone(tzid)\n        return tzid in self.stdtzcache and tzid in self.tzcache\n"), ("    def mergeTimezone(self, tz):\n        \"\"\"\n        If the supplied VTIMEZONE is not in our cache then store it in memory.\n        \"\"\"\n\n        if self._getTimezone(tz.getID()) is None:\n", "    def mergeTimezone(self, tz):\n        \"\"\"\n        If the supplied VTIMEZONE is not in our cache then store it in memory.\n        \"\"\"\n\n        if tz.getID() not in self.tzcache:\n")],
 demo='''
import tempfile, shutil
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
def vtz(n, o):
    return "BEGIN:VTIMEZONE\\r\\nTZID:%s\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\nTZOFFSETFROM:%s\\r\\nTZOFFSETTO:%s\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\n" % (n, o, o)
def cal(x):
    return "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + x + "END:VCALENDAR\\r\\n"
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, "A.ics"), "w") as f:
        f.write(cal(vtz("A", "+0100")))
    TimezoneDatabase.createTimezoneDatabase(d)
    Calendar.parseText(cal(vtz("A", "+0500")))
    assert "+0100" in TimezoneDatabase.getTimezone("A").getText()
    assert TimezoneDatabase.isStandardTimezone("A")
finally:
    shutil.rmtree(d)
''', needs="loading a calendar that carries its own definition of a standard id before that id was ever looked up", breaks="the supplied definition shadows the standard one"),

dict(id="p16-third-line", prop="P16", file=P+"property.py",
 edits=[("                    lineWrap = 73   # We are now adding a space at the start\n", "                    lineWrap = 73 if start == 0 else 75   # We are now adding a space at the start\n")],
 demo=CAL+'''
t = Property("X-A", "b" * 300).getText()
assert max([len(l) for l in t.split("\\r\\n")]) <= 75
''', needs="a value that takes four physical lines or more", breaks="lines after the second are 76 octets long"),
dict(id="p18-wkst-byday", prop="P18", file=P+"icalendar/recurrence.py",
 edits=[("        if self.mWeekstart != definitions.eRecurrence_WEEKDAY_MO:\n            jdict", "        if self.mWeekstart != definitions.eRecurrence_WEEKDAY_MO and (self.mByDay or self.mInterval > 1):\n            jdict")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "RRULE:FREQ=YEARLY;BYWEEKNO=1;WKST=SU"))
d = Calendar.parseJSONData(c.getTextJSON())
assert c == d and c.getText() == d.getText(), d.getText()
''', needs="a rule that counts weeks without naming week days, with its own start of the week", breaks="the start of the week is lost in jCal"),
dict(id="p18-until-and-count", prop="P18", file=P+"icalendar/recurrence.py",
 edits=[("                if not isinstance(value, str) and not isinstance(value, unicode) and not isinstance(value, int):\n", "                if isinstance(value, list) and name != \"bysetpos\" or isinstance(value, list) and len(value) == 1:\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "RRULE:FREQ=MONTHLY;BYDAY=MO,TU;BYSETPOS=1,-1"))
d = Calendar.parseJSONData(c.getTextJSON())
assert c == d and c.getText() == d.getText(), d.getText()
''', needs="a rule with several positions", breaks="jCal with several positions is not read"),
dict(id="p19-cut", prop="P19", file=P+"containerbase.py",
 edits=[("        if state != LOOK_FOR_CONTAINER:\n            raise InvalidData(\"%s data not complete\"", "        if state != LOOK_FOR_CONTAINER and comp is self:\n            raise InvalidData(\"%s data not complete\"")],
 demo=CAL+'''
try:
    c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\n")
except ErrorBase:
    pass
else:
    assert False, c.getText()
''', needs="data that is cut inside a component", breaks="it is accepted without that component"),
dict(id="p19-end-prefix", prop="P19", file=P+"containerbase.py",
 edits=[("                elif line == compend:\n", "                elif compend is not None and line.startswith(compend):\n")],
 demo=CAL+'''
try:
    c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nEND:VEVENT-X\\r\\nEND:VCALENDAR\\r\\n")
except ErrorBase:
    pass
else:
    assert False, c.getText()
''', needs="an end delimiter of another component whose name begins with the right one", breaks="the mismatch is accepted"),
dict(id="p21-dtend-one", prop="P21", file=P+"icalendar/vevent.py",
 edits=[("                self.removeProperties(definitions.cICalProperty_DTEND)\n", "                self.removeProperty(self.findFirstProperty(definitions.cICalProperty_DTEND))\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "DTEND:20200101T110000Z", "DTEND:20200101T120000Z", "DURATION:PT1H"))
c.validate(doFix=True)
assert "DTEND" not in c.getText(), c.getText()
''', needs="an event with a duration and two ends", breaks="one of the ends stays"),
dict(id="p24-span-start", prop="P24", file=P+"icalendar/vfreebusy.py",
 edits=[("                                if min_start > period.getValue().getStart():\n", "                                if min_start < period.getValue().getStart() and max_end < period.getValue().getStart():\n")],
 demo=CAL+'''
c = cal("BEGIN:VFREEBUSY\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nFREEBUSY:20200110T100000Z/PT1H\\r\\nFREEBUSY:20200112T100000Z/PT1H\\r\\nEND:VFREEBUSY\\r\\n")
l = []
c.getFreeBusy(Period(DateTime(2020, 1, 10, 0, 0, 0), DateTime(2020, 1, 11, 0, 0, 0)), l)
assert len(l) == 1, len(l)
''', needs="a free-busy component without its own start whose periods come in order and a range over the first of them only", breaks="busy time is lost"),
dict(id="p24-unavailable-free", prop="P24", file=P+"icalendar/vfreebusy.py",
 edits=[("                if fbyype.upper() == definitions.cICalParameter_FBTYPE_BUSY:\n", "                if fbyype.upper().startswith(definitions.cICalParameter_FBTYPE_BUSY) and result[0] is not iter:\n")],
 demo=CAL+'''
from pycalendar.icalendar.freebusy import FreeBusy
c = cal("BEGIN:VFREEBUSY\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nFREEBUSY:20200110T100000Z/PT1H\\r\\nFREEBUSY;FBTYPE=BUSY-TENTATIVE:20200112T100000Z/PT1H\\r\\nEND:VFREEBUSY\\r\\n")
l = []
c.getFreeBusy(Period(DateTime(2020, 1, 12, 0, 0, 0), DateTime(2020, 1, 13, 0, 0, 0)), l)
assert [i.getType() for i in l] == [FreeBusy.BUSYTENTATIVE], l
''', needs="a tentative FREEBUSY property after another one", breaks="it counts as busy"),
dict(id="p10-dates-sets", prop="P10", file=P+"icalendar/recurrenceset.py",
 edits=[("        dt1.sort(key=lambda x: x.getPosixTime())\n        dt2.sort(key=lambda x: x.getPosixTime())\n\n        return dt1 == dt2\n", "        dt1.sort(key=lambda x: x.getPosixTime())\n        dt2.sort(key=lambda x: x.getPosixTime())\n\n        return all(i in dt2 for i in dt1)\n")],
 demo='''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.datetime import DateTime
a = DateTime(2020, 1, 1, 10, 0, 0)
b = DateTime(2020, 1, 2, 10, 0, 0)
x = RecurrenceSet()
y = RecurrenceSet()
for d in (a, a, a):
    x.addDT(d)
for d in (a, a, b):
    y.addDT(d)
assert not x.equals(y)
''', needs="two sets with the same number of dates, one of which repeats a date", breaks="different sets compare equal"),
dict(id="p10-excluded-periods", prop="P10", file=P+"icalendar/recurrenceset.py",
 edits=[("        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):\n", "        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):\n")],
 demo='''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.datetime import DateTime
from pycalendar.period import Period
x = RecurrenceSet()
y = RecurrenceSet()
x.subtractPeriod(Period(DateTime(2020, 1, 1, 10, 0, 0), DateTime(2020, 1, 1, 11, 0, 0)))
assert not x.equals(y)
''', needs="sets that differ in excluded periods only", breaks="they compare equal"),
dict(id="p03-offset-without-colon", prop="P03", file=P+"datetime.py",
 edits=[("                # Get minutes\n                minutes_offset = self.parseDigits(data, index, 2)\n", "                # Get minutes\n                minutes_offset = self.parseDigits(data, index, 2) if index < dlen and data[index] != \"0\" else (index < dlen) * int(data[index:index + 2])\n")],
 demo='''
from pycalendar.datetime import DateTime
for t in ("20200101T100000+01:0x", "20200101T100000+01:0"):
    try:
        d = DateTime()
        d.parse(t, True)
    except ValueError:
        pass
    else:
        assert False, t
''', needs="an offset cut after the first digit of its minutes", breaks="it is accepted"),
dict(id="p01-yearday-366", prop="P01", file=P+"datetime.py",
 edits=[("            self.mDay = 31 if utils.isLeapYear(self.mYear) else 32\n", "            self.mDay = 31 if self.mYear % 4 == 0 else 32\n")],
 demo='''
from pycalendar.datetime import DateTime
d = DateTime(2100, 3, 1)
d.setYearDay(366)
assert (d.getYear(), d.getMonth(), d.getDay()) == (2101, 1, 1), d
''', needs="day 366 of a century year that is no leap year", breaks="it becomes December 31"),
]
