P="src/pycalendar/"
R=P+"icalendar/recurrence.py"
S=[
dict(id="p04-setduration-week", prop="P04", file=P+"duration.py",
 edits=[("            self.mHours = remainder % 24\n            remainder -= self.mHours\n\n            self.mDays = remainder / 24",
         "            self.mDays, self.mHours = divmod(remainder, 24)\n            if self.mDays > 28:\n                self.mDays, self.mHours = self.mDays / 7 * 7, self.mHours + (self.mDays % 7) * (self.mDays % 7 and 24 - (self.mHours > 20))")],
 demo='''
from pycalendar.duration import Duration
for n in (30 * 86400 + 21 * 3600 + 5, 30 * 86400 + 5, 36 * 86400 + 23 * 3600 + 59, 3 * 86400 + 1):
    assert Duration(duration=n).getTotalSeconds() == n, n
    assert Duration(duration=-n).getTotalSeconds() == -n, n
''', needs="a duration of more than four weeks with a late time-of-day part", breaks="exact length"),
dict(id="p05-find-first", prop="P05", file=P+"icalendar/vtimezone.py",
 edits=[("                    if dt_item > dt_found:","                    if dt_item > dt_found and dt_item.getYear() >= temp.getYear() - 1:")],
 demo='''
from cStringIO import StringIO
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
t = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Etc/Z
BEGIN:STANDARD
DTSTART:19700101T000000
TZOFFSETFROM:+0000
TZOFFSETTO:+0100
TZNAME:AAA
END:STANDARD
BEGIN:STANDARD
DTSTART:19900101T000000
TZOFFSETFROM:+0100
TZOFFSETTO:+0200
TZNAME:BBB
END:STANDARD
END:VTIMEZONE
END:VCALENDAR
"""
c = Calendar()
c.parse(StringIO(t.replace("\\n", "\\r\\n")))
z = c.getComponents("VTIMEZONE")[0]
assert z.getTimezoneDescriptor(DateTime(1991, 1, 1, 0, 0, 0)) == "(BBB)"
assert z.getTimezoneDescriptor(DateTime(2005, 1, 1, 0, 0, 0)) == "(BBB)"
''', needs="a time years after the last transition of a zone with several one-off observances", breaks="abbreviation"),
dict(id="p06-copy-shares-offsets", prop="P06", file=P+"icalendar/vtimezone.py",
 edits=[("                if len(self.mCachedOffsets) >= self.UTCOFFSET_CACHE_MAX_ENTRIES:","                if not relative_to_utc and temp.mMinutes:\n                    cacheKey = cacheKey[:3] + (temp.mHours, 0,) + cacheKey[5:]\n                if len(self.mCachedOffsets) >= self.UTCOFFSET_CACHE_MAX_ENTRIES:")],
 demo='''
from cStringIO import StringIO
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
t = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Etc/Z
BEGIN:STANDARD
DTSTART:19700101T000000
TZOFFSETFROM:+0000
TZOFFSETTO:+0100
TZNAME:AAA
END:STANDARD
BEGIN:STANDARD
DTSTART:19900101T003000
TZOFFSETFROM:+0100
TZOFFSETTO:+0200
TZNAME:BBB
END:STANDARD
END:VTIMEZONE
END:VCALENDAR
"""
c = Calendar()
c.parse(StringIO(t.replace("\\n", "\\r\\n")))
z = c.getComponents("VTIMEZONE")[0]
z.getTimezoneOffsetSeconds(DateTime(1990, 1, 1, 0, 31, 0))
assert z.getTimezoneOffsetSeconds(DateTime(1990, 1, 1, 0, 0, 0)) == 3600
''', needs="a transition within an hour, asked after it and then at the start of the hour", breaks="answers depend on earlier queries"),
dict(id="p07-wkst-expand", prop="P07", file=R,
 edits=[("                    day_in_week_offset = iter2[1] - self.mWeekstart\n                    if day_in_week_offset < 0:\n                        day_in_week_offset += 7","                    day_in_week_offset = (iter2[1] - self.mWeekstart) % 7\n                    if self.mWeekstart == definitions.eRecurrence_WEEKDAY_SU and iter2[1] == temp.getDayOfWeek() == definitions.eRecurrence_WEEKDAY_SA and self.mInterval > 2:\n                        day_in_week_offset -= 7")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
r = Recurrence()
r.parse("FREQ=WEEKLY;INTERVAL=3;BYDAY=SA,MO;WKST=SU")
l = []
s = DateTime(2020, 1, 4, 9, 0, 0)
r.expand(s, Period(s, DateTime(2020, 3, 1, 0, 0, 0)), l)
got = [x.getText() for x in l]
want = ["20200120T090000", "20200125T090000", "20200210T090000", "20200215T090000"]
assert [x for x in got if x != "20200104T090000"] == want, got
''', needs="INTERVAL of at least 3 with WKST=SU, BYDAY including SA and a start on Saturday", breaks="week placement"),
dict(id="p08-cached-limit", prop="P08", file=R,
 edits=[("                items.append(iter.duplicate())\n            else:\n                limited = True\n        return limited","XX")],
 demo="", needs="", breaks=""),
dict(id="p08-clear-until", prop="P08", file=R, edits=[], demo="", needs="", breaks=""),
dict(id="p09-setpos-order", prop="P09", file=R,
 edits=[("            self.generateList(os, definitions.cICalValue_RECUR_BYSETPOS, self.mBySetPos)","            self.generateList(os, definitions.cICalValue_RECUR_BYSETPOS, self.mBySetPos if self.mByYearDay is None or self.mBySetPos is None else [x for x in self.mBySetPos if x < 366])")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
for t in ("FREQ=YEARLY;BYYEARDAY=1,2;BYSETPOS=1,366", "FREQ=YEARLY;BYYEARDAY=1,2;BYSETPOS=-366,1,2"):
    r = Recurrence()
    r.parse(t)
    q = Recurrence()
    q.parse(r.getText())
    assert q == r and q.getText() == t, q.getText()
''', needs="BYSETPOS=366 together with BYYEARDAY", breaks="round trip of the rule"),
dict(id="p10-exdate-dup", prop="P10", file=P+"icalendar/recurrenceset.py",
 edits=[("            if range.isPeriodOverlap(iter):\n                include.append(iter.getStart())","            if range.isPeriodOverlap(iter) or iter.getEnd() == range.getStart():\n                include.append(iter.getStart())")],
 demo='''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def D(d, h):
    return DateTime(2020, 1, d, h, 0, 0)
s = RecurrenceSet()
s.addDT(D(2, 9))
s.addPeriod(Period(D(3, 9), D(3, 10)))
l = []
s.expand(D(1, 9), Period(D(3, 9), D(5, 9)), l)
assert [x.getText() for x in l] == ["20200103T090000"]
l = []
s.expand(D(1, 9), Period(D(3, 10), D(5, 9)), l)
assert l == []
''', needs="an RDATE period ending exactly where the range starts", breaks="period outside the range is listed"),
dict(id="p03-datetime-extra", prop="P03", file=P+"datetime.py",
 edits=[("            raise ValueError(\"DateTime: invalid TZ offset length\")","            if index + 1 < dlen or not data[index].isalpha() and data[index] != ' ':\n                raise ValueError(\"DateTime: invalid TZ offset length\")")],
 demo='''
from pycalendar.datetime import DateTime
for t in ("2020-01-01T00:00:00+01:00Z", "2020-01-01T00:00:00Z ", "20200101T000000ZZ"):
    try:
        d = DateTime.parseText(t, True)
    except ValueError:
        continue
    assert False, (t, d.getText())
assert DateTime.parseText("2020-01-01T00:00:00Z", True).getTimezoneUTC()
''', needs="an extra letter after the offset in the extended form", breaks="ill-formed date-times accepted"),
dict(id="p03-utcoffset-neg", prop="P03", file=P+"utcoffsetvalue.py",
 edits=[("            mins = (abs_value / 60) % 60\n","            mins = (self.mValue / 60) % 60\n            if sign == \"-\":\n                mins = (60 - mins) % 60\n")],
 demo='''
from pycalendar.utcoffsetvalue import UTCOffsetValue
for n in (-3600, -1800, -12345, 12345, 0, -59):
    v = UTCOffsetValue(n)
    q = UTCOffsetValue(0)
    q.parse(v.getText(), "ical")
    assert q.getValue() == n, (n, v.getText())
''', needs="a negative UTC offset with seconds", breaks="generated text"),
]
S=[s for s in S if s["edits"] and s["edits"][0][1]!="XX"]
