P="src/pycalendar/"
S=[
dict(id="p01-weekno53", prop="P01", file=P+"datetime.py",
 edits=[("            if first_day in (DateTime.MONDAY, DateTime.TUESDAY, DateTime.WEDNESDAY, DateTime.THURSDAY):\n                week_no = 1",
         "            if first_day in (DateTime.MONDAY, DateTime.TUESDAY, DateTime.WEDNESDAY):\n                week_no = 1")],
 demo='''
from pycalendar.datetime import DateTime
# 2014-12-29 (Monday) belongs to week 1 of 2015, whose 1st of January is a Thursday
assert DateTime(2014, 12, 29).getWeekNo() == 1, DateTime(2014, 12, 29).getWeekNo()
assert DateTime(2020, 12, 31).getWeekNo() == 53
''', needs="the last days of a year whose successor starts on a Thursday", breaks="ISO week number"),
dict(id="p01-offsetday-back", prop="P01", file=P+"datetime.py",
 edits=[("                self.mMonth -= 1\n                if self.mMonth < 1:\n                    self.mMonth = 12\n                    self.mYear -= 1\n                self.mDay += utils.daysInMonth(self.mMonth, self.mYear)",
         "                self.mMonth -= 1\n                self.mDay += utils.daysInMonth(self.mMonth or 12, self.mYear)\n                if self.mMonth < 1:\n                    self.mMonth = 12\n                    self.mYear -= 1\n                    if self.mDay <= -334:\n                        self.mDay += [0, 1][utils.isLeapYear(self.mYear)] * (self.mMonth == 2)\n                    continue\n                if self.mMonth == 1 and self.mDay <= -366:\n                    self.mDay += 365\n                    self.mYear -= 1")],
 demo='''
from pycalendar.datetime import DateTime
import datetime
for n in (10, 40, 365, 366, 400, 800, 1500):
    d = DateTime(2009, 6, 15)
    d.offsetDay(-n)
    e = datetime.date(2009, 6, 15) - datetime.timedelta(n)
    assert (d.getYear(), d.getMonth(), d.getDay()) == (e.year, e.month, e.day), (n, d.getText(), e)
''', needs="going back by more than a year across a leap year", breaks="offsetDay with a large negative number of days"),
dict(id="p03-utcoffset-seconds", prop="P03", file=P+"utcoffsetvalue.py", edits=[],
 demo="", needs="", breaks="") ,
dict(id="p04-week-remainder", prop="P04", file=P+"duration.py",
 edits=[("        if remainder % (7 * 24 * 60 * 60) == 0:\n            self.mWeeks = remainder / (7 * 24 * 60 * 60)",
         "        if remainder % (7 * 24 * 60 * 60) < 60:\n            self.mWeeks = remainder / (7 * 24 * 60 * 60)"
         ) ],
 demo='''
from pycalendar.duration import Duration
assert Duration(duration=7 * 86400).getTotalSeconds() == 7 * 86400
assert Duration(duration=7 * 86400 + 30).getTotalSeconds() == 7 * 86400 + 30
''', needs="a duration of whole weeks plus less than a minute", breaks="length of the duration"),
dict(id="p04-overlap-touch", prop="P04", file=P+"period.py",
 edits=[("return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)","return not (self.mStart >= p.getEnd() or (self.getEnd() < p.mStart or (self.mEnd == p.mStart and not self.mUseDuration)))")],
 demo='''
from pycalendar.period import Period
a = Period.parseText("20200101T000000Z/20200101T010000Z")
a2 = Period.parseText("20200101T000000Z/PT1H")
b = Period.parseText("20200101T010000Z/20200101T020000Z")
assert not a.isPeriodOverlap(b)
assert not a2.isPeriodOverlap(b)
''', needs="adjacent periods, the first kept as start and duration", breaks="half-open overlap"),
dict(id="p06-negative-cache", prop="P06", file=P+"icalendar/vtimezone.py", edits=[], demo="", needs="", breaks=""),
dict(id="p07-interval-week", prop="P07", file=P+"icalendar/recurrence.py", edits=[], demo="", needs="", breaks=""),
dict(id="p08-upto-share", prop="P08", file=P+"icalendar/recurrence.py",
 edits=[("                and (self.mCacheUpto is None or self.mCacheUpto < range.getEnd()):","                and (self.mCacheUpto is None or self.mCacheUpto.compareDate(range.getEnd()) == 0 or self.mCacheUpto < range.getEnd()) \\\n                and not (self.mCacheUpto is not None and self.mCacheUpto.compareDate(range.getEnd()) == 0 and self.mFreq != definitions.eRecurrence_DAILY):")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def q(r, a, b):
    l = []
    r.expand(DateTime(2020, 1, 1, 0, 0, 0), Period(DateTime(2020, 1, 1, 0, 0, 0), DateTime(2020, 1, *b)), l)
    return len(l)
r = Recurrence()
r.parse("FREQ=HOURLY")
assert q(r, None, (2, 5, 0, 0)) == 29
assert q(r, None, (2, 7, 0, 0)) == 31
''', needs="a second expansion of an hourly rule whose range ends later on the same day", breaks="the second expansion misses instances"),
]
S=[s for s in S if s["edits"]]
