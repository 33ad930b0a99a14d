I="src/pycalendar/icalendar/"
B="src/pycalendar/"
C='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
def cal(*lines):
    return Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x") + lines + ("END:VCALENDAR", "")))
'''
S=[
dict(id="p23-merge-known", prop="P23", file=B+"timezonedb.py",
 edits=[("        if self._getTimezone(tz.getID()) is None:\n            self.addTimezone(tz)","        if tz.getID() not in self.tzcache and self._getTimezone(tz.getID()) is None:\n            self.addTimezone(tz)")],
 demo=C+'''
from pycalendar.timezonedb import TimezoneDatabase
assert TimezoneDatabase.getTimezone("A/B") is None
cal("BEGIN:VTIMEZONE", "TZID:A/B", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD", "END:VTIMEZONE")
assert TimezoneDatabase.getTimezoneOffsetSeconds("A/B", DateTime(2024, 1, 1, 0, 0, 0)) == -18000
''', needs="a timezone that was asked for before a calendar that defines it is read", breaks="the definition that was read is not used"),
dict(id="p16-chars", prop="P16", file=B+"property.py",
 edits=[("        if len(temp) < 75:\n","        if len(temp.decode(\"utf-8\", \"ignore\")) < 75:\n")],
 demo='''
from pycalendar.icalendar.property import Property
for n in (10, 40, 60, 90):
    t = Property("SUMMARY", u"\\u00e9".encode("utf-8") * n).getText()
    assert max([len(l) for l in t.split("\\r\\n")]) <= 75, n
''', needs="a value of other than ASCII characters whose line has fewer than 75 characters but more octets", breaks="the line is too long"),
dict(id="p21-due-dropped", prop="P21", file=I+"vtodo.py",
 edits=[("                self.removeProperties(definitions.cICalProperty_DURATION)\n","                self.removeProperties(definitions.cICalProperty_DUE)\n")],
 demo=C+'''
c = cal("BEGIN:VTODO", "UID:1", "DTSTAMP:20240101T000000Z", "DUE:20240105T000000Z", "DURATION:PT1H", "END:VTODO")
c.validate(doFix=True)
assert c.validate() == ([], []), c.validate()
''', needs="a to-do without a start that has both a due time and a duration", breaks="the repaired to-do is still invalid and has lost its due time"),
dict(id="p04-use-end", prop="P04", file=B+"period.py",
 edits=[("        elif not self.mUseDuration and self.mEnd is None:\n            self.getEnd()\n","")],
 demo='''
from pycalendar.period import Period
p = Period.parseText("20240101T000000Z/PT1H")
p.setUseDuration(False)
assert p.getText() == "20240101T000000Z/20240101T010000Z", p.getText()
''', needs="a period given by a duration that is switched to its end before anything asked for the end", breaks="the period is written without its end"),
dict(id="p29-repeat-triggered", prop="P29", file=I+"valarm.py",
 edits=[("        if self.mDoneCount < self.mRepeats:\n            self.mNextTrigger","        if self.mDoneCount + 1 < self.mRepeats:\n            self.mNextTrigger")],
 demo=C+'''
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20990101T000000Z", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M", "REPEAT:2", "DURATION:PT1M", "END:VALARM", "END:VEVENT")
al = c.getComponents("VEVENT")[0].getComponents("VALARM")[0]
dt = DateTime()
al.getNextTrigger(dt)
n = 1
while al.alarmTriggered(dt):
    n += 1
assert n == 3, n
''', needs="an alarm with repeats that is triggered until it is done", breaks="the last repeat does not happen"),
dict(id="p08-cache-year", prop="P08", file=I+"recurrence.py",
 edits=[("                and (self.mCacheUpto is None or self.mCacheUpto < range.getEnd()):\n","                and (self.mCacheUpto is None or self.mCacheUpto.getYear() < range.getEnd().getYear()):\n")],
 demo='''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence()
r.parse("FREQ=WEEKLY")
def n(month):
    out = []
    r.expand(DateTime(2024, 1, 1, 9, 0, 0), Period(DateTime(2024, 1, 1, 0, 0, 0), DateTime(2024, month, 1, 0, 0, 0)), out)
    return len(out)
assert n(2) == 5
assert n(12) > 40
''', needs="a range that ends in the same year as an earlier range and after it", breaks="the later instances are missing"),
dict(id="p20-repeat-alone", prop="P20", file=I+"valarm.py",
 edits=[("        if self.hasProperty(definitions.cICalProperty_DURATION) ^ self.hasProperty(definitions.cICalProperty_REPEAT):\n","        if self.hasProperty(definitions.cICalProperty_DURATION) and not self.hasProperty(definitions.cICalProperty_REPEAT):\n")],
 demo=C+'''
def alarm(*l):
    return cal(*(("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M") + l + ("END:VALARM", "END:VEVENT")))
assert not alarm("REPEAT:2", "DURATION:PT1M").validate()[1]
assert alarm("DURATION:PT1M").validate()[1]
assert alarm("REPEAT:2").validate()[1]
''', needs="an alarm with repeats but no interval", breaks="the problem is not reported"),
dict(id="p01-week-one", prop="P01", file=B+"datetime.py",
 edits=[("        if year_day < 0:\n            self.offsetYear(-1)\n","        if year_day <= 0:\n            self.offsetYear(-1)\n")],
 demo='''
from pycalendar.datetime import DateTime
d = DateTime(2024, 6, 3)
d.setWeekNo(1)
assert (d.getYear(), d.getMonth(), d.getDay()) == (2024, 1, 1), d
''', needs="week one for a weekday that is the first of January", breaks="the date is not in that week"),
dict(id="p07-month-first-start", prop="P07", file=I+"recurrence.py",
 edits=[("                if (ctr == 1) and (start == iter):\n                    continue\n","                if (ctr == 1 or self.mUseUntil) and (start == iter):\n                    continue\n")],
 demo='''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.recurrence import Recurrence
def n(t):
    r = Recurrence()
    r.parse(t)
    out = []
    r.expand(DateTime(2024, 1, 1, 9, 0, 0), Period(DateTime(2024, 1, 1, 0, 0, 0), DateTime(2024, 2, 1, 0, 0, 0)), out)
    return [d.getDay() for d in out]
assert n("FREQ=WEEKLY;BYDAY=MO;COUNT=3") in ([8, 15], [1, 8, 15]), n("FREQ=WEEKLY;BYDAY=MO;COUNT=3")
x = n("FREQ=WEEKLY;BYDAY=MO;UNTIL=20240120T000000")
assert x == [1, 8, 15], x
''', needs="x", breaks="x"),
dict(id="p27-keep-novalue", prop="P27", file=B+"outputfilter.py",
 edits=[("        if self.mProperties is None:\n            self.mProperties = {}\n\n        self.mProperties[name] = no_value\n","        if self.mProperties is None:\n            self.mProperties = {}\n\n        self.mProperties.setdefault(name, no_value)\n")],
 demo=C+'''
import cStringIO as StringIO
from pycalendar.outputfilter import OutputFilter
f = OutputFilter("VCALENDAR")
f.addProperty("PRODID", True)
f.addProperty("PRODID", False)
os = StringIO.StringIO()
cal().generateFiltered(os, f)
assert "PRODID:x" in os.getvalue()
''', needs="a property selected twice, first without and then with its value", breaks="the value is not written"),
dict(id="p13-parse-result", prop="P13", file=I+"calendar.py",
 edits=[("        self.mMasterComponentsByTypeAndUID.clear()\n","        pass\n")],
 demo="pass", needs="x", breaks="x"),
]
S = [s for s in S if s["id"] not in ("p13-parse-result", "p07-month-first-start")]

S = [d for d in S if d['id'] in ('p16-chars', 'p04-use-end', 'p29-repeat-triggered')]
