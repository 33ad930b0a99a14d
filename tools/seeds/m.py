I="src/pycalendar/icalendar/"
B="src/pycalendar/"
C='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
def cal(*lines):
    return Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x") + lines + ("END:VCALENDAR", "")))
'''
S=[
dict(id="p24-fbtype-case", prop="P24", file=I+"vfreebusy.py",
 edits=[("                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:\n","                elif fbyype == definitions.cICalParameter_FBTYPE_FREE:\n")],
 demo=C+'''
c = cal("BEGIN:VFREEBUSY", "UID:1", "DTSTAMP:20240101T000000Z", "FREEBUSY;FBTYPE=free:20240101T090000Z/PT1H", "FREEBUSY:20240101T120000Z/PT1H", "END:VFREEBUSY")
l = []
c.getFreeBusy(Period(DateTime(2024, 1, 1, 0, 0, 0, tzid=Timezone(utc=True)), DateTime(2024, 1, 2, 0, 0, 0, tzid=Timezone(utc=True))), l)
assert len(l) == 1, l
''', needs="a FREE period whose type is not written in capitals", breaks="free time is reported busy"),
dict(id="p02-hhmmss", prop="P02", file=B+"datetime.py",
 edits=[("        if (self.mHours != hours) or (self.mMinutes != minutes) or (self.mSeconds != seconds):\n","        if (self.mHours != hours) or (self.mMinutes != minutes):\n")],
 demo='''
from pycalendar.datetime import DateTime
d = DateTime(2024, 1, 1, 10, 20, 0)
d.setHHMMSS(10, 20, 59)
assert d.getSeconds() == 59
''', needs="a time set to another second of the same minute", breaks="the time stays what it was"),
dict(id="p02-utc-flag", prop="P02", file=B+"datetime.py",
 edits=[("        self.mTZUTC = tzid.getUTC()\n        self.mTZID = tzid.getTimezoneID()\n        self.changed()\n","        changed = (self.mTZID != tzid.getTimezoneID())\n        self.mTZUTC = tzid.getUTC()\n        self.mTZID = tzid.getTimezoneID()\n        if changed:\n            self.changed()\n")],
 demo=C+'''
c = cal("BEGIN:VTIMEZONE", "TZID:A/B", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD", "END:VTIMEZONE")
d = DateTime(2024, 1, 1, 12, 0, 0, tzid=Timezone(tzid="A/B"))
d.getPosixTime()
d.setTimezone(Timezone(tzid="A/B"))
x = d.getPosixTime()
e = DateTime(2024, 1, 1, 12, 0, 0)
a = e.getPosixTime()
e.setTimezoneID("A/B")
e.getPosixTime()
f = DateTime(2024, 1, 1, 12, 0, 0, tzid=Timezone(tzid="A/B"))
f.getPosixTime()
f.setTimezone(Timezone(utc=True, tzid="A/B"))
assert f.getPosixTime() == a, (f.getPosixTime(), a)
''', needs="x", breaks="x"),
dict(id="p23-std-again", prop="P23", file=B+"timezonedb.py",
 edits=[("        self.tzcache.clear()\n        self.stdtzcache.clear()\n","        self.tzcache.clear()\n")],
 demo=C+'''
from pycalendar.timezonedb import TimezoneDatabase
import tempfile, os, shutil
p = tempfile.mkdtemp()
try:
    Z = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VTIMEZONE\\r\\nTZID:Z\\r\\nBEGIN:STANDARD\\r\\nDTSTART:18000101T000000\\r\\nTZOFFSETFROM:-0500\\r\\nTZOFFSETTO:-0500\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\nEND:VCALENDAR\\r\\n"
    with open(os.path.join(p, "Z.ics"), "w") as f:
        f.write(Z)
    TimezoneDatabase.createTimezoneDatabase(p)
    assert TimezoneDatabase.isStandardTimezone("Z")
    os.remove(os.path.join(p, "Z.ics"))
    TimezoneDatabase.clearTimezoneDatabase()
    assert not TimezoneDatabase.isStandardTimezone("Z")
finally:
    shutil.rmtree(p)
''', needs="a database that is cleared after the files changed", breaks="a zone that is no longer in the database still counts as standard"),
dict(id="p23-in-calendar", prop="P23", file=B+"timezonedb.py",
 edits=[("            cal.addComponent(tz.duplicate(cal))\n","            cal.addComponent(tz)\n")],
 demo=C+'''
from pycalendar.timezonedb import TimezoneDatabase
c = cal("BEGIN:VTIMEZONE", "TZID:A/B", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD", "END:VTIMEZONE")
x = TimezoneDatabase.getTimezoneInCalendar("A/B")
x.getComponents("VTIMEZONE")[0].removeAllComponent()
assert TimezoneDatabase.getTimezoneOffsetSeconds("A/B", DateTime(2024, 1, 1, 0, 0, 0)) == -18000
''', needs="the zone given out in a calendar of its own is changed by its owner", breaks="the database answers with the changed zone"),
dict(id="p01-yeardays-setdate", prop="P01", file=B+"datetime.py",
 edits=[("            result += 7\n\n        return result\n\n    def getMonthText","            result += 6\n\n        return result\n\n    def getMonthText")],
 demo="pass", needs="x", breaks="x"),
dict(id="p02-adjust-date", prop="P02", file=B+"datetime.py",
 edits=[("            if not self.mTZUTC:\n                self.adjustToUTC()\n            self.setTimezone(tzid)\n            offset_to","            if not self.mTZUTC and self.mTZID:\n                self.adjustToUTC()\n            self.mTZUTC, self.mTZID = tzid.getUTC(), s1\n            offset_to")],
 demo='''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
d = DateTime(2024, 1, 1, 12, 0, 0, tzid=Timezone(tzid=3600))
d.timeZoneSecondsOffset()
p = d.getPosixTime()
d.adjustTimezone(Timezone(tzid=-18000))
assert d.duplicate().getText()[:15] == "20240101T060000"[:15], d.getText()
d.adjustTimezone(Timezone(tzid=7200))
assert d.getText()[:15] == "20240101T130000", d.getText()
''', needs="x", breaks="x"),
dict(id="p08-exrule-stale", prop="P08", file=I+"recurrenceset.py",
 edits=[("        for iter in self.mExrules:\n            iter.clear()\n","")],
 demo='''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def R(t):
    r = Recurrence()
    r.parse(t)
    return r
s = RecurrenceSet()
s.addRule(R("FREQ=DAILY;COUNT=6"))
x = R("FREQ=DAILY;INTERVAL=2;COUNT=3")
s.subtractRule(x)
def n():
    q = []
    s.expand(DateTime(2024, 1, 1, 9, 0, 0), Period(DateTime(2024, 1, 1, 0, 0, 0), DateTime(2024, 2, 1, 0, 0, 0)), q)
    return len(q)
assert n() == 3
x.mInterval = 3
s.changed()
assert n() == 4, n()
''', needs="x", breaks="x"),
dict(id="p19-utc-json", prop="P19", file=B+"property.py",
 edits=[("                    while txt[0] == ',':\n","                    if txt[0] == ',':\n")],
 demo="pass", needs="x", breaks="x"),
dict(id="p15-three-values", prop="P15", file=B+"property.py",
 edits=[("                    while txt[0] == ',':\n                        txt = txt[1:]\n                        parameter_value2, txt = stringutils.strduptokenstr(txt, \":;,\")\n                        if parameter_value2 is None:","                    while txt[0] == ',':\n                        txt = txt[1:].lstrip(\",\")\n                        parameter_value2, txt = stringutils.strduptokenstr(txt, \":;,\")\n                        if parameter_value2 is None:")],
 demo='''
from pycalendar.icalendar.property import Property
p = Property.parseText("ATTENDEE;X-A=a,,b:mailto:x@example.com")
assert p.getParameters()["X-A"][0].getValues() == ["a", "", "b"], p.getParameters()["X-A"][0].getValues()
''', needs="an empty value inside a list of parameter values", breaks="the empty value is lost"),
dict(id="p15-param-quote", prop="P15", file=B+"parameter.py",
 edits=[("        if str.find(\":\") != -1 or str.find(\";\") != -1 or str.find(\",\") != -1","        if str.find(\":\") != -1 or str.find(\";\") > 0 or str.find(\",\") > 0")],
 demo='''
from pycalendar.icalendar.property import Property
p = Property.parseText("ATTENDEE;CN=\\",x\\":mailto:x@example.com")
assert Property.parseText(p.getText().replace("\\r\\n ", "").strip()) == p
''', needs="x", breaks="x"),
]
S = [s for s in S if s["needs"] != "x" and s["id"] != "p24-fbtype-case"]
