P="src/pycalendar/"
Z='''
from cStringIO import StringIO
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
t = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Etc/Q
BEGIN:STANDARD
DTSTART:19700101T000000
TZOFFSETFROM:-0500
TZOFFSETTO:-0500
TZNAME:AAA
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20000401T020000
TZOFFSETFROM:-0500
TZOFFSETTO:-0400
TZNAME:BBB
END:DAYLIGHT
END:VTIMEZONE
END:VCALENDAR
"""
c = Calendar()
c.parse(StringIO(t.replace("\\n", "\\r\\n")))
Q = Timezone(tzid="Etc/Q")
'''
S=[
dict(id="p02-adjust-local-offset", prop="P02", file=P+"datetime.py",
 edits=[("            if not self.mTZUTC:\n                self.adjustToUTC()\n            self.setTimezone(tzid)\n            offset_to = self.timeZoneSecondsOffset(relative_to_utc=True)",
         "            relative = not self.mTZUTC or self.mTZOffset is None\n            if not self.mTZUTC:\n                self.adjustToUTC()\n            self.setTimezone(tzid)\n            offset_to = self.timeZoneSecondsOffset(relative_to_utc=relative)")],
 demo=Z+'''
u = DateTime(2000, 4, 1, 5, 30, 0, tzid=Timezone(utc=True))
v = u.duplicate()
v.adjustTimezone(Q)
assert v.getText() == "20000401T003000", v.getText()
w = DateTime(2000, 4, 1, 0, 30, 0, tzid=Q)
w.adjustToUTC()
w.adjustTimezone(Q)
assert w.getText() == "20000401T003000", w.getText()
''', needs="a value converted to UTC and then to a zone within the offset of a transition", breaks="the instant changes in the conversion"),
dict(id="p02-stale-posix-seconds", prop="P02", file=P+"datetime.py",
 edits=[("            self.mSeconds = seconds\n            self.changed()\n\n    def offsetSeconds","            self.mSeconds = seconds\n            self.mTZOffset = None\n            self.mPosixTimeCached = self.mPosixTimeCached and self.mTZUTC\n\n    def offsetSeconds")],
 demo='''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
d = DateTime(2000, 4, 1, 5, 30, 0, tzid=Timezone(utc=True))
e = DateTime(2000, 4, 1, 5, 30, 7, tzid=Timezone(utc=True))
assert hash(d) != hash(e)
d.setSeconds(7)
assert d == e and hash(d) == hash(e)
''', needs="a UTC value whose instant was asked for before its seconds are set", breaks="stale instant"),
dict(id="p02-same-offset", prop="P02", file=P+"datetime.py",
 edits=[("            if tempPosix is not None:\n                self.mPosixTimeCached = True\n                self.mPosixTime = tempPosix","            if tempPosix is not None or self.mSeconds == 0:\n                self.mPosixTimeCached = True\n                self.mPosixTime = tempPosix if tempPosix is not None else self.mPosixTime")],
 demo=Z+'''
d = DateTime(2000, 6, 1, 5, 30, 0, tzid=Q)
d.getPosixTime()
d.setYear(2003)
d.adjustToUTC()
assert d.getPosixTime() == DateTime(2003, 6, 1, 9, 30, 0, tzid=Timezone(utc=True)).getPosixTime()
''', needs="asking for the instant, changing the value and converting it to UTC without asking again", breaks="stale instant after conversion"),
]
