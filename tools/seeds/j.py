I="src/pycalendar/icalendar/"
B="src/pycalendar/"
C='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
def cal(*lines):
    return Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x") + lines + ("END:VCALENDAR", "")))
'''
S=[
dict(id="p10-equal-rules-twice", prop="P10", file=I+"recurrenceset.py",
 edits=[("                    temp2.remove(r2)\n","")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
def rules(*texts):
    rs = RecurrenceSet()
    for t in texts:
        r = Recurrence()
        r.parse(t)
        rs.addRule(r)
    return rs
a, b = "FREQ=DAILY;COUNT=2", "FREQ=WEEKLY;COUNT=3"
assert rules(a, b).equals(rules(b, a))
assert not rules(a, a).equals(rules(a, b))
''', needs="sets with the same number of rules, one of them repeated in the first", breaks="different recurrence sets compare equal"),
dict(id="p07-week53-days", prop="P07", file=I+"recurrence.py",
 edits=[("                    for i in range(1, 54):\n","                    for i in range(1, 53):\n")],
 demo='''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence()
r.parse("FREQ=YEARLY;BYDAY=TH")
out = []
r.expand(DateTime(2009, 1, 1, 9, 0, 0), Period(DateTime(2009, 1, 1, 0, 0, 0), DateTime(2010, 1, 1, 0, 0, 0)), out)
assert len(out) == 53, len(out)
''', needs="a yearly rule on every such weekday in a year that has 53 of them", breaks="the last one of the year is missing"),
dict(id="p09-wkst-equal", prop="P09", file=I+"recurrence.py",
 edits=[("            (self.mWeekstart == comp.mWeekstart)\n","            (self.mWeekstart == comp.mWeekstart or self.mFreq != definitions.eRecurrence_WEEKLY)\n")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
def rule(t):
    r = Recurrence()
    r.parse(t)
    return r
assert rule("FREQ=YEARLY;BYWEEKNO=20;BYDAY=SU") != rule("FREQ=YEARLY;BYWEEKNO=20;BYDAY=SU;WKST=SU")
''', needs="two rules that differ in the start of the week and are not weekly", breaks="rules with different instances are equal"),
dict(id="p03-utcoffset-subminute", prop="P03", file=B+"utcoffsetvalue.py",
 edits=[("            if abs_value < 0:\n","            if abs_value <= -60:\n")],
 demo='''
import cStringIO as StringIO
from pycalendar.utcoffsetvalue import UTCOffsetValue
for text in ("-000044", "+000044", "-0001", "-0500"):
    v = UTCOffsetValue()
    v.parse(text, "icalendar")
    os = StringIO.StringIO()
    v.generate(os)
    w = UTCOffsetValue()
    w.parse(os.getvalue(), "icalendar")
    assert w.getValue() == v.getValue(), (text, os.getvalue())
''', needs="a negative offset of less than one minute", breaks="the text written does not read back as the offset"),
dict(id="p24-span-max", prop="P24", file=I+"vfreebusy.py",
 edits=[("                                if max_end < period.getValue().getEnd():","                                elif max_end < period.getValue().getEnd():")],
 demo=C+'''
from pycalendar.period import Period
c = cal("BEGIN:VFREEBUSY", "UID:1", "DTSTAMP:20240101T000000Z",
    "FREEBUSY:20240110T100000Z/20240110T110000Z", "FREEBUSY:20240110T080000Z/20240110T150000Z", "END:VFREEBUSY")
def at(h):
    return DateTime(2024, 1, 10, h, 0, 0, tzid=Timezone(utc=True))
fb = []
c.getFreeBusy(Period(at(12), at(14)), fb)
assert [(f.getPeriod().getStart(), f.getPeriod().getEnd()) for f in fb] == [(at(12), at(14))], fb
''', needs="a free-busy component without DTEND whose later listed period begins before and ends after the ones before it", breaks="busy times at the end of the period are missing"),
dict(id="p25-adr-generate-empty", prop="P25", file=B+"utils.py",
 edits=[("                if item:\n                    writeTextValue(os, item[0])\n","                if item and item[0]:\n                    writeTextValue(os, item[0])\n")],
 demo='''
from pycalendar.vcard.card import Card
def card(n):
    return Card.parseText("BEGIN:VCARD\\r\\nVERSION:3.0\\r\\nFN:x\\r\\nN:%s\\r\\nEND:VCARD\\r\\n" % n)
for n in ("Smith;Ann,Mary;;;", "Smith;,Mary;;;"):
    c = card(n)
    assert Card.parseText(c.getText()) == c, c.getText()
''', needs="a component that is a list whose first element is empty", breaks="the whole list is not written"),
dict(id="p29-email-attendee", prop="P29", file=I+"valarm.py",
 edits=[("            valarm.removeProperties(definitions.cICalProperty_SUMMARY)\n            valarm.removeProperties(definitions.cICalProperty_ATTENDEE)\n","            valarm.removeProperties(definitions.cICalProperty_SUMMARY)\n")],
 demo=C+'''
from pycalendar.icalendar.valarm import VAlarm
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "BEGIN:VALARM", "ACTION:EMAIL", "TRIGGER:-PT5M",
    "DESCRIPTION:d", "SUMMARY:s", "ATTENDEE:mailto:a@example.com", "END:VALARM", "END:VEVENT")
al = c.getComponents("VEVENT")[0].getComponents("VALARM")[0]
al.editAction(0, VAlarm.VAlarmEmail("e", "t", ["mailto:b@example.com"])) if False else None
from pycalendar.icalendar import definitions
al.editAction(definitions.eAction_VAlarm_Email, VAlarm.VAlarmEmail("e", "t", ["mailto:b@example.com"]))
d = Calendar.parseText(c.getText()).getComponents("VEVENT")[0].getComponents("VALARM")[0]
assert d.getActionData().getAttendees() == ["mailto:b@example.com"], d.getActionData().getAttendees()
''', needs="an e-mail alarm whose action is edited", breaks="the previous recipients stay"),
dict(id="p12-due-keeps-duration", prop="P12", file=I+"componentrecur.py",
 edits=[("""        # Remove existing DUE & DTSTART & DTEND & DURATION items
        self.removeProperties(definitions.cICalProperty_DUE)
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
        self.removeProperties(definitions.cICalProperty_DURATION)
""","""        # Remove existing DUE & DTSTART & DTEND & DURATION items
        self.removeProperties(definitions.cICalProperty_DUE)
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
""")],
 demo=C+'''
c = cal("BEGIN:VTODO", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "DURATION:PT1H", "END:VTODO")
t = c.getComponents("VTODO")[0]
t.editTimingDue(DateTime(2024, 1, 5, 0, 0, 0, tzid=Timezone(utc=True)))
assert "DURATION" not in c.getText()
''', needs="a to-do with a duration that is given a due time", breaks="the old duration stays beside the due time"),
dict(id="p20-percent-range", prop="P20", file=B+"validation.py",
 edits=[("            return value >= low and value <= high\n","            return value >= low and abs(value) < max(high, 101)\n")],
 demo=C+'''
def problems(n):
    c = cal("BEGIN:VTODO", "UID:1", "DTSTAMP:20240101T000000Z", "PRIORITY:%d" % n, "END:VTODO")
    return c.validate()[1]
assert not problems(9)
assert problems(10)
''', needs="a priority between 10 and 100", breaks="the invalid value is not reported"),
dict(id="p22-geo-dup", prop="P22", file=B+"geovalue.py",
 edits=[("        return GeoValue(self.mValue[:])\n","        return GeoValue(self.mValue)\n")],
 demo=C+'''
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "GEO:1.5;2.5", "END:VEVENT")
d = c.duplicate()
c.getComponents("VEVENT")[0].getProperties("GEO")[0].getValue().getValue()[0] = 7.0
assert "GEO:1.5;2.5" in d.getText()
''', needs="a component of a position changed in place after copying", breaks="the copy changes with its original"),
dict(id="p05-descriptor-sign", prop="P05", file=I+"vtimezone.py",
 edits=[("                result = (\"+\", \"-\")[negative]\n                hours_offset = tzoffset / (60 * 60)\n","                hours_offset = tzoffset / (60 * 60)\n                result = (\"+\", \"-\")[negative and hours_offset != 0]\n")],
 demo=C+'''
c = cal("BEGIN:VTIMEZONE", "TZID:A", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0045", "TZOFFSETTO:-0045", "END:STANDARD", "END:VTIMEZONE")
z = c.getComponents("VTIMEZONE")[0]
assert z.getTimezoneDescriptor(DateTime(2024, 1, 1, 0, 0, 0)) == "-0045"
''', needs="an unnamed observance less than an hour west of Greenwich", breaks="the description of the offset is east"),
dict(id="p17-blank-line", prop="P17", file=B+"utils.py",
 edits=[("                    if last != '\\r':\n                        encoded.append(\"^n\")\n","                    if last not in ('\\r', '\\n'):\n                        encoded.append(\"^n\")\n")],
 demo='''
from pycalendar.utils import decodeParameterValue, encodeParameterValue
for v in ("a\\nb", "a\\n\\nb"):
    assert decodeParameterValue(encodeParameterValue(v)) == v, v
''', needs="a parameter value with an empty line in it", breaks="the empty line is lost"),
dict(id="p28-setpos-xml", prop="P28", file=I+"recurrence.py",
 edits=[("        self.writeXMLList(recur, namespace, xmldefinitions.recur_byweekno, self.mByWeekNo)\n","        self.writeXMLList(recur, namespace, xmldefinitions.recur_byweekno, self.mByWeekNo if not self.mByDay else None)\n")],
 demo=C+'''
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "RRULE:FREQ=YEARLY;BYWEEKNO=20,30;BYDAY=MO", "END:VEVENT")
assert c.getTextXML().count("byweekno>") == 4, c.getTextXML()
''', needs="a rule with both week numbers and weekdays", breaks="the week numbers are missing from the XML"),
dict(id="p14-shares-id", prop="P14", file=I+"calendar.py",
 edits=[("            definitions.cICalProperty_EXRULE,\n            definitions.cICalProperty_EXDATE,\n            definitions.cICalProperty_RECURRENCE_ID,\n        ):\n","            definitions.cICalProperty_EXRULE,\n            definitions.cICalProperty_RECURRENCE_ID,\n        ):\n")],
 demo=C+'''
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "RRULE:FREQ=DAILY", "EXDATE:20240103T000000Z", "END:VEVENT")
d = c.deriveComponent(DateTime(2024, 1, 2, 0, 0, 0, tzid=Timezone(utc=True)))
assert not d.hasProperty("EXDATE")
''', needs="a recurring event with an excluded occurrence", breaks="the derived occurrence still has the exclusions"),
]
