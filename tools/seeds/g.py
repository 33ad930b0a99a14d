P="src/pycalendar/"
CAL='''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.exceptions import ErrorBase
def cal(*comps):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + "".join(comps) + "END:VCALENDAR\\r\\n")
def ev(*lines):
    return "BEGIN:VEVENT\\r\\nDTSTAMP:20200101T000000Z\\r\\n" + "".join([l + "\\r\\n" for l in lines]) + "END:VEVENT\\r\\n"
'''
S=[
dict(id="p15-lower-value-type", prop="P15", file=P+"property.py",
 edits=[("            value_type = self.sValueTypeMap.get(attr.upper(), value_type)\n", "            value_type = self.sValueTypeMap.get(attr, value_type)\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "RDATE;VALUE=period:20200102T100000Z/PT1H"))
t = c.getText()
assert "20200102T100000Z/PT1H" in t, t
assert Calendar.parseText(t).getText() == t
''', needs="a VALUE parameter given in lower case, with a type that is not the default of the property", breaks="the value is read as one of the default type"),
dict(id="p15-sorted-drops-twin", prop="P15", file=P+"componentbase.py",
 edits=[("""            for component in tuple(self.mComponents):
                if component.getType().upper() == compname:""", """            for component in self.mComponents:
                if component.getType().upper() == compname:""")] if False else [("                if component.getType().upper() == name:\n                    namedcomponents.append(component)\n                    components.remove(component)\n", "                if component.getType().upper() == name:\n                    namedcomponents.append(component)\n            if namedcomponents:\n                components = [i for i in components if i not in namedcomponents]\n"), ("            for component in self.sortBySortKey(namedcomponents, lambda x: x.getSortKey()):\n                sortedcomponents.append(component)\n", "            for component in self.sortBySortKey(namedcomponents, lambda x: x.getSortKey()):\n                if component not in sortedcomponents:\n                    sortedcomponents.append(component)\n")],
 demo=CAL+'''
a = "BEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:x\\r\\nTRIGGER:-PT5M\\r\\nEND:VALARM\\r\\n"
e = ev("UID:1", "DTSTART:20200101T100000Z", "X-A:1")
c = cal(e, e)
assert c.getText().count("BEGIN:VEVENT") == 2, c.getText()
''', needs="two components of the same kind with equal contents", breaks="one of two equal components is not written"),
dict(id="p16-line-limit", prop="P16", file=P+"property.py",
 edits=[("        if len(temp) < 75:\n", "        if len(temp) <= 76:\n")],
 demo=CAL+'''
for n in range(60, 90):
    t = Property("X-A", "b" * n).getText()
    assert max([len(l) for l in t.split("\\r\\n")]) <= 75, n
''', needs="a line of exactly 76 octets", breaks="a line longer than 75 octets is written unfolded"),
dict(id="p16-step-back", prop="P16", file=P+"property.py",
 edits=[("                    lineWrap = 73   # We are now adding a space at the start\n                    written += offset - start\n", "                    written += offset - start\n                    lineWrap = 73 if written > 74 or offset - start == 74 else 74   # We are now adding a space at the start\n")],
 demo=CAL+'''
for n in range(40, 200):
    for m in range(3):
        t = Property("X-A", "b" * m + "\\xc3\\xa9" * n).getText()
        assert max([len(l) for l in t.split("\\r\\n")]) <= 75, (n, m)
        for l in t.split("\\r\\n "):
            l.rstrip("\\r\\n").decode("utf-8")
''', needs="", breaks=""),
dict(id="p16-tab-fold", prop="P16", file=P+"utils.py",
 edits=[("            lines[0] = lines[0] + lines[1][1:]\n", "            lines[0] = lines[0] + (lines[1][1:] if lines[1][0] == \" \" else lines[1].lstrip(\"\\t\"))\n")],
 demo=CAL+'''
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nX-A:one\\r\\n\\t\\ttwo\\r\\nEND:VCALENDAR\\r\\n")
assert c.getPropertyString("X-A") is None
assert c.findFirstProperty("X-A").getValue().getValue() == "one\\ttwo"
''', needs="a line folded with a tab right before a tab of the value", breaks="a character of the value is lost on reading"),
dict(id="p17-param-crlf", prop="P17", file=P+"utils.py",
 edits=[("            else:\n                encoded.append(c)\n            last = c\n", "            else:\n                encoded.append(c)\n                last = c\n")],
 demo='''
from pycalendar.icalendar.property import Property
from pycalendar.parameter import Parameter
p = Property("X-A", "v")
p.addParameter(Parameter("X-P", "a\\r\\nb"))
assert Property.parseText(p.getText().rstrip("\\r\\n")).getParameterValue("X-P") == "a\\nb"
''', needs="a parameter value with a CRLF", breaks="it reads back with two line breaks"),
dict(id="p17-quote-leading-tab", prop="P17", file=P+"parameter.py",
 edits=[('        if str.find(":") != -1 or str.find(";") != -1', '        if str.find(":") > 0 or str.find(";") != -1')],
 demo='''
from pycalendar.icalendar.property import Property
from pycalendar.parameter import Parameter
p = Property("X-A", "v")
p.addParameter(Parameter("X-P", ":x"))
q = Property.parseText(p.getText().rstrip("\\r\\n"))
assert q.getParameterValue("X-P") == ":x" and q.getText() == p.getText()
''', needs="a parameter value that starts with a colon and has no other delimiter", breaks="the value ends the parameter and becomes part of the property value"),
dict(id="p18-param-list", prop="P18", file=P+"property.py",
 edits=[("""                    values = value if isinstance(value, list) else [value]
""", """                    values = value if isinstance(value, list) else value.split(",")
""")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "ATTENDEE;CN=\\"Doe, John\\":mailto:a@example.com"))
d = Calendar.parseJSONData(c.getTextJSON())
assert c == d and c.getText() == d.getText(), d.getText()
''', needs="a parameter with one value that contains a comma", breaks="it comes back from jCal as several values"),
dict(id="p18-until-date", prop="P18", file=P+"icalendar/recurrence.py",
 edits=[("""                value = value.replace("-", "").replace(":", "")
""", """                value = value.replace("-", "").replace(":", "").rstrip("Z")
""")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "RRULE:FREQ=DAILY;UNTIL=20200105T100000Z"))
d = Calendar.parseJSONData(c.getTextJSON())
assert c.getText() == d.getText(), d.getText()
''', needs="a recurrence that ends at a UTC time", breaks="the end comes back from jCal as a floating time"),
dict(id="p19-tail", prop="P19", file=P+"containerbase.py",
 edits=[("                # Unrecognized data\n                else:\n                    raise InvalidData(\"%s data not recognized\" % (self.sContainerDescriptor,), line)\n", "                # Unrecognized data\n                elif not result or line.startswith(\"BEGIN:\"):\n                    raise InvalidData(\"%s data not recognized\" % (self.sContainerDescriptor,), line)\n")],
 demo=CAL+'''
try:
    Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nEND:VCALENDAR\\r\\nX-LOST:1\\r\\n")
except ErrorBase:
    pass
else:
    assert False, "stray data accepted"
''', needs="stray data after the end of the calendar", breaks="it is silently dropped"),
dict(id="p22-alarm-interval", prop="P22", file=P+"icalendar/valarm.py",
 edits=[("        other.mTriggerOn = self.mTriggerOn.duplicate()\n", "        other.mTriggerOn = self.mTriggerOn\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z").replace("END:", "BEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:x\\r\\nTRIGGER;VALUE=DATE-TIME:20200101T090000Z\\r\\nEND:VALARM\\r\\nEND:"))
d = c.duplicate()
a, b = [x.getComponents("VEVENT")[0].getComponents("VALARM")[0] for x in (c, d)]
a.getTriggerOn().offsetHours(3)
assert b.getTriggerOn().getText() == "20200101T090000Z", b.getTriggerOn().getText()
''', needs="an alarm with an absolute trigger whose time is changed in place after copying", breaks="the copy's trigger changes too"),
dict(id="p22-rule-byday", prop="P22", file=P+"icalendar/recurrence.py",
 edits=[("            other.mByMonthDay = self.mByMonthDay[:]\n", "            other.mByMonthDay = self.mByMonthDay\n")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence.parseText("FREQ=MONTHLY;BYMONTHDAY=1,2")
s = r.duplicate()
s.getByMonthDay().append(3)
assert r.getText() == "FREQ=MONTHLY;BYMONTHDAY=1,2", r.getText()
''', needs="changing the list of month days of a copied rule in place", breaks="the original rule changes too"),
dict(id="p23-strip-by-definition", prop="P23", file=P+"timezonedb.py",
 edits=[("            self.tzcache[tzid] = tz\n", "            if tz is not None:\n                self.tzcache[tzid] = tz\n"), ("        return self.tzcache[tzid]\n", "        return self.tzcache.get(tzid) or self.calendar.getTimezone(tzid)\n"), ("        if tzid in self.stdtzcache:\n            return True\n        elif tzid in self.notstdtzcache:\n            return False\n        else:\n            self._getTimezone(tzid)\n            return tzid in self.stdtzcache\n", "        self._getTimezone(tzid)\n        return tzid in self.stdtzcache and tzid in self.tzcache\n"), ("    def mergeTimezone(self, tz):\n        \"\"\"\n        If the supplied VTIMEZONE is not in our cache then store it in memory.\n        \"\"\"\n\n        if self._getTimezone(tz.getID()) is None:\n", "    def mergeTimezone(self, tz):\n        \"\"\"\n        If the supplied VTIMEZONE is not in our cache then store it in memory.\n        \"\"\"\n\n        if tz.getID() not in self.tzcache:\n")],
 demo='''
import tempfile, shutil
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
def vtz(n, o):
    return "BEGIN:VTIMEZONE\\r\\nTZID:%s\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\nTZOFFSETFROM:%s\\r\\nTZOFFSETTO:%s\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\n" % (n, o, o)
def cal(x):
    return "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + x + "END:VCALENDAR\\r\\n"
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "A.ics"), "w").write(cal(vtz("A", "+0100")))
    TimezoneDatabase.createTimezoneDatabase(d)
    Calendar.parseText(cal(vtz("A", "+0500")))
    assert "+0100" in TimezoneDatabase.getTimezone("A").getText()
    assert TimezoneDatabase.isStandardTimezone("A")
finally:
    shutil.rmtree(d)
''', needs="loading a calendar that carries its own definition of a standard id before that id was ever looked up", breaks="the supplied definition shadows the standard one"),
dict(id="p24-tentative-override", prop="P24", file=P+"icalendar/calendar.py",
 edits=[("            transp = comp.getOwner().getPropertyString(definitions.cICalProperty_TRANSP)\n", "            transp = comp.getMaster().getPropertyString(definitions.cICalProperty_TRANSP)\n")] if False else [("            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:\n", "            if transp == definitions.cICalProperty_TRANSPARENT:\n")],
 demo='''
''', needs="", breaks=""),
dict(id="p25-multi-version", prop="P25", file=P+"vcard/card.py",
 edits=[("                    # Change state\n                    card = Card(add_defaults=False)\n", "                    # Change state\n                    card = Card(add_defaults=len(results) > 1)\n")],
 demo='''
from pycalendar.vcard.card import Card
t = "BEGIN:VCARD\\r\\nVERSION:3.0\\r\\nN:a;b\\r\\nFN:a\\r\\nEND:VCARD\\r\\n"
l = Card.parseMultipleData(t * 3, Card.sFormatText)
assert l[0] == l[1] == l[2]
''', needs="a stream of at least three cards", breaks="cards after the second get properties they do not have"),
dict(id="p25-photo-fold", prop="P25", file=P+"vcard/property.py",
 edits=[("            while(value_len > 72):\n", "            while(value_len > 73):\n")],
 demo='''
from pycalendar.vcard.card import Card
import base64
for n in range(40, 70):
    t = "BEGIN:VCARD\\r\\nVERSION:3.0\\r\\nN:a;b\\r\\nFN:a\\r\\nPHOTO;ENCODING=B:%s\\r\\nEND:VCARD\\r\\n" % ("QUJD" * n,)
    c = Card.parseText(t)
    d = Card.parseText(c.getText())
    assert c == d
    assert c.findFirstProperty("PHOTO").getValue().getText() == "QUJD" * n
    assert max([len(l) for l in c.getText().split("\\r\\n")]) <= 73
''', needs="", breaks=""),
dict(id="p27-filter-case", prop="P27", file=P+"outputfilter.py",
 edits=[("        if self.mAllProperties:\n            return True, False\n", "        if self.mAllProperties or not self.mProperties:\n            return self.mAllProperties or self.mProperties is not None, False\n"), ("        return result is not None, result\n", "        return bool(result) or result is not None and len(self.mProperties) > 0, bool(result) and name in self.mProperties\n")] if False else [("        if self.mProperties is None:\n            self.mProperties = {}\n", "        if not self.mProperties:\n            self.mProperties = {}\n            self.mAllProperties = False\n"), ("        self.mProperties[name] = no_value\n", "        self.mProperties[name] = no_value or None\n"), ("        result = self.mProperties.get(name, None)\n        return result is not None, result\n", "        return name in self.mProperties, self.mProperties.get(name) is not None or len(self.mProperties) > 3\n")],
 demo=CAL+'''
from pycalendar.outputfilter import OutputFilter
import cStringIO
f = OutputFilter("VCALENDAR")
f.setAllProperties()
s = OutputFilter("VEVENT")
for n in ("UID", "SUMMARY", "DTSTART", "DTEND"):
    s.addProperty(n, False)
f.addSubComponent(s)
o = cStringIO.StringIO()
cal(ev("UID:1", "SUMMARY:s", "DTSTART:20200101T100000Z")).generateFiltered(o, f)
assert "UID:1\\r\\n" in o.getvalue(), o.getvalue()
''', needs="a filter that names more than three properties", breaks="values of properties that should be written whole are suppressed"),
dict(id="p27-nested-all", prop="P27", file=P+"componentbase.py",
 edits=[("            # Shortcut for all sub-components\n            if filter.isAllSubComponents():\n                self.writeComponentsJSON(jobject)\n", "            # Shortcut for all sub-components\n            if filter.isAllSubComponents() or filter.isAllProperties() and filter.getType() != self.getType():\n                self.writeComponentsJSON(jobject)\n"), ("                    subfilter = filter.getSubComponentFilter(subcomp.getType())\n                    if subfilter is not None:\n                        subcomp.writeJSONFiltered(jobject, subfilter)\n", "                    subfilter = filter.getSubComponentFilter(subcomp.getType())\n                    if subfilter is None and subcomp.mComponents:\n                        subfilter = filter if filter.testSubComponent(subcomp.mComponents[0].getType()) else None\n                    if subfilter is not None:\n                        subcomp.writeJSONFiltered(jobject, subfilter)\n")],
 demo=CAL+'''
from pycalendar.outputfilter import OutputFilter
f = OutputFilter("VCALENDAR")
f.setAllProperties()
s = OutputFilter("VALARM")
s.setAllProperties()
f.addSubComponent(s)
j = []
cal(ev("UID:1", "DTSTART:20200101T100000Z").replace("END:", "BEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:x\\r\\nTRIGGER:-PT5M\\r\\nEND:VALARM\\r\\nEND:")).writeJSONFiltered(j, f)
assert j[0][2] == [], j
''', needs="a filter that selects a type which occurs only one level deeper than the filter says", breaks="the component around it is written although it was not selected"),
dict(id="p28-multi-param", prop="P28", file=P+"parameter.py",
 edits=[("        for value in self.getValues():\n", "        for value in sorted(set(self.getValues())):\n")],
 demo=CAL+'''
t = cal(ev("UID:1", "DTSTART:20200101T100000Z", "ATTENDEE;MEMBER=\\"mailto:z@x.org\\",\\"mailto:a@x.org\\",\\"mailto:z@x.org\\":mailto:b@x.org")).getTextXML()
assert t.count("mailto:z@x.org") == 2, t
''', needs="a parameter with several values of which two are equal or out of order", breaks="a value is missing from the XML, or they are in another order"),
dict(id="p28-byday-xml", prop="P28", file=P+"icalendar/recurrence.py",
 edits=[("                byday = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_byday))\n                data = \"\"\n                if iter[0] != 0:\n", "                byday = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_byday))\n                data = \"\"\n                if iter[0] > 0 or iter[0] == -1:\n")],
 demo=CAL+'''
t = cal(ev("UID:1", "DTSTART:20200101T100000Z", "RRULE:FREQ=MONTHLY;BYDAY=-2MO")).getTextXML()
assert "-2MO" in t, t
''', needs="a rule with a weekday counted from the end, other than the last", breaks="the XML says every such weekday"),
dict(id="p29-repeat-from-first", prop="P29", file=P+"icalendar/valarm.py",
 edits=[("            self.mNextTrigger = self.mLastTrigger + self.mRepeatInterval\n", "            self.mNextTrigger = self.mNextTrigger + self.mRepeatInterval if self.mDoneCount else self.mLastTrigger + self.mRepeatInterval\n")] if False else [("        # Add new\n        if self.mRepeats > 0:\n            self.addProperty(Property(definitions.cICalProperty_REPEAT, repeat))\n", "        # Add new\n        if self.mRepeats > 1:\n            self.addProperty(Property(definitions.cICalProperty_REPEAT, repeat))\n")],
 demo=CAL+'''
from pycalendar.duration import Duration
from pycalendar.icalendar.valarm import VAlarm
c = cal(ev("UID:1", "DTSTART:20200101T100000Z").replace("END:", "BEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:x\\r\\nTRIGGER:-PT5M\\r\\nEND:VALARM\\r\\nEND:"))
c.getComponents("VEVENT")[0].getComponents("VALARM")[0].editRepeats(1, Duration(minutes=7))
a = Calendar.parseText(c.getText()).getComponents("VEVENT")[0].getComponents("VALARM")[0]
assert a.getRepeats() == 1 and a.getInterval().getTotalSeconds() == 420
''', needs="editing an alarm to repeat exactly once", breaks="the repeat is not written"),
dict(id="p29-end-without-end", prop="P29", file=P+"icalendar/valarm.py",
 edits=[("                    if temp == definitions.cICalParameter_RELATED_START:\n                        self.mTriggerOnStart = True\n                    elif temp == definitions.cICalParameter_RELATED_END:\n                        self.mTriggerOnStart = False\n", "                    if temp == definitions.cICalParameter_RELATED_START:\n                        self.mTriggerOnStart = True\n                    elif temp == definitions.cICalParameter_RELATED_END and temp2.getTotalSeconds() != 0:\n                        self.mTriggerOnStart = False\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "DTEND:20200101T110000Z").replace("END:VEVENT", "BEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:x\\r\\nTRIGGER;RELATED=END:PT0S\\r\\nEND:VALARM\\r\\nEND:VEVENT"))
a = c.getComponents("VEVENT")[0].getComponents("VALARM")[0]
d = DateTime()
a.getFirstTrigger(d)
assert d.getText() == "20200101T110000Z", d.getText()
''', needs="an alarm related to the end with an offset of zero", breaks="it triggers at the start"),
dict(id="p20-card-unsorted", prop="P20", file=P+"componentbase.py",
 edits=[("            if self.countProperty(propname) > 1:  # Cannot be fixed - no idea which one to delete\n", "            if self.countProperty(propname) == 2:  # Cannot be fixed - no idea which one to delete\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "SUMMARY:a", "SUMMARY:b", "SUMMARY:c"))
assert c.validate()[1] != []
''', needs="three occurrences of a property that may occur once", breaks="no problem is reported"),
dict(id="p20-sub-problems", prop="P20", file=P+"componentbase.py",
 edits=[("            morefixed, moreunfixed = component.validate(doFix)\n            fixed.extend(morefixed)\n            unfixed.extend(moreunfixed)\n", "            morefixed, moreunfixed = component.validate(doFix)\n            fixed.extend(morefixed)\n            unfixed.extend([i for i in moreunfixed if i not in unfixed])\n")],
 demo=CAL+'''
e = "BEGIN:VEVENT\\r\\nUID:%d\\r\\nDTSTART:20200101T100000Z\\r\\nEND:VEVENT\\r\\n"
assert len(cal(e % 1, e % 2).validate()[1]) == 2
''', needs="the same problem in two components", breaks="only one of them is reported"),
dict(id="p21-keeps-dtend", prop="P21", file=P+"icalendar/componentrecur.py",
 edits=[("                        if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:\n                            self.removeProperties(propname)\n", "                        if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:\n                            while self.countProperty(propname) > 1:\n                                self.removeProperty(self.getProperties(propname)[-1])\n                            self.removeProperty(prop)\n")],
 demo=CAL+'''
c = cal(ev("UID:1", "DTSTART:20200101T100000Z", "STATUS:CONFIRMED", "STATUS:CANCELLED"))
c.validate(doFix=True)
assert c.validate() == ([], []), c.getText()
assert c.getText().count("STATUS") == 1
''', needs="a cancelled status after another one", breaks="repair leaves two statuses"),
dict(id="p21-until-year", prop="P21", file=P+"icalendar/componentrecur.py",
 edits=[("                                rrule.getUntil().setHHMMSS(dtutc.getHours(), dtutc.getMinutes(), dtutc.getSeconds())\n", "                                rrule.getUntil().setHHMMSS(self.mStart.getHours(), dtutc.getMinutes(), dtutc.getSeconds())\n")],
 demo=CAL+'''
tz = "BEGIN:VTIMEZONE\\r\\nTZID:A\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\nTZOFFSETFROM:+0300\\r\\nTZOFFSETTO:+0300\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\n"
c = cal(tz, ev("UID:1", "DTSTART;TZID=A:20200101T100000", "RRULE:FREQ=DAILY;UNTIL=20200105"))
c.validate(doFix=True)
assert "UNTIL=20200105T070000Z" in c.getText(), c.getText()
''', needs="a date-only UNTIL of an event in a timezone other than UTC", breaks="the repaired end of the recurrence is off by the UTC offset"),
]
S=[s for s in S if s["needs"]]
