Z="src/zonal/"
HEAD='''
from zonal.rule import Rule, RuleSet
from zonal.zone import Zone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
def zone(text, *sets):
    z = Zone()
    z.parse(text)
    rules = {}
    for s in sets:
        r = RuleSet()
        r.parse(s)
        rules[r.name] = r
    return z, rules
def off(z, rules, lo, hi, *args):
    c = Calendar()
    v = z.vtimezone(c, rules, lo, hi)
    c.addComponent(v)
    v = Calendar.parseText(c.getText()).getComponents("VTIMEZONE")[0]
    return v.getTimezoneOffsetSeconds(DateTime(*args, tzid=Timezone(utc=True)), True)
'''
S=[
dict(id="p26-until-saving", prop="P26", file=Z+"zone.py",
 edits=[("            lastUntilDateUTC = lastUntilDate.getUTC(last_offset, last_stdoffset)\n","            lastUntilDateUTC = lastUntilDate.getUTC(last_stdoffset, last_stdoffset)\n")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t0:30\\t-\\tLMT\\t1920\\n\\t\\t\\t1:00\\tX\\tA%sT\\t1990 Jul 10 0:00\\n\\t\\t\\t3:00\\t-\\tB",
    "Rule\\tX\\t1970\\tmax\\t-\\tApr\\t5\\t2:00\\t1:00\\tD\\nRule\\tX\\t1970\\tmax\\t-\\tOct\\t5\\t2:00\\t0\\tS")
assert off(z, r, 1800, 2000, 1990, 7, 9, 22, 30, 0) == 10800
''', needs="a zone line that ends in wall-clock time while summer time is in force", breaks="the line ends an hour late"),
dict(id="p26-standard-mode", prop="P26", file=Z+"utils.py",
 edits=[("        elif self.mode == \"s\":\n            new_dt.offsetSeconds(-stdoffset)\n","        elif self.mode == \"s\" and stdoffset >= 0:\n            new_dt.offsetSeconds(-stdoffset)\n")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t-3:00\\tX\\tA%sT",
    "Rule\\tX\\t1970\\tmax\\t-\\tApr\\t5\\t2:00\\t1:00\\tD\\nRule\\tX\\t1970\\tmax\\t-\\tOct\\t5\\t2:00s\\t0\\tS")
assert off(z, r, 1800, 2000, 1990, 10, 5, 4, 30, 0) == -7200
assert off(z, r, 1800, 2000, 1990, 10, 5, 5, 0, 0) == -10800
''', needs="a zone west of Greenwich whose summer time ends at a standard time", breaks="the end of summer time is an hour early"),
dict(id="p26-same-pair", prop="P26", file=Z+"zone.py",
 edits=[("                        offsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)\n","                        offsetPair = (lastOffsetPair[0], rulemap[tzrule][index][2],)\n")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t1:00\\tX\\tA%sT",
    "Rule\\tX\\t1970\\t1980\\t-\\tApr\\t5\\t2:00\\t1:00\\tD\\nRule\\tX\\t1981\\t1990\\t-\\tApr\\t5\\t2:00\\t2:00\\tD\\nRule\\tX\\t1970\\t1990\\t-\\tOct\\t5\\t2:00\\t0\\tS")
assert off(z, r, 1800, 2000, 1985, 10, 4, 23, 30, 0) == 3600
assert off(z, r, 1800, 2000, 1975, 10, 4, 23, 30, 0) == 7200
''', needs="a rule whose instances start from different offsets because another rule of the set changed", breaks="the later instances of the rule happen at the wrong time"),
dict(id="p26-start-of-line", prop="P26", file=Z+"zone.py",
 edits=[("                if dtutc >= lastUntilUTC:\n                    if not found_start and dtutc != lastUntilUTC:","                if dtutc.getYear() >= lastUntilUTC.getYear() and dtutc >= lastUntilUTC:\n                    if not found_start and dtutc.getYear() != lastUntilUTC.getYear():")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t0:30\\t-\\tLMT\\t1920\\n\\t\\t\\t1:00\\t-\\tB\\t1990 Feb 10 0:00\\n\\t\\t\\t3:00\\tX\\tA%sT",
    "Rule\\tX\\t1970\\tmax\\t-\\tApr\\t5\\t2:00\\t1:00\\tD\\nRule\\tX\\t1970\\tmax\\t-\\tOct\\t5\\t2:00\\t0\\tS")
assert off(z, r, 1800, 2000, 1990, 3, 1, 0, 0, 0) == 10800
''', needs="a line under rules that starts in a year before the first onset of that year", breaks="the new offset is used from that onset only"),
dict(id="p26-until-instant", prop="P26", file=Z+"rule.py",
 edits=[("                until.offsetSeconds(-offsetfrom)\n","                until.offsetSeconds(-offsetfrom if offsetto > offsetfrom else -offsetto)\n")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t1:00\\tX\\tA%sT",
    "Rule\\tX\\t1970\\t1980\\t-\\tApr\\t5\\t2:00\\t0\\tS\\nRule\\tX\\t1970\\t1980\\t-\\tOct\\t5\\t2:00\\t-1:00\\tD")
assert [off(z, r, 1800, 2000, y, 11, 1, 0, 0, 0) for y in (1975, 1979, 1980)] == [0, 0, 0]
c = Calendar()
t = z.vtimezone(c, r, 1800, 2000).getText()
assert "UNTIL=19801005T000000Z" in t, t
''', needs="the recurrence of the rule that goes back to a smaller offset", breaks="UNTIL is an hour later than the last onset"),
dict(id="p26-compress", prop="P26", file=Z+"zone.py",
 edits=[("                item.getUTCOffset(),\n                item.getUTCOffsetFrom(),\n","                item.getUTCOffset(),\n")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t0:30\\t-\\tLMT\\t1920\\n\\t\\t\\t1:00\\t-\\tB\\t1930\\n\\t\\t\\t2:00\\t-\\tC\\t1940\\n\\t\\t\\t3:00\\t-\\tD\\t1950\\n\\t\\t\\t2:00\\t-\\tC")
assert off(z, r, 1800, 2000, 1949, 12, 31, 21, 30, 0) == 7200
assert off(z, r, 1800, 2000, 1949, 12, 31, 20, 59, 59) == 10800
assert off(z, r, 1800, 2000, 1929, 12, 31, 23, 0, 0) == 7200
assert off(z, r, 1800, 2000, 1929, 12, 31, 22, 30, 0) == 3600
''', needs="two single transitions to the same offset and abbreviation from different offsets", breaks="one of them happens at the wrong time"),
dict(id="p26-rule-order", prop="P26", file=Z+"zone.py",
 edits=[("        transitions.sort(cmp=lambda x, y: x[0].compareDateTime(y[0]))\n","        transitions.sort(cmp=lambda x, y: cmp(x[0].getYear(), y[0].getYear()))\n")],
 demo=HEAD+'''
z, r = zone("Zone A/B\\t0:30\\t-\\tLMT\\t1920\\n\\t\\t\\t1:00\\tX\\tA%sT\\t1990 Jul 10 0:00\\n\\t\\t\\t3:00\\t-\\tB",
    "Rule\\tX\\t1970\\tmax\\t-\\tApr\\t5\\t2:00\\t1:00\\tD\\nRule\\tX\\t1970\\tmax\\t-\\tOct\\t5\\t2:00\\t0\\tS")
e = z.expand(r, 1800, 2000)
assert all([a[0] < b[0] for a, b in zip(e, e[1:])])
''', needs="never", breaks="nothing"),
dict(id="p26-eq-letter", prop="P26", file=Z+"rule.py",
 edits=[("            self.saveTime == other.saveTime and\n            self.letter == other.letter\n","            self.saveTime == other.saveTime\n")],
 demo=HEAD+'''
a, b = Rule(), Rule()
a.parse("Rule\\tX\\t1970\\tmax\\t-\\tApr\\t5\\t2:00\\t1:00\\tD")
b.parse("Rule\\tX\\t1970\\tmax\\t-\\tApr\\t5\\t2:00\\t1:00\\tS")
assert a != b
''', needs="two rules that differ in their letter only", breaks="they compare equal"),
]
S=[s for s in S if s["id"] not in ("p26-rule-order","p26-eq-letter")]
