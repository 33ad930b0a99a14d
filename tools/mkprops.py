#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as one readable source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "src/pycalendar/"
I = S + "icalendar/"
V = S + "vcard/"

prop("P01", "Calendar date arithmetic follows the Gregorian calendar",
 "Moving a date or date-time by any number of years, months, days, hours, minutes or seconds, setting its year-day, month-day, n-th weekday of month or year, next weekday or ISO week, or adding or subtracting a duration always yields the calendar-valid date-time the Gregorian calendar prescribes (overflowing days roll into following or preceding months). Day of week, day of year, ISO week number and validity of any date in the years 1753 to 9999 agree with the same calendar.",
 ["inputs", "histories"], "every date 1753..9999, every offset (positive, negative, multi-year), every sequence of such operations on one value",
 "Tests sample a few dates between 2009 and 2016; errors at century years, leap days, year ends and negative offsets are outside them.",
 [S + "datetime.py", S + "utils.py"],
 [("field normalisation", S + "datetime.py: DateTime.normalise"), ("leap-day counting", S + "utils.py: leapDaysSince1970, isLeapYear"),
  ("relative setters", S + "datetime.py: setYearDay, setMonthDay, setDayOfWeekInMonth, setDayOfWeekInYear, setWeekNo")],
 [("date fields", "year, month, day, hours, minutes, seconds", S + "datetime.py: DateTime.__init__")],
 ["DateTime.getText after each operation", "getDayOfWeek/getYearDay/getWeekNo"])

prop("P02", "Date-time order, equality, hash and difference agree with absolute time",
 "For date-times of one kind (all floating, or all zoned/UTC, or all dates) comparison is a total order that agrees with the instant each value denotes, equal values hash equally, and the difference of two values added back to the second gives the first (in UTC, floating or fixed-offset time). This holds after any sequence of changes to a value: no earlier query, copy or conversion may leave a stale instant behind, and converting a value to UTC or to another timezone never changes the instant it denotes. A floating value compared with, or subtracted from, one with a zone counts as being in that zone.",
 ["histories", "inputs"], "all sequences of setters, offsets, timezone changes, conversions, copies and queries over one or more values",
 "Tests mutate a value once or twice and then query it; the cached instant/offset can go stale only for particular query-mutate-query sequences.",
 [S + "datetime.py", S + "timezone.py", S + "duration.py"],
 [("instant cache invalidation", S + "datetime.py: changed, getPosixTime, adjustToUTC"), ("comparison", S + "datetime.py: compareDateTime, __hash__, __sub__")],
 [("cached instant", "instant memoised until the value changes", S + "datetime.py: mPosixTime, mPosixTimeCached, mTZOffset")],
 ["DateTime.getPosixTime", "comparison operators", "hash()"])

prop("P03", "Value text forms parse to their meaning, round-trip, and reject garbage",
 "Every date, date-time, duration, period, UTC offset, integer and float in its iCalendar text form parses to the value it denotes, and generating that value gives text that parses to an equal value. Ill-formed texts (missing or extra characters, wrong designators, bad digits) are rejected with an error instead of yielding a wrong value.",
 ["inputs"], "all values of each type; all single-character corruptions of well-formed texts",
 "Tests list a dozen texts per type.",
 [S + "datetime.py", S + "duration.py", S + "period.py", S + "utcoffsetvalue.py", S + "integervalue.py", S + "floatvalue.py", S + "stringutils.py", S + "geovalue.py", I + "requeststatusvalue.py"],
 [("value parsers", S + "datetime.py: parse; duration.py: parse; period.py: parse; utcoffsetvalue.py: parse"), ("generators", "same files: getText/generate")],
 None, ["parseText(...), getText()"])

prop("P04", "Durations and periods obey interval algebra",
 "A duration built from seconds, parsed or negated keeps its exact length, and its components recombine to that length. A period's start, end and duration always satisfy start + duration = end however the period was given or switched between forms; containment, before, after and overlap of periods follow half-open intervals, and periods sort by start then end.",
 ["inputs", "histories"], "all durations (including zero, negative and week forms) and all pairs of periods, given by end or by duration, in any order of form switches and queries",
 "Tests cover parsing of a handful of durations and one period operation.",
 [S + "duration.py", S + "period.py"],
 [("duration components", S + "duration.py: setDuration, getTotalSeconds"), ("period end/duration laziness", S + "period.py: getEnd, getDuration, setUseDuration"), ("interval predicates", S + "period.py: isDateWithinPeriod, isPeriodOverlap")],
 None, ["Period predicates", "Duration.getTotalSeconds"])

prop("P05", "Timezone offsets are those of the governing observance",
 "For any timezone definition, the UTC offset and abbreviation reported for a local or UTC time are those of the observance whose latest transition is at or before that time, whether given by RRULE, RDATE or a single start. Converting a UTC time to the zone and back is the identity unless its local time is one that occurs twice, as is converting an unambiguous existing local time to UTC and back; and a range expansion lists exactly the transitions in the range with correct offsets before and after.",
 ["inputs", "configurations"], "all observance configurations (several STANDARD/DAYLIGHT parts, RRULE with or without UNTIL, RDATE, one-off), all query times including the transitions themselves, the gap and the repeated hour",
 "Tests check a few times in a few well-known zones.",
 [I + "vtimezone.py", I + "vtimezoneelement.py", S + "timezone.py", S + "datetime.py"],
 [("transition search", I + "vtimezone.py: getTimezoneOffsetSeconds, findTimezoneElement; vtimezoneelement.py: expandBelow"), ("conversion", S + "datetime.py: adjustTimezone, adjustToUTC")],
 [("transition cache", "expanded transitions of the zone", I + "vtimezone.py: mCachedExpandAllMax..., vtimezoneelement.py: mCachedExpandBelow")],
 ["Timezone.timeZoneSecondsOffset", "DateTime.adjustTimezone"])

prop("P06", "Timezone answers do not depend on what was asked before",
 "Whatever queries were made earlier - other times, ranges, conversions, in any order, on the definition or on a copy of it - a timezone definition answers each query as a freshly loaded copy would.",
 ["histories"], "all sequences of offset, abbreviation, expansion and conversion queries on one timezone object",
 "Caches are extended by query history; tests query each zone in one fixed order.",
 [I + "vtimezone.py", I + "vtimezoneelement.py"],
 [("offset caches", I + "vtimezone.py: mCachedOffsets, mCachedExpandAll; vtimezoneelement.py: mCachedExpandBelow, mCachedExpandBelowItems")],
 [("caches", "memoised expansions and offsets", I + "vtimezone.py, vtimezoneelement.py")],
 ["query results against a fresh copy"])

prop("P07", "Recurrence rules expand to the RFC 5545 recurrence set",
 "For a start value and a recurrence rule, the start together with the expansion over a range is exactly the start plus the set of date-times the RFC 5545 tables prescribe for FREQ, INTERVAL, BYMONTH, BYWEEKNO, BYYEARDAY, BYMONTHDAY, BYDAY, BYHOUR, BYMINUTE, BYSECOND, BYSETPOS and WKST that fall in the range, none missing, duplicated or invalid. COUNT counts the start as the first instance, UNTIL is inclusive, and the result says whether the range cut the set off.",
 ["inputs"], "all rules in the RFC 5545 expand/limit table with positive week numbers, all starts and ranges, floating, UTC and date-only",
 "The rule space is combinatorial; the tests expand about fifteen rules.",
 [I + "recurrence.py", S + "datetime.py"],
 [("simple and complex expansion", I + "recurrence.py: simpleExpand, complexExpand, generate*Set, by*Expand, by*Limit"), ("stepping", S + "datetime.py: recur")],
 None, ["Recurrence.expand"])

prop("P08", "Recurrence expansion does not depend on earlier expansions or edits",
 "Expanding a rule gives the same instances whatever ranges, starts and instance limits were used in earlier expansions of the same object or of the object it was copied from, including expansions aborted for too many instances, and after any change made through the setters it is as for a new rule with those parts; the rule never reports itself completely expanded while instances lie outside. Removing the instances from a given time on leaves exactly the earlier ones. Values handed out by an earlier expansion can be modified without affecting later ones.",
 ["histories"], "all interleavings of expand (any start, range, limit), setter calls, copies and aborted expansions",
 "The cache is reused or extended only for particular sequences of ranges; tests expand in growing or single order.",
 [I + "recurrence.py", I + "recurrenceset.py"],
 [("expansion cache", I + "recurrence.py: expand, clear, _setAndclearIfChanged")],
 [("rule cache", "mRecurrences, mCached, mCacheStart, mCacheUpto, mFullyCached", I + "recurrence.py: init_Recurrence")],
 ["Recurrence.expand results"])

prop("P09", "Recurrence rule values round-trip and compare by meaning",
 "Parsing a recurrence rule text, copying it, or writing it as iCalendar text or jCal and reading it back always gives an equal rule with the same parts, independent of part order. Rules differing in any part are unequal, and texts with unknown parts, out-of-range numbers, repeated BY parts or both COUNT and UNTIL are rejected.",
 ["inputs"], "all combinations of rule parts and values, and single-part corruptions",
 "Tests round-trip a short list of rule texts.",
 [I + "recurrence.py"],
 [("rule text and jCal", I + "recurrence.py: parse, generate, parseJSON, writeJSON, duplicate, equals")],
 None, ["Recurrence.parseText/getText", "writeJSON/parseJSON"])

prop("P10", "A recurrence set is (start, RRULEs, RDATEs) minus (EXRULEs, EXDATEs)",
 "The expansion of a recurrence set over a range is, in time order and without repeats, the start and all instances of inclusion rules, dates and periods in the range, except those produced by exclusion rules, dates and periods. Limiting the number of instances raises an error exactly when a rule or the collected set exceeds it, and comparing two recurrence sets tells whether they hold the same rules, dates and periods.",
 ["inputs", "histories"], "all combinations of rules, dates, periods and exclusions, all ranges",
 "Tests expand a couple of events with one EXDATE.",
 [I + "recurrenceset.py", I + "componentrecur.py", S + "utils.py"],
 [("set expansion", I + "recurrenceset.py: expand; utils.py: set_difference")],
 None, ["RecurrenceSet.expand"])

prop("P11", "Expanding a calendar gives each occurrence once, from override or master",
 "Expanding the events of a calendar over a range returns, in start order (whole-day ones first when asked), every occurrence overlapping the range exactly once with its right start and end: occurrences of non-recurring events, of masters where not replaced or excluded, and overridden occurrences with the override's own data and times in place of the master's.",
 ["inputs", "histories"], "all calendars of recurring masters (RRULE, RDATE, EXDATE, DTEND or DURATION, timed or all-day), overrides (in or out of the range, moved or not) and plain events; all ranges",
 "Tests expand one or two calendars without overrides.",
 [I + "calendar.py", I + "componentrecur.py", I + "componentexpanded.py", I + "vevent.py"],
 [("expansion with overrides", I + "componentrecur.py: expandPeriod; calendar.py: getVEvents"), ("instance times", I + "componentexpanded.py: initFromMaster/initFromSlave")],
 None, ["Calendar.getVEvents"])

prop("P12", "Component start, end and duration are derived consistently",
 "For every event, to-do or journal loaded from text or re-timed through the editing calls, its effective start, end, duration and all-day status follow RFC 5545: explicit end wins, else start plus duration, else a whole day for dates and zero length for date-times. Re-timing, or editing the recurrence, leaves exactly the properties that describe the new state, which survive writing and reading back.",
 ["inputs", "histories"], "all combinations of DTSTART, DTEND/DUE, DURATION in date, floating, UTC and zoned form; all sequences of timing edits",
 "Tests build a few events with one form.",
 [I + "componentrecur.py", I + "vevent.py", I + "vtodo.py"],
 [("timing derivation", I + "componentrecur.py: _processProperties/finalise, vtodo.py: finalise"), ("editing", I + "componentrecur.py: editTiming")],
 None, ["getStart/getEnd/getDuration", "text after edit"])

prop("P13", "The calendar index always matches the stored components",
 "After any sequence of adding, removing, copying, re-identifying components and reading text into a calendar, looking up masters and overrides by UID and recurrence id returns exactly the components present: and nothing removed can still be found or expanded. The text generated lists exactly those components.",
 ["histories"], "all sequences of add/remove/change-UID/duplicate/clear over several UIDs with masters and overrides in any arrival order",
 "Tests do single adds and a removal; index entries go stale only in longer sequences.",
 [I + "calendar.py", I + "componentrecur.py", S + "componentbase.py"],
 [("index maintenance", I + "calendar.py: addComponent, removeComponent, changeUID, removeAllComponent")],
 [("index", "master and override maps by UID", I + "calendar.py: mMasterComponentsByTypeAndUID, mOverriddenComponentsByUID")],
 ["getComponents, getRecurrenceInstances", "Calendar.getText"])

prop("P14", "Deriving an occurrence yields that instance of the master",
 "Deriving the occurrence for a recurrence id from a calendar gives a component with the properties and alarms of the calendar's master component minus its recurrence properties, start and end moved to that occurrence in the original timezone and value type with the original duration (the end given in the form the master gives it), and the matching recurrence id. The calendar is not changed by deriving, adding the result back changes no occurrence, and without a master nothing is derived.",
 ["inputs"], "all masters (timed, all-day, floating, UTC, zoned, with end, due, duration or neither), all occurrence ids in any timezone",
 "Tests derive occurrences of a handful of daily events.",
 [I + "calendar.py", I + "vevent.py", I + "componentrecur.py"],
 [("derivation", I + "calendar.py: deriveComponent, masterComponent")],
 None, ["Calendar.deriveComponent"])

prop("P15", "iCalendar text round-trips without loss",
 "Reading a calendar text and writing it out gives text that reads back to an equal calendar with the same components, properties, parameters and values, known or unknown, nested to any depth; and writing again gives identical text. Equal calendars written from differently ordered input have equal generated text up to the order of repeated properties and of the components that are deliberately kept in input order (unknown ones and the observances of a timezone).",
 ["inputs"], "all calendars built from known and unknown components, properties, parameters and value types",
 "Tests round-trip about twenty hand-written calendars.",
 [S + "containerbase.py", S + "componentbase.py", S + "property.py", I + "property.py", I + "calendar.py", S + "multivalue.py", S + "unknownvalue.py"],
 [("parse/generate", S + "containerbase.py: parse; componentbase.py: generate; property.py: parseText, generate")],
 None, ["Calendar.parseText/getText"])

prop("P16", "Long content lines fold and unfold without loss",
 "Any content line is written as physical lines of at most 75 octets, never split inside a UTF-8 character, and unfolding them gives back the original line. Reading accepts lines folded at any position with a space or tab and ended by CRLF or LF (the last line also by a lone CR or by the end of the data), and gives the same logical lines.",
 ["inputs"], "all lines of any length and mixture of 1-4 byte characters; all fold positions and line ends",
 "Tests fold one or two long lines.",
 [S + "property.py", S + "utils.py"],
 [("folding", S + "property.py: generate/generateFiltered"), ("unfolding", S + "utils.py: readFoldedLine")],
 None, ["Property.getText", "readFoldedLine"])

prop("P17", "Text and parameter values survive escaping and encoding",
 "Any text, text list or structured text value, and any parameter value, containing arbitrary characters is written in escaped form that reads back as the same value (line breaks inside a parameter value, of any form, as one newline), and cannot break out into another value, parameter or property. Invalid escape sequences and parameter syntax are rejected, repaired or ignored exactly as the configured parser mode says.",
 ["inputs", "configurations"], "all strings over special characters (backslash, comma, semicolon, colon, quote, caret, newline) for values, lists, and parameters; all parser modes",
 "Tests escape a few sample strings.",
 [S + "utils.py", S + "plaintextvalue.py", S + "textvalue.py", S + "parameter.py", S + "property.py", S + "multivalue.py", S + "stringutils.py"],
 [("escaping", S + "utils.py: writeTextValue, decodeTextValue, encodeParameterValue, decodeParameterValue, parseTextList, parseDoubleNestedList")],
 None, ["Property/Parameter getText and parseText"])

prop("P18", "jCal and iCalendar are interchangeable",
 "Writing any calendar (names in upper case, no parameter repeated, which jCal cannot tell apart) as jCal and reading it back gives a calendar equal to the original, and the jCal produced has the RFC 7265 shape: lower-case names, parameters, value type and value(s) per property. Reading the iCalendar text or the jCal of the same calendar gives the same text.",
 ["inputs"], "all calendars over the supported components, properties, parameters and value types, single and multi-valued",
 "Tests convert a fixed set of about ten documents.",
 [S + "componentbase.py", S + "property.py", S + "containerbase.py", S + "value.py", S + "multivalue.py"],
 [("jCal reading/writing", S + "componentbase.py: parseJSON, writeJSON; property.py: parseJSON, writeJSON")],
 None, ["Calendar.getTextJSON / parseJSONData"])

prop("P19", "The parser accepts exactly well-nested calendars",
 "Reading calendar text succeeds only if every component is opened and closed in proper nesting inside one calendar object; truncated input, mismatched or missing ends, stray data before or after, and blank lines are rejected or tolerated exactly as the parser mode says. On success the component tree mirrors the nesting of the text and no component or property is dropped or moved, and every failure is reported as an invalid-data error rather than a partial result.",
 ["inputs", "configurations", "fault_sequences"], "all sequences of BEGIN/END/property/blank/garbage lines, truncation at every line, all parser modes",
 "Tests feed a few malformed files.",
 [S + "containerbase.py", S + "parser.py", I + "calendar.py", V + "card.py"],
 [("structural parser", S + "containerbase.py: parse, validate; parser.py: ParserContext"), ("multi-object reading", I + "calendar.py: parseMultiple...; vcard/card.py: parseMultiple, parseMultipleData")],
 [("parse state", "component stack and reading state", S + "containerbase.py: parse")],
 ["Calendar.parseText result or InvalidData"])

prop("P20", "Validation reports exactly the violated rules",
 "Validating a calendar or card reports a problem for exactly those property-occurrence rules and value rules that it violates (required, at most one, at least one, exclusive pairs, allowed values), naming them, and reports nothing for a valid one. When asked to raise, it raises exactly when an unfixed problem remains.",
 ["inputs"], "all components with all occurrence counts 0..3 of each constrained property and all legal/illegal values",
 "Tests list sample violations per component.",
 [S + "validation.py", S + "validator.py", S + "componentbase.py", I + "component.py", I + "validation.py", I + "vevent.py", I + "vtodo.py", I + "valarm.py", V + "validation.py", V + "card.py"],
 [("cardinality tables", S + "componentbase.py: validate; icalendar/*.py: propertyCardinality_*"), ("value checks", I + "validation.py, " + V + "validation.py")],
 None, ["Calendar.validate / Card.validate"])

prop("P21", "Automatic repair makes data valid and is idempotent",
 "Validating with repair enabled leaves an object in which every problem it reported as fixed is gone and every remaining problem was reported as not fixed, whose answers (end, duration, status, recurrence) follow its repaired properties; it changes nothing when there is nothing to fix, and a second repair fixes nothing more. Validating without repair never changes the object.",
 ["inputs"], "all objects with any combination of violations",
 "Tests repair one violation at a time.",
 [S + "componentbase.py", I + "component.py", I + "vevent.py", I + "vtodo.py", I + "calendar.py", V + "card.py"],
 [("repair", S + "componentbase.py: validate(doFix)")],
 None, ["validate(doFix=True) followed by validate()"])

prop("P22", "Copies are equal to and independent of their original",
 "A copy of any calendar, component, property, value, rule, date-time, period, alarm or card is equal to its original, writes the same text, and no later change or query on either one affects what the other contains or answers.",
 ["histories", "inputs"], "all objects and all mutations applied to either side after copying",
 "Tests copy a few objects and never mutate deep parts afterwards.",
 [S + "componentbase.py", S + "property.py", S + "value.py", S + "datetime.py", I + "recurrence.py", I + "calendar.py"],
 [("deep copy", "duplicate() methods throughout src/pycalendar")],
 None, ["text/equality of both sides after mutation"])

prop("P23", "The timezone store serves the right definition for every id",
 "After any sequence of loading calendars, caching, adding, stripping, completing and clearing timezones, looking up an id returns the definition last added for it explicitly, else the standard one of the database directory, else the first one supplied by a loaded calendar, or nothing if it is unknown; standard definitions can be told apart from supplied ones. Stripping removes exactly the definitions of standard ids, completing adds exactly the referenced missing ones of the kind asked for, and lookups never read files outside the database directory.",
 ["histories", "inputs"], "all sequences of store operations over standard, non-standard, shadowing and unknown ids",
 "Tests run short fixed sequences.",
 [S + "timezonedb.py", I + "calendar.py", S + "timezone.py"],
 [("store", S + "timezonedb.py: getTimezone, addTimezone, mergeTimezones, cacheTimezone"), ("calendar side", I + "calendar.py: stripStandardTimezones, includeMissingTimezones, mergeTimezones")],
 [("store state", "tzcache, stdtzcache, notstdtzcache", S + "timezonedb.py")],
 ["TimezoneDatabase lookups", "Calendar.getText after strip/include"])

prop("P24", "Free-busy results cover exactly the busy time",
 "The free-busy periods obtained for a range, from timed events (recurring, overridden, cancelled, tentative, transparent; all-day events do not count) or from free-busy components, cover exactly the times that are busy in the range, clipped to it, each time with the strongest busy type that applies (BUSY, then BUSY-UNAVAILABLE, then BUSY-TENTATIVE).",
 ["inputs"], "all sets of events and free-busy components, overlapping in any way, and all ranges",
 "There are no tests of it.",
 [I + "calendar.py", I + "vfreebusy.py", I + "freebusy.py"],
 [("busy time", I + "vfreebusy.py: expandPeriodComp/expandPeriodFB; calendar.py: getFreeBusy; freebusy.py: resolveOverlaps")],
 None, ["free-busy queries"])

prop("P25", "vCards round-trip, including structured names and addresses",
 "Reading a vCard stream and writing it gives text that reads back to equal cards, with every property, group, parameter and component of structured (N, ADR, ORG) values kept in place, multi-card streams split at the right places, and equality telling cards apart that differ in any of these.",
 ["inputs"], "all cards over the supported properties, groups, parameters, nested lists and 1..n cards per stream",
 "Tests round-trip a dozen cards.",
 [V + "card.py", V + "property.py", V + "n.py", V + "adr.py", V + "nvalue.py", V + "adrvalue.py", V + "orgvalue.py", S + "utils.py"],
 [("card parsing", V + "card.py: parseMultiple; vcard/property.py: parseText"), ("structured values", V + "n.py, adr.py; utils.py: parseDoubleNestedList, generateDoubleNestedList")],
 None, ["Card.parseText/getText", "N/Adr accessors"])

prop("P26", "Compiled timezone data gives the offsets of its source rules",
 "Compiling Olson zone and rule lines yields, for every range of years, transitions whose times and offsets are those the zone lines and rules prescribe, and a timezone definition that gives the same UTC offset at every time in that range from the first transition on; files and links written for a set of zones hold exactly these definitions under their names. Writing rule and zone objects and reading them back gives equal objects.",
 ["inputs", "configurations"], "all zones built from 1..n zone lines (fixed offset, named rule, until in wall, standard or universal time) and all rule forms (fixed day, last weekday, weekday on or after/before), all year ranges",
 "Tests compile two short samples and compare text.",
 ["src/zonal/zone.py", "src/zonal/rule.py", "src/zonal/utils.py", "src/zonal/tzconvert.py"],
 [("rule expansion", "src/zonal/rule.py: Rule.expand/datetimeForYear; zone.py: ZoneRule.expand, Zone.expand"), ("timezone generation", "src/zonal/zone.py: Zone.vtimezone; rule.py: RuleSet.generate, Rule.vtimezone")],
 None, ["Zone.expand and offsets of Zone.vtimezone"])

prop("P27", "Filtered output keeps exactly the selected components and properties",
 "Generating a calendar through an output filter yields exactly the components, sub-components and properties the filter selects, whole or value-suppressed as asked, and nothing else; a filter selecting everything yields the unfiltered text, and filtered text that keeps VERSION and suppresses text values only still reads back as a calendar. The same holds for the jCal and xCal forms.",
 ["inputs", "configurations"], "all filters (all/some components, nested sub-components, all/some properties, no-value) and all calendars",
 "There are no tests of it.",
 [S + "outputfilter.py", S + "componentbase.py", S + "property.py"],
 [("filtering", S + "componentbase.py: generateFiltered, writeComponentsFiltered; outputfilter.py; property.py: generateFiltered")],
 None, ["Calendar.getTextFiltered/generateFiltered"])

prop("P28", "xCal output mirrors the calendar",
 "The XML written for a calendar contains one element per component and property in the iCalendar namespace with lower-case names, its parameters, and one typed value element per value whose text is the value's content, so that nothing in the calendar is missing from or added to the XML.",
 ["inputs"], "all calendars over supported components, properties, parameters and value types",
 "Tests compare a few fixed documents.",
 [S + "componentbase.py", S + "property.py", S + "value.py", S + "xmlutils.py"],
 [("xCal writing", S + "componentbase.py: writeXML; property.py: writeXML; value classes: writeXML")],
 None, ["Calendar.getTextXML"])

prop("P29", "Alarms trigger when their component says",
 "An alarm's trigger, repeat count, interval, action and attached data are those given in its text or set through editing, survive writing and reading back, and the trigger time computed for a component is the absolute time or the component's start or end plus the signed offset, with repeats at the given interval.",
 ["inputs", "histories"], "all triggers (absolute, related to start or end, before or after), repeats and edits",
 "Tests check one alarm's text.",
 [I + "valarm.py"],
 [("trigger handling", I + "valarm.py: finalise, calculateTrigger/loadTrigger, editTrigger")],
 None, ["VAlarm accessors", "text"])

prop("P30", "Editing an item's status, completion and descriptions agrees with its text",
 "After any sequence of edits of the status, completion time, summary, description and location of events, to-dos and journals and of the name and description of a calendar, mixed with copying and re-reading from text or jCal, the accessors and the written text agree: every value that is there is written exactly once, one that was cleared is not written, and nothing else changes. STATUS is read in any letter case; a to-do that is set completed gets the current UTC time as its completion time and loses it when its status changes. The completion state (overdue, due now or later, done, cancelled), its text and the display order of to-dos follow from status, due date, completion, priority and start.",
 ["histories", "inputs"], "all sequences of edits, copies and re-readings on all items and calendars",
 "There are no tests of editing status, completion or descriptive text, nor of completion states or display order.",
 [I + "vtodo.py", I + "vevent.py", I + "componentrecur.py", I + "calendar.py", S + "componentbase.py"],
 [("status and completion", I + "vtodo.py: editStatus, editCompleted, getCompletionState, getStatusText, sort_for_display; vevent.py: editStatus"),
  ("descriptive text", I + "componentrecur.py: editSummary, editDetails; calendar.py: editName, editDescription; componentbase.py: editProperty")],
 [("cached values", "status, completion time, summary, name and description kept next to the properties they come from", I + "vtodo.py, vevent.py, componentrecur.py, calendar.py: finalise")],
 ["accessors", "text"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
