#!/usr/bin/env python3
"""Writes spec/ICalTypes.tla: default value types and lists of RFC 5545 (3.2.20, 3.8), RFC 7953/9074 names and VPOLL, as octets."""
T = {"TEXT": "CALSCALE METHOD PRODID VERSION CATEGORIES CLASS COMMENT DESCRIPTION LOCATION RESOURCES STATUS SUMMARY TRANSP TZID TZNAME CONTACT RELATED-TO UID ACTION REQUEST-STATUS ACCEPT-RESPONSE POLL-COMPLETION POLL-MODE POLL-PROPERTIES X-WR-CALNAME X-WR-CALDESC X-WR-ALARMUID X-MULBERRY-SPEAK-TEXT X-MULBERRY-ALARM-STATUS",
     "URI": "ATTACH TZURL URL", "FLOAT": "GEO", "INTEGER": "PERCENT-COMPLETE PRIORITY REPEAT SEQUENCE POLL-ITEM-ID POLL-WINNER RESPONSE",
     "DATE-TIME": "COMPLETED DTEND DUE DTSTART RECURRENCE-ID EXDATE RDATE CREATED DTSTAMP LAST-MODIFIED ACKNOWLEDGED X-MULBERRY-LAST-TRIGGER",
     "DURATION": "DURATION TRIGGER", "PERIOD": "FREEBUSY", "UTC-OFFSET": "TZOFFSETFROM TZOFFSETTO", "CAL-ADDRESS": "ATTENDEE ORGANIZER VOTER",
     "RECUR": "RRULE EXRULE"}
VT = "BINARY BOOLEAN CAL-ADDRESS DATE DATE-TIME DURATION FLOAT INTEGER PERIOD RECUR TEXT TIME URI UTC-OFFSET".split()
MULTI = "CATEGORIES RESOURCES FREEBUSY EXDATE RDATE POLL-PROPERTIES".split()
EXTRA = "UID RECURRENCE-ID ACTION TRIGGER TZID VOTER POLL-ITEM-ID DTSTART VALUE GEO REQUEST-STATUS RRULE EXRULE CALSCALE".split()


def o(s):
    return "<<" + ",".join(str(ord(c)) for c in s) + ">>"


out = ["------------------------------ MODULE ICalTypes ------------------------------",
       "(* Written by tools/mktypes.py: names as octets; the default value type of each property (RFC 5545 3.8), value type names, list-valued properties. *)",
       "EXTENDS TLC"]
for n in sorted(set(EXTRA)):
    out.append("N_%s == %s" % (n.replace("-", "_"), o(n)))
X = "start end duration latitude longitude code description data unknown text float freq until byday wkst interval".split()
for n in X:
    out.append("K_%s == %s" % (n, o(n)))
out.append("PTypes == {" + ", ".join('<<%s, "%s">>' % (o(n), t) for t in sorted(T) for n in T[t].split()) + "}")
out.append("PNamesKnown == {p[1] : p \\in PTypes}")
out.append("PTypeOf == [n \\in PNamesKnown |-> (CHOOSE p \\in PTypes : p[1] = n)[2]]")
out.append("VTypes == {" + ", ".join('<<%s, "%s">>' % (o(v), v) for v in VT) + "}")
out.append("VNames == {p[1] : p \\in VTypes}")
out.append("VTypeOf == [n \\in VNames |-> (CHOOSE p \\in VTypes : p[1] = n)[2]]")
out.append("NameOfV == [v \\in {p[2] : p \\in VTypes} |-> (CHOOSE p \\in VTypes : p[2] = v)[1]]")
out.append("ListProps == {" + ", ".join(o(n) for n in MULTI) + "}")
out.append("=============================================================================")
open("/verif/spec/ICalTypes.tla", "w").write("\n".join(out) + "\n")

# --- vCard (RFC 2426 section 3, RFC 2425 section 6)
V = {"TEXT": "NAME PROFILE FN N NICKNAME ADR LABEL TEL EMAIL MAILER TITLE ROLE ORG CATEGORIES NOTE PRODID SORT-STRING UID VERSION CLASS",
     "URI": "SOURCE URL", "BINARY": "PHOTO LOGO SOUND KEY", "DATE": "BDAY REV", "UTC-OFFSET": "TZ", "FLOAT": "GEO", "VCARD": "AGENT"}
VV = [("BINARY", "BINARY"), ("BOOLEAN", "BOOLEAN"), ("DATE", "DATE"), ("DATE-TIME", "DATE"), ("FLOAT", "FLOAT"), ("INTEGER", "INTEGER"), ("TEXT", "TEXT"), ("TIME", "TIME"),
      ("URI", "URI"), ("VCARD", "VCARD")]
out = ["------------------------------ MODULE VCardTypes ------------------------------",
       "(* Written by tools/mktypes.py: names as octets; default value types of RFC 2426.  DATE stands for DATE and DATE-TIME, which the value itself tells apart. *)",
       "EXTENDS TLC"]
for n in "VALUE VERSION N ADR ORG NICKNAME CATEGORIES ENCODING BASE64 VCARD".split():
    out.append("V_%s == %s" % (n.replace("-", "_"), o(n)))
out.append("V_30 == " + o("3.0"))
out.append("VPTypes == {" + ", ".join('<<%s, "%s">>' % (o(n), t) for t in sorted(V) for n in V[t].split()) + "}")
out.append("VPNames == {p[1] : p \\in VPTypes}")
out.append("VPTypeOf == [n \\in VPNames |-> (CHOOSE p \\in VPTypes : p[1] = n)[2]]")
out.append("VVTypes == {" + ", ".join('<<%s, "%s">>' % (o(v), t) for v, t in VV) + "}")
out.append("VVNames == {p[1] : p \\in VVTypes}")
out.append("VVTypeOf == [n \\in VVNames |-> (CHOOSE p \\in VVTypes : p[1] = n)[2]]")
out.append("=============================================================================")
open("/verif/spec/VCardTypes.tla", "w").write("\n".join(out) + "\n")
