"""P20: random calendars and cards with every number of every constrained property and good and bad values, validated without repair."""

Z = "20200101T100000Z"
VAL = {
    "CLASS": ["PUBLIC"], "CREATED": [Z, Z, "20200101T100000", ";VALUE=DATE:20200101", ";TZID=Fix/Two:20200101T100000"], "DESCRIPTION": ["d", ""], "GEO": ["1.0;2.0"],
    "LAST-MODIFIED": [Z, Z, "20200101T100000"], "LOCATION": ["l"], "ORGANIZER": ["mailto:a@example.com"],
    "PRIORITY": ["0", "9", "5", "10", "-1", "99", ";VALUE=TEXT:5"], "SEQUENCE": ["0", "1", "-1", "12"], "SUMMARY": ["s", "t"], "TRANSP": ["OPAQUE"], "URL": ["http://x.org/"],
    "RECURRENCE-ID": ["20200105T100000Z"], "RRULE": ["FREQ=DAILY;COUNT=3", "FREQ=DAILY;UNTIL=20200110", "FREQ=DAILY;UNTIL=20200110T080000Z", "FREQ=WEEKLY;UNTIL=20200120T235959Z;BYDAY=SU,MO"],
    "DTEND": ["20200105T120000Z"], "DUE": ["20200105T120000Z"], "DURATION": ["PT1H", "PT3H"], "COMPLETED": [Z, "20200101T100000"], "PERCENT-COMPLETE": ["0", "100", "50", "101", "-1"],
    "STATUS": ["CONFIRMED", "CANCELLED", "cancelled", "TENTATIVE", "X-ODD", "Cancelled"], "DTSTAMP": [Z, Z, Z, "20200101T100000"], "UID": ["u1"],
    "DTSTART": ["20200105T100000Z", "20200105T100000", ";VALUE=DATE:20200105", ";TZID=Fix/Two:20200105T100000", "20200105T233000Z", ";TZID=Fix/Two:20200105T003000"], "CONTACT": ["c"], "BUSYTYPE": ["BUSY"],
    "ACCEPT-RESPONSE": ["x"], "POLL-MODE": ["BASIC"], "POLL-PROPERTIES": ["DTSTART"], "POLL-WINNER": ["1"], "VOTER": ["mailto:v@example.com"], "POLL-ITEM-ID": ["1", "2"], "RESPONSE": ["50"],
    "TZID": ["Fix/Two"], "TZURL": ["http://z.org/"], "TZOFFSETTO": ["+0200"], "TZOFFSETFROM": ["+0200"], "TRIGGER": ["-PT15M", ";VALUE=DATE-TIME:20200105T090000Z"],
    "ACTION": ["DISPLAY", "AUDIO", "EMAIL", "URI", "NONE", "X-PLAY", "display", "Email"], "REPEAT": ["1", "0", "3", "-1"], "ATTACH": ["http://x.org/a"], "ACKNOWLEDGED": [Z, "20200101T100000"],
    "ATTENDEE": ["mailto:b@example.com"], "X-FOO": ["x"], "COMMENT": ["c"], "CATEGORIES": ["A,B"], "TZNAME": ["T"], "PRODID": ["p"], "VERSION": ["2.0", "2.1", "3.0"],
    "CALSCALE": ["GREGORIAN", "gregorian", "JULIAN"], "METHOD": ["PUBLISH"],
}
NEED = {"VEVENT": "DTSTAMP UID", "VTODO": "DTSTAMP UID", "VJOURNAL": "DTSTAMP UID", "VFREEBUSY": "DTSTAMP UID", "VAVAILABILITY": "DTSTAMP UID", "AVAILABLE": "DTSTAMP DTSTART UID",
        "VPOLL": "DTSTAMP UID ORGANIZER", "VVOTER": "VOTER", "VTIMEZONE": "TZID", "STANDARD": "DTSTART TZOFFSETTO TZOFFSETFROM", "DAYLIGHT": "DTSTART TZOFFSETTO TZOFFSETFROM", "VALARM": "ACTION TRIGGER"}
MAY = {"VEVENT": "CLASS CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION ORGANIZER PRIORITY SEQUENCE SUMMARY TRANSP URL RECURRENCE-ID RRULE DTEND DURATION STATUS STATUS DTSTART DTSTART DTSTART",
       "VTODO": "CLASS COMPLETED CREATED DESCRIPTION DTSTART DTSTART DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PERCENT-COMPLETE PRIORITY RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DUE DURATION STATUS STATUS",
       "VJOURNAL": "CLASS CREATED DTSTART DTSTART LAST-MODIFIED ORGANIZER RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DESCRIPTION STATUS STATUS", "VFREEBUSY": "CONTACT DTSTART DTEND ORGANIZER URL DURATION STATUS",
       "VAVAILABILITY": "BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL DTEND DURATION LOCATION PRIORITY RECURRENCE-ID STATUS",
       "AVAILABLE": "CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SEQUENCE SUMMARY DTEND DURATION STATUS",
       "VPOLL": "ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL",
       "VVOTER": "CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL", "VOTE": "POLL-ITEM-ID RESPONSE", "VTIMEZONE": "LAST-MODIFIED TZURL", "STANDARD": "RRULE TZNAME", "DAYLIGHT": "RRULE TZNAME",
       "VALARM": "DURATION REPEAT ATTACH ACKNOWLEDGED DESCRIPTION SUMMARY ATTENDEE URL", "X-COMP": "DTSTAMP PRIORITY UID SUMMARY SEQUENCE"}
SUBS = {"VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VAVAILABILITY": ["AVAILABLE"], "VPOLL": ["VVOTER"], "VVOTER": ["VOTE"], "VTIMEZONE": ["STANDARD", "DAYLIGHT"], "X-COMP": ["X-COMP"]}
PAIRS = {"VEVENT": ("DTEND", "DURATION"), "VTODO": ("DUE", "DURATION"), "VAVAILABILITY": ("DTEND", "DURATION"), "AVAILABLE": ("DTEND", "DURATION"), "VALARM": ("REPEAT", "DURATION")}


def line(rng, n, good, start):
    vs = VAL[n][:2] if good and n not in ("ACTION", "STATUS", "DTSTART", "RRULE", "TRIGGER") else VAL[n]
    if good and n in ("CREATED", "LAST-MODIFIED", "COMPLETED", "DTSTAMP", "ACKNOWLEDGED"):
        vs = [Z]
    if good and n == "RRULE" and start is not None:
        vs = [x for x in vs if "UNTIL" not in x or ("UNTIL=20200110T" in x or "UNTIL=20200120T" in x) == (start != ";VALUE=DATE:20200105")]
    v = rng.choice(vs)
    if n == "DTSTART" and start is not None:
        v = start
    k = n if rng.random() < .9 else n.lower()
    return k + v if v.startswith(";") else k + ":" + v


def comp(rng, t, good, depth=0):
    """good: nothing wrong on purpose; otherwise with counts and values at random"""
    start = rng.choice(VAL["DTSTART"])
    if t in ("STANDARD", "DAYLIGHT"):
        start = "20200105T100000"
    ls = []
    for n in NEED.get(t, "").split():
        k = 1 if good or rng.random() < .85 else rng.choice([0, 2, 3])
        if t == "VTIMEZONE":
            k = 1
        ls += [line(rng, n, good, start) for _ in range(k)]
    may = sorted(set(MAY[t].split()))
    for n in rng.sample(may, min(len(may), rng.randint(0, 6))) + rng.choices(MAY[t].split(), k=1):
        k = 1 if good or rng.random() < .7 else rng.choice([2, 2, 3])
        if good and any(x.split(":")[0].split(";")[0].upper() == n for x in ls):
            continue
        ls += [line(rng, n, good, start) for _ in range(k)]
    names = {x.split(":")[0].split(";")[0].upper() for x in ls}
    if t == "VEVENT" and good and "DTSTART" not in names:
        ls.append(line(rng, "DTSTART", True, start))
    if t in PAIRS and not good and rng.random() < .35:
        ls += [line(rng, n, True, start) for n in PAIRS[t] if n not in names]
    if good and t in PAIRS and t != "VALARM":
        ls = [x for x in ls if not x.upper().startswith("DURATION")]
    if good and t == "VALARM":
        ls = [x for x in ls if x.split(":")[0].upper() not in ("DURATION", "REPEAT")]
        a = [x.split(":")[1].upper() for x in ls if x.upper().startswith("ACTION")][0]
        have = lambda n: any(x.upper().startswith(n) for x in ls)   # noqa
        for n in {"DISPLAY": ["DESCRIPTION"], "EMAIL": ["DESCRIPTION", "SUMMARY", "ATTENDEE"], "URI": ["URL"]}.get(a, []):
            if not have(n):
                ls.append(line(rng, n, True, start))
        if rng.random() < .4:
            ls += ["DURATION:PT5M", "REPEAT:2"]
    if not good and rng.random() < .15 and t in ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE"):
        ls += ["STATUS:" + rng.choice(["CANCELLED", "CONFIRMED", "cancelled"]) for _ in range(rng.randint(1, 3))]
    rng.shuffle(ls)
    q = ["BEGIN:" + t] + ls
    for s in SUBS.get(t, []):
        k = rng.choice([0, 1, 1, 2]) if depth < 2 else 0
        if t == "VTIMEZONE" and good and s == "STANDARD":
            k = 1
        for _ in range(k):
            q += comp(rng, s, good or rng.random() < .5, depth + 1)
    return q + ["END:" + t]


def calendar(rng, good):
    q = []
    add, drop = [], []
    if rng.random() < .3:
        q.append("METHOD:PUBLISH")
    if rng.random() < .3:
        q.append("CALSCALE:GREGORIAN")
    if not good and rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(["PRODID", "VERSION", "CALSCALE", "METHOD"])
            add.append(n + ":" + rng.choice(VAL[n]))
        drop = rng.sample(["PRODID", "VERSION", "METHOD"], rng.choice([0, 0, 1, 2]))
    for _ in range(rng.randint(0 if not good else 1, 3)):
        q += comp(rng, rng.choice(["VEVENT", "VEVENT", "VEVENT", "VTODO", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "VPOLL", "VTIMEZONE", "X-COMP"]), good)
    tz = ["BEGIN:VTIMEZONE", "TZID:Fix/Two", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0200", "END:STANDARD", "END:VTIMEZONE"]
    q = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p"] + q + (tz if "BEGIN:VTIMEZONE" not in q else []) + ["END:VCALENDAR", ""]
    return "\r\n".join(q), add, drop


def card(rng, good):
    if good:
        q = ["N:a;b", "FN:a"] + rng.sample(["UID:1", "BDAY:2000-01-01", "PRODID:x", "REV:2000-01-01", "FN:b", "NOTE:x", "item1.TEL:1", "X-FOO:x", "PROFILE:VCARD"], rng.randint(0, 5))
    else:
        q = rng.choices(["N:a;b", "FN:a", "FN:c", "n:a;b", "item1.N:x;y", "UID:1", "UID:2", "BDAY:2000-01-01", "PRODID:x", "rev:2000-01-01", "NOTE:x", "PROFILE:VCARD", "PROFILE:x", "TEL:1", "i2.UID:5"],
                        k=rng.randint(0, 8))
    add = [rng.choice(["VERSION:3.0", "VERSION:2.1", "N:c", "FN:q", "VERSION:4.0"])] if not good and rng.random() < .3 else []
    drop = rng.sample(["VERSION", "N", "FN", "UID"], rng.choice([0, 1, 1])) if not good and rng.random() < .3 else []
    return "\r\n".join(["BEGIN:VCARD", "VERSION:3.0"] + q + ["END:VCARD", ""]), add, drop


def session(rng, i, fixes):
    isc = rng.random() < .2
    good = rng.random() < .2
    text, add, drop = card(rng, good) if isc else calendar(rng, good)
    n = 0
    ev = [{"op": "load", "text": text, "add": add, "drop": drop}]
    for _ in range(rng.randint(1, 3)):
        ev.append({"op": "validate", "fix": fixes and int(rng.random() < .6), "raise": int(rng.random() < .25), "sub": n})
    return {"id": "v%d" % i, "init": {"card": int(isc)}, "events": ev}


def check(run):
    run.mc("ValidMC.tla", run.scale("ValidMC.cfg", "ValidMC_big.cfg"))
    s = [session(run.rng, i, 0) for i in range(run.scale(600, 8000))]
    recs = run.drive("p20", s)
    run.validate("P20Trace", recs)
