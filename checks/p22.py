"""P22: histories of copies, changes and queries from CopyHist.tla replayed on calendars, components, alarms, properties, values, rules, date-times, periods and cards."""
from checks import icalgen as g
from checks import p25


def o(t):
    return list(t.encode("utf-8"))


def one_prop(rng):
    while True:
        l = g.known(rng)
        if "\n" not in l:
            return l


def daily(b):
    """hourly rules over the fifty years looked at would only take time"""
    return list(bytes(b).replace(b"FREQ=HOURLY", b"FREQ=DAILY"))


def source(rng, kind):
    if kind == "cal":
        return g.octets(rng, g.calendar(rng), False)
    if kind == "comp":
        while True:
            c = g.calendar(rng)
            if c[2]:
                return o("%d|" % rng.randrange(50)) + g.octets(rng, c, False)
    if kind == "alarm":
        while True:
            c = g.calendar(rng, 3)
            if any(k[0] == "VALARM" for k in g.walk(c)):
                return o("%d|" % rng.randrange(50)) + g.octets(rng, c, False)
    if kind == "card":
        return g.octets(rng, p25.card(rng, rng.choice([2, 5])), False)
    if kind == "prop":
        return o(one_prop(rng))
    if kind == "vprop":
        return o(p25.prop(rng))
    if kind == "recur":
        return o(g.recur(rng))
    if kind == "rset":
        q = [rng.choice(["R:" + g.recur(rng), "RD:2020%02d05T090000" % rng.randint(1, 12), "ED:2020%02d06T090000" % rng.randint(1, 12), "P:20200%d01T100000/PT1H" % rng.randint(1, 9), "E:FREQ=YEARLY;COUNT=2"])
             for _ in range(rng.randint(1, 4))]
        return o("|".join(q))
    if kind == "dt":
        return o(rng.choice([g.date(rng), g.dt(rng), g.utc(rng)]))
    if kind == "dur":
        return o(g.dur(rng, True))
    return o(g.period(rng))


KINDS = ["cal"] * 8 + ["comp"] * 5 + ["alarm"] * 2 + ["card"] * 2 + ["prop"] * 3 + ["vprop", "recur", "recur", "rset", "rset", "dt", "dur", "per"]


# one property for every form of value, with the parameters and lists they come with
VALUES = ["GEO:1.5;2.5", "REQUEST-STATUS:2.0;Success", "REQUEST-STATUS:3.1;Bad;who", "CATEGORIES:a,b,c", "RESOURCES:x", "RDATE:20200101T100000,20200201T100000", "RDATE;VALUE=DATE:20200101,20200202",
          "RDATE;VALUE=PERIOD:20200101T100000Z/PT1H,20200102T100000Z/20200102T120000Z", "EXDATE;TZID=Local/A:20200101T100000", "FREEBUSY;FBTYPE=BUSY:20200101T100000Z/PT1H,20200103T100000Z/PT2H",
          "RRULE:FREQ=YEARLY;BYMONTH=1,2;BYDAY=1MO,-1FR;BYSETPOS=1,-1", "RRULE:FREQ=MONTHLY;BYMONTHDAY=1,-1;UNTIL=20200901T000000Z", "EXRULE:FREQ=YEARLY;BYYEARDAY=1,100;COUNT=3", "TRIGGER:-PT5M",
          "TRIGGER;VALUE=DATE-TIME:20200101T100000Z", "DURATION:P1DT2H", "DTSTART;VALUE=DATE:20200101", "DTSTART;TZID=Local/A:20200101T100000", "COMPLETED:20200101T100000Z", "PRIORITY:5", "TZOFFSETTO:-0500",
          "ATTENDEE;MEMBER=\"mailto:a@x\",\"mailto:b@x\";ROLE=CHAIR:mailto:c@example.com", "ATTACH;VALUE=BINARY;ENCODING=BASE64:AAAA", "ATTACH:http://example.com/a", "URL:http://example.com/", "SUMMARY;LANGUAGE=en:text",
          "X-FLOAT;VALUE=FLOAT:1.25", "X-BOOL;VALUE=BOOLEAN:TRUE", "X-TIME;VALUE=TIME:101500", "X-PER;VALUE=PERIOD:20200101T100000Z/PT1H", "X-INT;VALUE=INTEGER:4"]
VVALUES = ["N:Smith;Ann,Mary;;Dr.;", "ADR;TYPE=home,work:;;1 Main,Street;City;;1234;", "ORG:A;B;C", "g.TEL;TYPE=home:+1", "BDAY:2000-01-02", "REV:20200101T100000Z", "TZ:-05:00", "GEO:1.5;2.5", "NICKNAME:a,b", "UID:x"]


def values(rng, i, kind, t):
    """a change of the value of a copy, its original, or a copy of the copy"""
    r = lambda: [rng.randrange(1000), rng.randrange(1000), 5 * rng.randrange(200) + 3] + [rng.randrange(1000) for _ in range(4)]
    ev = [{"op": "dup", "o": 1, "k": 0, "r": []}]
    if rng.random() < .3:
        ev.append({"op": "dup", "o": 2, "k": 0, "r": []})
    n = len(ev) + 1
    for _ in range(rng.randint(1, 3)):
        ev.append({"op": "mut", "o": rng.randint(1, n), "k": 0, "r": r()})
    ev += [{"op": "obs", "o": j, "k": 0, "r": []} for j in range(1, n + 1)]
    return {"id": "v%d" % i, "init": {"kind": kind, "data": o(t)}, "events": ev}


# the kinds of components that keep what they know of their properties
COMPS = ["BEGIN:VTODO\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200101T100000\r\nDUE:20200103T100000\r\nSTATUS:IN-PROCESS\r\nPRIORITY:3\r\nPERCENT-COMPLETE:20\r\nCOMPLETED:20200105T100000Z\r\nEND:VTODO\r\n",
         "BEGIN:VTODO\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nEND:VTODO\r\n",
         "BEGIN:VEVENT\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200101T100000\r\nDURATION:PT2H\r\nSTATUS:TENTATIVE\r\nRECURRENCE-ID:20200101T110000\r\nSUMMARY:s\r\nEND:VEVENT\r\n",
         "BEGIN:VEVENT\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200101T100000\r\nDTEND:20200101T110000\r\nRRULE:FREQ=DAILY;COUNT=3\r\nEND:VEVENT\r\n",
         "BEGIN:VJOURNAL\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200101T100000\r\nSTATUS:DRAFT\r\nEND:VJOURNAL\r\n",
         "BEGIN:VFREEBUSY\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200101T000000Z\r\nDTEND:20200102T000000Z\r\nFREEBUSY:20200101T100000Z/PT1H\r\nEND:VFREEBUSY\r\n"]


def components(rng, i, t):
    """changes through the component's own editing and through the times it gives out"""
    ks = [7, 7, 7, 8, 9, 10, 11, 12, 13, 13]
    ev = [{"op": "dup", "o": 1, "k": 0, "r": []}]
    if rng.random() < .3:
        ev.append({"op": "dup", "o": rng.randint(1, 2), "k": 0, "r": []})
    n = len(ev) + 1
    for _ in range(rng.randint(1, 3)):
        ev.append({"op": "mut", "o": rng.randint(1, n), "k": 0, "r": [16 * rng.randrange(50) + rng.choice(ks)] + [rng.randrange(1000) for _ in range(6)]})
        ev += [{"op": "obs", "o": j, "k": 0, "r": []} for j in range(1, n + 1)]
    return {"id": "c%d" % i, "init": {"kind": "comp", "data": o("0|BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + t + "END:VCALENDAR\r\n")}, "events": ev}


def check(run):
    rng = run.rng
    run.mc("CopyHist.tla", run.scale("CopyHist.cfg", "CopyHist_big.cfg"))
    beh = run.gen("CopyHist.tla", "CopyHist_gen.cfg", run.scale(150, 4000), 10)
    sess = []
    for i, b in enumerate(beh):
        kind = KINDS[i % len(KINDS)]
        ev = []
        # more weight on early copies than the random walk gives
        n = 1
        if not any(e["op"] == "dup" for e in b[:3]):
            ev.append({"op": "dup", "o": 1, "k": 0, "r": []})
            n += 1
        mut = {}
        for e in b:
            if e["op"] == "end":
                break
            e = dict(e)
            if e["op"] == "dup" and n >= 4:
                continue
            n += e["op"] == "dup"
            e["r"] = [rng.randrange(1000) for _ in range(7)]
            ev.append(e)
            if e["op"] == "mut" and rng.random() < .5:      # look at someone else
                ev.append({"op": "obs", "o": rng.randint(1, n), "k": 0, "r": []})
        for j in range(1, n + 1):
            ev.append({"op": "obs", "o": j, "k": 0, "r": []})
        sess.append({"id": "%s%d" % (kind, i), "init": {"kind": kind, "data": daily(source(rng, kind))}, "events": ev})
    for i in range(run.scale(1, 20)):
        sess += [values(rng, i, "prop", t) for t in VALUES] + [values(rng, i, "vprop", t) for t in VVALUES]
    for i in range(run.scale(12, 200)):
        sess += [components(rng, i, t) for t in COMPS]
    run.validate("P22Trace", run.drive("p22", sess))
