"""Random calendars over the known and unknown components, properties, parameters and value types, in canonical value notation.
A component is [type, [property line (bytes)], [components]]."""

ZONES = ["Local/A", "Local/B", "Nowhere/City"]


def esc(t):
    return t.replace("\\", "\\\\").replace(";", "\\;").replace(",", "\\,").replace("\n", "\\n")


def raw(rng, n=None):
    n = rng.choice([0, 1, 3, 8, 20, 60, 90]) if n is None else n
    out = []
    for _ in range(n):
        x = rng.random()
        out.append(rng.choice("abcXYZ019 -_=") if x < .7 else rng.choice(",;:\\\"\n^'<&>/") if x < .88 else rng.choice("\u00e9\u20ac\u4e16\U0001f600\u00fc"))
    return "".join(out)


def text(rng):
    return esc(raw(rng))


def date(rng):
    return "%04d%02d%02d" % (rng.choice([1970, 1999, 2010, 2020, 2024, 2024, 2037]), rng.randint(1, 12), rng.randint(1, 28))


def dt(rng):
    return date(rng) + "T%02d%02d%02d" % (rng.randint(0, 23), rng.choice([0, 15, 30, 59]), rng.choice([0, 0, 0, 59]))


def utc(rng):
    return dt(rng) + "Z"


def dur(rng, sign=False):
    v = rng.choice(["P%dW" % rng.randint(1, 5), "P%dD" % rng.randint(1, 6), "PT%dH" % rng.randint(1, 23), "PT%dM" % rng.randint(1, 59), "PT%dS" % rng.randint(1, 59),
                    "P%dDT%dH" % (rng.randint(1, 6), rng.randint(1, 23)), "PT%dH%dM%dS" % (rng.randint(1, 23), rng.randint(1, 59), rng.randint(1, 59))])
    return ("-" if sign and rng.random() < .5 else "") + v


def period(rng, z="Z"):
    d = date(rng)
    a = d + "T%02d0000" % rng.randint(0, 10)
    return a + z + "/" + (rng.choice(["PT1H", "PT30M", "P1D", "PT1H30M"]) if rng.random() < .5 else d + "T%02d3000" % rng.randint(11, 23) + z)


def recur(rng):
    f = rng.choice(["DAILY", "WEEKLY", "MONTHLY", "YEARLY", "HOURLY"])
    p = ["FREQ=" + f]
    if rng.random() < .6:
        p.append(rng.choice(["COUNT=%d" % rng.randint(1, 5), "UNTIL=" + utc(rng)]))
    if rng.random() < .5:
        p.append("INTERVAL=%d" % rng.randint(2, 4))
    if rng.random() < .4:
        p.append("BYMONTH=" + ",".join(str(x) for x in sorted(rng.sample(range(1, 13), rng.randint(1, 3)))))
    if rng.random() < .5:
        return ";".join(p + rich(rng, f))
    if f == "MONTHLY" and rng.random() < .5:
        p.append("BYMONTHDAY=" + ",".join(str(x) for x in sorted(rng.sample(range(1, 29), rng.randint(1, 3)))))
    if f in ("WEEKLY", "MONTHLY") and rng.random() < .5:
        p.append("BYDAY=" + ",".join(rng.sample(["MO", "TU", "SU"], rng.randint(1, 3))))
    if rng.random() < .2:
        p.append("WKST=" + rng.choice(["SU", "TH"]))
    return ";".join(p)


def fullrule(rng):
    """any combination of parts that is allowed"""
    f = rng.choice(["YEARLY", "YEARLY", "MONTHLY", "WEEKLY", "DAILY"])
    p = ["FREQ=" + f]
    if rng.random() < .5:
        p.append(rng.choice(["COUNT=%d" % rng.randint(1, 5), "UNTIL=" + utc(rng)]))
    if rng.random() < .3:
        p.append("INTERVAL=%d" % rng.randint(2, 4))
    weekno = f == "YEARLY" and rng.random() < .4
    if rng.random() < .4:
        p.append("BYMONTH=" + nums(rng, 1, 12, False))
    if weekno:
        p.append("BYWEEKNO=" + nums(rng, 1, 53, True))
    if f == "YEARLY" and rng.random() < .4:
        p.append("BYYEARDAY=" + nums(rng, 1, 366, True))
    if f in ("YEARLY", "MONTHLY", "DAILY") and rng.random() < .4:
        p.append("BYMONTHDAY=" + nums(rng, 1, 31, True))
    if rng.random() < .5:
        n = lambda: str(rng.choice([-5, -1, 1, 2, 4])) if f in ("MONTHLY", "YEARLY") and not weekno and rng.random() < .6 else ""
        p.append("BYDAY=" + ",".join(n() + d for d in rng.sample(["MO", "TU", "WE", "TH", "FR", "SA", "SU"], rng.randint(1, 3))))
    for n, hi in (("BYHOUR", 23), ("BYMINUTE", 59), ("BYSECOND", 59)):
        if rng.random() < .3:
            p.append(n + "=" + nums(rng, 0, hi, False))
    if any(x.startswith("BY") for x in p) and rng.random() < .4:
        p.append("BYSETPOS=" + nums(rng, 1, 4, True))
    if rng.random() < .3:
        p.append("WKST=" + rng.choice(["SU", "TH"]))
    return ";".join(p)


def dense(rng, types=None):
    """one component with many properties, several of them rules"""
    global FAITH, TWINS
    FAITH, TWINS = True, False
    t = rng.choice(["VEVENT", "VTODO", "VJOURNAL"])
    ls = ["UID:dense", "DTSTAMP:" + utc(rng), "DTSTART:" + utc(rng)] + ["RRULE:" + fullrule(rng) for _ in range(3)]
    for _ in range(6):
        l = known(rng, types)
        if l not in ls:
            ls.append(l)
    return ["VCALENDAR", ["VERSION:2.0", "PRODID:x"], [[t, ls, []]]]


def nums(rng, lo, hi, neg):
    """numbers in increasing order, negative ones where allowed"""
    return ",".join(str(x) for x in sorted({rng.choice([-1, 1] if neg else [1]) * rng.randint(lo, hi) for _ in range(rng.randint(1, 3))}))


def rich(rng, f):
    """the rarer parts of a rule of that frequency"""
    out = []
    if f in ("MONTHLY", "YEARLY") and rng.random() < .6:
        out.append("BYDAY=" + ",".join(sorted({str(rng.choice([-5, -4, -2, -1, 1, 2, 3, 5])) + rng.choice(["MO", "WE", "SU", "SA"]) for _ in range(rng.randint(1, 3))})))
    elif f == "MONTHLY":
        out.append("BYMONTHDAY=" + nums(rng, 1, 31, True))
    elif f == "YEARLY":
        out.append("BYYEARDAY=" + nums(rng, 1, 366, True) if rng.random() < .6 else "BYWEEKNO=" + nums(rng, 1, 53, True))
    else:
        out.append("BYDAY=" + ",".join(rng.sample(["TU", "WE", "TH", "FR", "SA"], rng.randint(1, 3))))
    for n, hi in (("BYHOUR", 23), ("BYMINUTE", 59), ("BYSECOND", 59)):
        if rng.random() < .2:
            out.append(n + "=" + nums(rng, 0, hi, False))
    if rng.random() < .25:
        out.append("BYSETPOS=" + nums(rng, 1, 4, True))
    if rng.random() < .2:
        out.append("WKST=" + rng.choice(["SU", "TH"]))
    return out


def uri(rng):
    return rng.choice(["http://example.com/a?b=1;c=2", "mailto:x@example.com", "urn:uuid:1-2-3", "data:,x", "http://example.com/" + "p" * 80, "CID:a,b;c"])


def addr(rng):
    return "mailto:u%d@example.com" % rng.randint(1, 5)


def integer(rng):
    return str(rng.choice([0, 1, 5, 9, 100, -1, 2147483647]))


def offset(rng):
    return rng.choice(["+", "-"]) + rng.choice(["0100", "0530", "1100", "0000" if 0 else "0001", "003015"])


def binary(rng):
    import base64
    return base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 10, 70])))).decode()


def fl(rng):
    return rng.choice(["1.5", "-0.25", "3.0", "0.0", "37.375"])


def quote(v):
    v = v.replace("^", "^^").replace('"', "^'").replace("\n", "^n")
    return '"%s"' % v if any(c in v for c in ":;,") or v[:1] == " " else v


def pv(rng):
    if rng.random() < .06:
        return ""
    v = raw(rng, rng.choice([1, 3, 8, 30])).rstrip("\\")
    return quote(v)


TWINS = False
FAITH = False       # upper-case names only, no repeated parameter (what jCal can tell apart)


def params(rng, n=None):
    out = ""
    k = rng.choice([0, 0, 0, 1, 1, 2, 3]) if n is None else n
    if FAITH:
        for q in rng.sample(["X-P", "X-Q", "LANGUAGE", "CN", "ALTREP"] if n is None else ["X-R", "X-S"], k):
            out += ";" + q + "=" + ",".join(pv(rng) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        return out
    for _ in range(k):
        out += ";" + rng.choice(["X-P", "X-Q", "LANGUAGE", "x-low", "CN", "ALTREP", "X-P"]) + "=" + ",".join(pv(rng) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return out


def tzdt(rng, utcok=True):
    """parameters and value of a date-time"""
    x = rng.random()
    if x < .3 and utcok:
        return "", utc(rng)
    if x < .5:
        return "", dt(rng)
    if x < .75:
        return ";TZID=" + rng.choice(ZONES), dt(rng)
    if x < .8:
        return ";VALUE=" + cased(rng, "DATE-TIME"), dt(rng)
    return ";VALUE=" + cased(rng, "DATE"), date(rng)


XTYPES = {"TEXT": text, "URI": uri, "CAL-ADDRESS": addr, "INTEGER": integer, "FLOAT": fl, "DATE": date, "DATE-TIME": utc, "DURATION": lambda r: dur(r, True), "PERIOD": period,
          "RECUR": recur, "UTC-OFFSET": offset, "BINARY": binary, "BOOLEAN": lambda r: r.choice(["TRUE", "FALSE"]), "TIME": lambda r: r.choice(["100000", "235959Z"]),
          "X-TYPE": lambda r: r.choice(["abc;d,e\\f", "x:y", ""])}


def unknown(rng, types=None):
    n = rng.choice(["X-A", "X-B", "X-APPLE-THING", "X-LONG-" + "N" * 40, "NEW-PROP", "x-lower", "X-Mixed"])
    if FAITH:
        n = n.upper()
    if rng.random() < .4:
        return n + params(rng) + ":" + rng.choice(["abc", "a,b;c", "a\\,b", "\\n\\;", "", "http://x/", "\\", "x\\", text(rng)])
    t = rng.choice(sorted(types or XTYPES))
    return n + params(rng) + ";VALUE=" + cased(rng, t) + params(rng, rng.choice([0, 0, 1])) + ":" + XTYPES[t](rng)


def cased(rng, t):
    """the name of a value type, which may be written in any case"""
    return t if FAITH or rng.random() < .85 else t.lower() if rng.random() < .6 else t.capitalize()


def redundant(rng, t):
    return ";VALUE=" + cased(rng, t) if rng.random() < .05 else ""


def known(rng, types=None):
    """a property that any component may carry without upsetting it"""
    k = rng.choice(["SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT", "CONTACT", "CLASS", "CATEGORIES", "RESOURCES", "URL", "ATTACH", "ATTENDEE", "ORGANIZER", "GEO", "PRIORITY", "CREATED", "LAST-MODIFIED",
                    "RELATED-TO", "REQUEST-STATUS", "SEQUENCE", "PERCENT-COMPLETE", "TRANSP", "X", "X", "X"])
    p = params(rng)
    if k == "X":
        return unknown(rng, types)
    if k in ("CATEGORIES", "RESOURCES"):
        return k + redundant(rng, "TEXT") + p + ":" + ",".join(text(rng) for _ in range(rng.choice([1, 1, 2, 3])))
    if k == "ATTACH" and rng.random() < .5:
        return k + p + ";ENCODING=BASE64;VALUE=" + cased(rng, "BINARY") + ":" + binary(rng)
    if k in ("URL", "ATTACH"):
        return k + redundant(rng, "URI") + p + ":" + uri(rng)
    if k in ("ATTENDEE", "ORGANIZER"):
        return k + redundant(rng, "CAL-ADDRESS") + p + rng.choice(["", ";PARTSTAT=ACCEPTED", ';MEMBER="mailto:a@x","mailto:b@x"', ";ROLE=CHAIR;RSVP=TRUE"]) + ":" + addr(rng)
    if k == "GEO":
        return k + p + ":" + fl(rng) + ";" + fl(rng)
    if k == "PRIORITY":
        return k + redundant(rng, "INTEGER") + p + ":" + str(rng.randint(0, 9))
    if k == "PERCENT-COMPLETE":
        return k + p + ":" + str(rng.randint(0, 100))
    if k == "SEQUENCE":
        return k + p + ":" + str(rng.randint(0, 30))
    if k in ("CREATED", "LAST-MODIFIED"):
        return k + redundant(rng, "DATE-TIME") + p + ":" + utc(rng)
    if k == "REQUEST-STATUS":
        return k + p + ":" + rng.choice(["2.0", "3.1"]) + ";" + text(rng) + rng.choice(["", ";" + esc(raw(rng, 5))])
    if k == "CLASS":
        return k + p + ":" + rng.choice(["PUBLIC", "PRIVATE", "X-CLASS"])
    if k == "TRANSP":
        return k + p + ":" + rng.choice(["OPAQUE", "TRANSPARENT"])
    return k + redundant(rng, "TEXT") + p + ":" + text(rng)


def times(rng, t):
    out = []
    p, v = tzdt(rng)
    out.append("DTSTART" + p + ":" + v)
    end = {"VTODO": "DUE"}.get(t, "DTEND")
    x = rng.random()
    if x < .4 and t != "VJOURNAL":
        d = dur(rng) if "DATE" not in p.upper() or "TIME" in p.upper() else "P%dD" % rng.randint(1, 5)
        out.append("DURATION:" + d)
    elif x < .7 and t != "VJOURNAL":
        if v.endswith("Z"):
            out.append(end + ":" + "2038" + v[4:])
        else:
            out.append(end + p + ":" + "2038" + v[4:])
    return out, p, v


def rec(rng, p, v):
    out = []
    if rng.random() < .5:
        return out
    out.append(rng.choice(["RRULE", "RRULE", "RRULE", "EXRULE"]) + ":" + recur(rng))
    for n in ("RDATE", "EXDATE"):
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice([1, 1, 2, 3])
            if v.endswith("Z"):
                out.append(n + params(rng, rng.choice([0, 1])) + ":" + ",".join(utc(rng) for _ in range(k)))
            elif "VALUE=DATE" in p.upper() and "TIME" not in p.upper():
                out.append(n + p + ":" + ",".join(date(rng) for _ in range(k)))
            else:
                out.append(n + p + ":" + ",".join(dt(rng) for _ in range(k)))
    if rng.random() < .2:
        out.append("RDATE;VALUE=" + cased(rng, "PERIOD") + ":" + ",".join(period(rng) for _ in range(rng.choice([1, 2]))))
    elif rng.random() < .1 and "TZID" in p:
        out.append("RDATE;VALUE=PERIOD" + p + ":" + ",".join(period(rng, "") for _ in range(rng.choice([1, 2]))))
    return out


def alarm(rng, k):
    a = rng.choice(["DISPLAY", "AUDIO", "EMAIL", "X-ACT"])
    ls = ["ACTION:" + a]
    x = rng.random()
    if x < .3:
        ls.append("TRIGGER;VALUE=DATE-TIME:" + "2020%02d01T0%d0000Z" % (1 + k % 12, rng.randint(0, 9)))
    else:
        ls.append("TRIGGER" + rng.choice(["", "", ";RELATED=START", ";RELATED=END", ";VALUE=DURATION"]) + ":" + rng.choice(["", "-"]) + "PT%dM" % (k * 7 + rng.randint(1, 7)))
    if a in ("DISPLAY", "EMAIL"):
        ls.append("DESCRIPTION:" + text(rng))
    if a == "EMAIL":
        ls += ["SUMMARY:" + text(rng)] + ["ATTENDEE:" + addr(rng) for _ in range(rng.choice([1, 2]))]
    if rng.random() < .3:
        ls += ["REPEAT:%d" % rng.randint(1, 4), "DURATION:PT5M"]
    if rng.random() < .2:
        ls.append("ACKNOWLEDGED:" + utc(rng))
    if rng.random() < .3:
        ls.append(unknown(rng))
    rng.shuffle(ls)
    return ["VALARM", ls, [["X-SUB", [unknown(rng)], []]] if rng.random() < .1 else []]


def unk(rng, depth):
    return [rng.choice(["X-COMP", "VNEW", "X-OTHER"]), [known(rng) for _ in range(rng.choice([0, 1, 2, 3]))] + (["UID:u%d" % rng.randint(1, 9)] if rng.random() < .3 else []),
            [unk(rng, depth - 1) for _ in range(rng.choice([0, 1, 2]))] if depth > 0 else []]


def zone(rng, tzid):
    obs = []
    for t, m, a, b in (("STANDARD", 10, "-0400", "-0500"), ("DAYLIGHT", 4, "-0500", "-0400")):
        ls = ["DTSTART:2000%02d01T020000" % m, "RRULE:FREQ=YEARLY;BYMONTH=%d;BYDAY=1SU" % m, "TZOFFSETFROM:" + a, "TZOFFSETTO:" + b, "TZNAME:" + t[:1] + "T"]
        if rng.random() < .3:
            ls.append(unknown(rng))
        obs.append([t, ls, []])
    if rng.random() < .3:
        obs = obs[:1]
    return ["VTIMEZONE", ["TZID:" + tzid] + ([unknown(rng)] if rng.random() < .3 else []) + (["LAST-MODIFIED:" + utc(rng)] if rng.random() < .3 else []), obs]


def component(rng, k, types=None):
    t = rng.choice(["VEVENT", "VEVENT", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "VPOLL", "X"])
    if t == "X":
        return unk(rng, rng.choice([0, 1, 3]))
    uid = "uid-%d" % k
    ls = ["UID:" + uid, "DTSTAMP:" + utc(rng)]
    kids = []
    if t in ("VEVENT", "VTODO", "VJOURNAL"):
        if t == "VEVENT" or rng.random() < .7:
            tl, p, v = times(rng, t)
            ls += tl
            if rng.random() < .25:
                ls.append("RECURRENCE-ID" + rng.choice(["", "", ";RANGE=THISANDFUTURE"]) + p + ":" + v)
            else:
                ls += rec(rng, p, v)
        if rng.random() < .4:
            ls.append("STATUS:" + rng.choice({"VEVENT": ["TENTATIVE", "CONFIRMED", "CANCELLED"], "VTODO": ["NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"], "VJOURNAL": ["DRAFT", "FINAL"]}[t]))
        if t == "VTODO" and rng.random() < .3:
            ls.append("COMPLETED:" + utc(rng))
        if t != "VJOURNAL":
            kids = [alarm(rng, j) for j in range(rng.choice([0, 0, 1, 2, 3]))]
    elif t == "VFREEBUSY":
        if rng.random() < .7:
            ls += ["DTSTART:20200101T000000Z", "DTEND:20200201T000000Z"]
        for _ in range(rng.choice([0, 1, 2])):
            ls.append("FREEBUSY" + rng.choice(["", ";FBTYPE=BUSY-TENTATIVE", ";FBTYPE=FREE", ";VALUE=PERIOD"]) + ":" + ",".join(period(rng) for _ in range(rng.choice([1, 2, 3]))))
    elif t == "VAVAILABILITY":
        ls += ["BUSYTYPE:BUSY-UNAVAILABLE"] if rng.random() < .5 else []
        for j in range(rng.choice([0, 1, 2])):
            kids.append(["AVAILABLE", ["UID:av%d" % j, "DTSTAMP:" + utc(rng), "DTSTART:20200101T000000Z", "DTEND:20200101T010000Z"] + (["RRULE:" + recur(rng)] if rng.random() < .5 else []) + [known(rng, types) for _ in range(rng.choice([0, 1]))], []])
    else:
        ls += ["ORGANIZER:" + addr(rng), "POLL-MODE:BASIC"] + (["POLL-PROPERTIES:DTSTART,DTEND"] if rng.random() < .5 else [])
        for j in range(rng.choice([0, 1, 2])):
            kids.append(["VVOTER", ["VOTER:mailto:v%d@x" % j], [["VOTE", ["POLL-ITEM-ID:%d" % q, "RESPONSE:%d" % rng.randint(0, 100)], []] for q in range(rng.choice([0, 1, 2]))]])
        for j in range(rng.choice([0, 1, 2])):
            kids.append(["VEVENT", ["UID:p%d" % j, "DTSTAMP:20200101T000000Z", "DTSTART:20200101T000000Z", "POLL-ITEM-ID:%d" % (j + 1)], []])
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        ls.append(known(rng, types))
    if rng.random() < .15 and ls:
        q = [l for l in ls if l.startswith(("X-", "COMMENT", "CATEGORIES", "ATTENDEE", "DESCRIPTION"))]
        if q:
            ls.append(rng.choice(q))
    return [t, ls, kids]


def calendar(rng, n=None, types=None, faith=False, twins=False):
    global FAITH, TWINS
    FAITH, TWINS = faith, twins
    ls = ["VERSION:2.0", "PRODID:" + esc("-//x//" + raw(rng, 5))]
    if rng.random() < .3:
        ls.append("METHOD:PUBLISH")
    if rng.random() < .3:
        ls.append("CALSCALE:GREGORIAN")
    if rng.random() < .3:
        ls.append("X-WR-CALNAME:" + text(rng))
    for _ in range(rng.choice([0, 0, 1, 2])):
        ls.append(unknown(rng, types))
    kids = [zone(rng, z) for z in ZONES[:2] if rng.random() < .6]
    kids += [component(rng, k, types) for k in range(rng.choice([0, 1, 1, 2, 3, 4]) if n is None else n)]
    if n is None and kids and TWINS and rng.random() < .3:        # the same component twice
        at = [c for c in walk(["", [], kids]) if c[2]]
        c = rng.choice(at)
        k = rng.choice(c[2])
        if k[0] not in ("STANDARD", "DAYLIGHT", "VTIMEZONE"):
            c[2].insert(rng.randrange(len(c[2]) + 1), copy(k))
    return ["VCALENDAR", ls, kids]


def shuffled(rng, c, props=True, comps=True):
    t, ls, kids = c
    ls, kids = list(ls), [shuffled(rng, k, props, comps) for k in kids]
    if props:
        rng.shuffle(ls)
    if comps:
        rng.shuffle(kids)
    return [t, ls, kids]


def lines(c):
    return ["BEGIN:" + c[0]] + c[1] + [l for k in c[2] for l in lines(k)] + ["END:" + c[0]]


def copy(c):
    return [c[0], list(c[1]), [copy(k) for k in c[2]]]


def walk(c):
    yield c
    for k in c[2]:
        for x in walk(k):
            yield x


def octets(rng, c, fold=True):
    eol = rng.choice([b"\r\n", b"\n"])
    out = []
    for l in lines(c):
        b = l.encode("utf-8")
        if fold and rng.random() < .3 and len(b) > 4:
            k = rng.randrange(1, len(b))
            b = b[:k] + eol + rng.choice([b" ", b"\t"]) + b[k:]
        out.append(b)
    return list(eol.join(out) + eol)
