"""P19: the reader against the pushdown machine Nest.tla (checked exhaustively against the bracket grammar in NestMC.tla): its behaviours as
line sequences, random documents with line and octet damage, truncation everywhere, single-component reads into one calendar."""
import json, os

TYPES = ["VEVENT", "VTODO", "VJOURNAL", "VALARM", "VFREEBUSY", "VAVAILABILITY", "AVAILABLE", "VPOLL", "VVOTER", "VOTE", "X-COMP", "IANA"]
KIDS = {"VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VAVAILABILITY": ["AVAILABLE"], "VVOTER": ["VOTE"]}


def words(run, cfg, num):
    if num is None:
        out = os.path.join(run.work, "words")
        run.mc("NestGen.tla", cfg, env={"OUT": out}, workers=1)
        res = []
        for l in open(out):
            v = json.loads(l)
            res.append(json.loads(v) if isinstance(v, str) else v)
        return res
    return run.gen("NestGen.tla", cfg, num, 40)


def concrete(rng, w):
    """an abstract word as text lines"""
    ls = []
    ev = rng.choice(["VEVENT", "VTODO", "X-COMP"])
    first = True
    for l in w:
        k = l["k"]
        t = {"VEVENT": ev}.get(l.get("t"), l.get("t"))
        if k == "begin":
            ls.append("BEGIN:" + t)
            if t == "VCALENDAR" and first and rng.random() < .95:
                ls.append("VERSION:2.0")
                first = False
        elif k == "end":
            ls.append("END:" + t)
        elif k == "prop":
            ls.append(prop(rng))
        elif k == "blank":
            ls.append("")
        else:
            ls.append(junk(rng))
    return ls


def prop(rng):
    n = rng.choice(["SUMMARY", "X-A", "x-a", "X-B", "Summary", "X-BEGIN", "ENDX", "COMMENT"])
    p = rng.choice(["", "", "", ";X-P=1", ';X-P="a:b;c"', ";X-P=1,2"])
    v = rng.choice(["", "1", "a b", "END:VEVENT", "BEGIN:VALARM", "hello", "x" * 80, "END:VCALENDAR", str(rng.randint(0, 9))])
    return n + p + ":" + v


def junk(rng):
    return rng.choice(["END", "BEGIN", "junk", "X-A;:1", ":", "X-A;P:1", 'X-A;P="1:2', ";X=1:2", "X-A;=1:2", "X-A", "end vevent", "BEGIN VEVENT", "\x00", "\xc3\xa9", "VEVENT"])


def comp(rng, depth, inside=None):
    r = rng.random()
    if inside in KIDS and r < .96:
        t = rng.choice(KIDS[inside])
    else:
        t = rng.choice(TYPES)
    ls = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ls.append(prop(rng))
    kids = []
    if depth > 0:
        for _ in range(rng.choice([0, 0, 1, 2]) if depth < 3 else rng.choice([0, 1, 2, 3])):
            kids.append(comp(rng, depth - 1, t))
    body = [[l] for l in ls] + kids
    rng.shuffle(body)
    return ["BEGIN:" + t] + [l for b in body for l in b] + ["END:" + t]


def doc(rng):
    blocks = [["VERSION:2.0"]] + [[prop(rng)] for _ in range(rng.choice([0, 1, 2]))] + [comp(rng, rng.choice([0, 1, 2, 4])) for _ in range(rng.choice([0, 1, 2, 3]))]
    rng.shuffle(blocks)
    return ["BEGIN:VCALENDAR"] + [l for b in blocks for l in b] + ["END:VCALENDAR"]


def damage(rng, ls):
    ls = list(ls)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not ls:
            return ls
        k = rng.randrange(len(ls))
        marks = [i for i, l in enumerate(ls) if l.startswith(("BEGIN:", "END:"))]
        if marks and rng.random() < .7:
            k = rng.choice(marks)
        x = rng.random()
        if x < .25:
            del ls[k]
        elif x < .35:
            ls.insert(k, ls[k])
        elif x < .5:
            j = rng.choice(marks) if marks else 0
            ls[k], ls[j] = ls[j], ls[k]
        elif x < .6:
            ls.insert(k, rng.choice(["BEGIN:", "END:"]) + rng.choice(TYPES + ["VCALENDAR", "VCALENDAR"]))
        elif x < .7:
            ls.insert(rng.choice([0, k, len(ls)]), "")
        elif x < .8:
            ls.insert(rng.choice([0, k, len(ls)]), rng.choice([junk(rng), prop(rng)]))
        elif x < .9:
            l = ls[k]
            a, _, b = l.partition(":")
            ls[k] = rng.choice([a + ":" + rng.choice(TYPES + ["VCALENDAR"]), l + " ", a + ": " + b, l + "X", l[:-1], a + ";X=1:" + b if a not in ("BEGIN", "END") else l + ":"])
        else:
            ls = ls[:k]
    return ls


def text(rng, ls, whole):
    eol = rng.choice(["\r\n", "\n"])
    out = []
    for l in ls:
        if len(l) > 3 and rng.random() < .08:
            k = rng.randrange(1, len(l))
            if l[k] not in " \t" or 1:
                l = l[:k] + eol + rng.choice(" \t") + l[k:]
        out.append(l)
    d = eol.join(out) + (eol if rng.random() < .8 else "")
    if not whole:
        d = d[:rng.randrange(len(d) + 1)]
    return [ord(c) for c in d]


def judged(ls):
    """not judged: delimiters in other than capital letters, an empty component name, text outside the plain letters in values"""
    return not any(l.upper().startswith(("BEGIN:", "END:")) and not l.startswith(("BEGIN:", "END:")) or l in ("BEGIN:", "END:") for l in ls)


FULL = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:-//x//y//EN
CALSCALE:GREGORIAN
X-WR-CALNAME:name
BEGIN:VTIMEZONE
TZID:Local/Fuzz
BEGIN:STANDARD
DTSTART:20001029T020000
RRULE:FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10
RDATE:20101029T020000
TZNAME:EST
TZOFFSETFROM:-0400
TZOFFSETTO:-0500
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20000402T020000
RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=4;UNTIL=20200101T000000Z
TZNAME:EDT
TZOFFSETFROM:-0500
TZOFFSETTO:-0400
END:DAYLIGHT
END:VTIMEZONE
BEGIN:VEVENT
UID:uid-1
DTSTAMP:20200101T000000Z
SEQUENCE:1
DTSTART;TZID=Local/Fuzz:20200101T100000
DURATION:PT1H
RRULE:FREQ=DAILY;COUNT=5;INTERVAL=2
RDATE;VALUE=PERIOD:20200103T100000Z/PT2H,20200104T100000Z/20200104T110000Z
EXDATE;TZID=Local/Fuzz:20200103T100000,20200105T100000
GEO:37.3;-122.0
ATTENDEE;CN="A;B":mailto:a@b
ORGANIZER:mailto:a@b
REQUEST-STATUS:2.0;ok;data
CATEGORIES:A,B\\,C
STATUS:CONFIRMED
PRIORITY:5
ATTACH;ENCODING=BASE64;VALUE=BINARY:AAAA
LAST-MODIFIED:20200101T000000Z
BEGIN:VALARM
ACTION:DISPLAY
DESCRIPTION:x
TRIGGER;RELATED=END:-PT15M
REPEAT:2
DURATION:PT5M
ACKNOWLEDGED:20200101T000000Z
END:VALARM
BEGIN:VALARM
ACTION:EMAIL
DESCRIPTION:x
SUMMARY:x
ATTENDEE:mailto:x
TRIGGER;VALUE=DATE-TIME:20200101T000000Z
END:VALARM
END:VEVENT
BEGIN:VEVENT
UID:uid-1
DTSTAMP:20200101T000000Z
RECURRENCE-ID;RANGE=THISANDFUTURE;TZID=Local/Fuzz:20200105T100000
DTSTART;TZID=Local/Fuzz:20200105T110000
DTEND;TZID=Local/Fuzz:20200105T120000
END:VEVENT
BEGIN:VTODO
UID:todo
DTSTAMP:20200101T000000Z
DUE;VALUE=DATE:20200110
COMPLETED:20200101T000000Z
PERCENT-COMPLETE:50
STATUS:IN-PROCESS
END:VTODO
BEGIN:VFREEBUSY
UID:fb
DTSTAMP:20200101T000000Z
DTSTART:20200101T000000Z
DTEND:20200102T000000Z
FREEBUSY;FBTYPE=BUSY-TENTATIVE:20200101T000000Z/PT1H,20200101T030000Z/20200101T040000Z
END:VFREEBUSY
BEGIN:VJOURNAL
UID:j
DTSTAMP:20200101T000000Z
DTSTART;VALUE=DATE:20200101
END:VJOURNAL
BEGIN:VAVAILABILITY
UID:av
DTSTAMP:20200101T000000Z
DTSTART:20200101T000000Z
BEGIN:AVAILABLE
UID:av1
DTSTAMP:20200101T000000Z
DTSTART:20200101T000000Z
DTEND:20200101T010000Z
RRULE:FREQ=WEEKLY
END:AVAILABLE
END:VAVAILABILITY
BEGIN:VPOLL
UID:poll
DTSTAMP:20200101T000000Z
POLL-ITEM-ID:1
BEGIN:VVOTER
VOTER:mailto:x
BEGIN:VOTE
POLL-ITEM-ID:1
RESPONSE:50
END:VOTE
END:VVOTER
END:VPOLL
END:VCALENDAR""".split("\n")

BAD = ["", "0", "-1", "x", "20201301T000000Z", "20200101", "20200101T", "20200101T000000", "20200101T000000Z", "PT1H", "-P1W", "P", "1;2", "1", ";", ",", "TRUE", "FREQ=DAILY", "FREQ=X", "FREQ=DAILY;COUNT=x",
       "20200101T000000Z/PT1H", "20200101T000000Z/", "+0500", "99999999999999999999", "1e400", "nan", "\\", "\xff", "=", "FREQ=DAILY;UNTIL=20200101;COUNT=1", "0000", "00000000", "00010101T000000Z"]


def fuzz(rng):
    ls = list(FULL)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(3, len(ls) - 1)
        a, _, b = ls[k].partition(":")
        x = rng.random()
        if a in ("BEGIN", "END"):
            if x < .2:
                ls[k] = a + ":" + rng.choice(TYPES + ["STANDARD", "VTIMEZONE"])
            continue
        if x < .4:
            ls[k] = a + ":" + rng.choice(BAD)
        elif x < .6:
            i = rng.randrange(len(ls[k]) + 1)
            ls[k] = ls[k][:i] + rng.choice(["", "0", "9", ",", ";", ":", "T", "Z", "-", "\\", '"', "=", " ", "\xc3", "/", "P"]) + ls[k][i + rng.choice([0, 1]):]
        elif x < .8:
            ls[k] = a.split(";")[0] + rng.choice([";VALUE=DATE", ";VALUE=DATE-TIME", ";VALUE=PERIOD", ";VALUE=TEXT", ";VALUE=DURATION", ";VALUE=X-Y", ";TZID=Nowhere/X", ";TZID=", ";VALUE=", ";VALUE=INTEGER",
                                                  ";VALUE=RECUR", ";VALUE=UTC-OFFSET", ";VALUE=URI", ";VALUE=BOOLEAN", ";VALUE=FLOAT", ";RANGE=X", ";RELATED=END", ";VALUE=BINARY", ";ENCODING=BASE64"]) + ":" + rng.choice([b, b, rng.choice(BAD)])
        elif x < .9:
            del ls[k]
        else:
            ls.insert(k, rng.choice([q for q in FULL if not q.startswith(("BEGIN", "END"))]))
    return "\r\n".join(ls) + "\r\n"


def check(run):
    rng = run.rng
    run.mc("NestMC.tla", run.scale("NestMC.cfg", "NestMC_big.cfg"))
    evs = []

    def parse(ls, whole=True, one=False):
        if judged(ls):
            evs.append({"op": "parse", "how": rng.choice(["text", "data", "stream", "inst"]), "strict": int(rng.random() < .25), "data": text(rng, ls, whole)})
    ws = words(run, run.scale("NestGen.cfg", "NestGen_big.cfg"), None)
    for w in ws:
        parse(concrete(rng, w))
    for w in words(run, "NestGen_sim.cfg", run.scale(500, 3000)):
        parse(concrete(rng, w))
    for _ in range(run.scale(900, 6000)):
        d = doc(rng)
        x = rng.random()
        parse(d if x < .3 else damage(rng, d), x < .9)
    sess = []
    for i in range(0, len(evs), 12):
        sess.append({"id": "p%d" % i, "init": {}, "events": evs[i:i + 12]})
    for i in range(run.scale(60, 500)):
        ev = []
        for _ in range(rng.randint(2, 7)):
            d = doc(rng)
            x = rng.random()
            if x < .3:
                d = damage(rng, d)
            elif x < .4:
                d = d + rng.choice([["junk"], doc(rng), [""], ["END:VCALENDAR"]])
            if judged(d):
                ev.append({"op": "one", "how": rng.choice(["text", "stream"]), "strict": int(rng.random() < .25), "data": text(rng, d, x < .9)})
        sess.append({"id": "o%d" % i, "init": {}, "events": ev})
    for i in range(run.scale(120, 3000)):
        sess.append({"id": "f%d" % i, "init": {}, "events": [{"op": "fuzz", "how": rng.choice(["text", "inst"]), "strict": int(rng.random() < .3), "text": fuzz(rng)} for _ in range(4)]})
    run.validate("P19Trace", run.drive("p19", sess))
