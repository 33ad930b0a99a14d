"""P14: deriving occurrences against P14Trace.tla."""
import datetime
TD = datetime.timedelta
D0 = datetime.datetime(2020, 1, 1)
SPRING = datetime.datetime(2020, 3, 8, 7)
AUTUMN = datetime.datetime(2020, 11, 1, 6)


def off_utc(tz, u):
    if tz == "E":
        return -18000 if u < SPRING or u >= AUTUMN else -14400
    return int(tz[1:]) if tz[0] == "O" else 0


def near(u):
    return min(abs(u - SPRING), abs(u - AUTUMN)) < TD(days=1)


def rec(u, tz, do=0):
    """record of the UTC instant u written in zone tz"""
    w = u + TD(seconds=off_utc(tz, u))
    r = {"y": w.year, "m": w.month, "d": w.day, "h": w.hour, "n": w.minute, "s": w.second, "do": do, "tz": tz, "fix": int(tz[1:]) if tz[0] == "O" else 0}
    if do:
        r["h"] = r["n"] = r["s"] = 0
    return r


def to_utc(w, tz):
    """UTC of wall clock w (never near a transition)"""
    if tz == "E":
        return w + TD(seconds=18000 if w < SPRING - TD(hours=5) or w >= AUTUMN - TD(hours=4) else 14400)
    return w - TD(seconds=off_utc(tz, w))


def span(a, b):
    lo, hi = a - TD(days=3), b + TD(days=4)
    return {"lo": [lo.year, lo.month, lo.day], "hi": [hi.year, hi.month, hi.day]}


LINES = ["SUMMARY:a\\, b", "DESCRIPTION;LANGUAGE=en:text", "X-FOO;X-P=\"a:b\";Y=1:val", "CATEGORIES:A,B", "STATUS:CONFIRMED", "LOCATION:x", "SEQUENCE:3", "CLASS:PRIVATE", "COMMENT:one", "COMMENT:two",
         "ORGANIZER;CN=x:mailto:a@example.com", "ATTENDEE;CN=\"b, c\";PARTSTAT=ACCEPTED:mailto:b@example.com", "ATTENDEE:mailto:c@example.com", "TRANSP:TRANSPARENT", "X-DTSTART:20200101T000000",
         "X-DATE;VALUE=DATE:20200101", "LAST-MODIFIED:20200101T000000Z", "CREATED:20190101T000000Z", "PRIORITY:5", "GEO:1.0;2.0", "ATTACH:http://x/y", "RELATED-TO:u9", "X-RRULE:FREQ=DAILY", "URL:http://a/"]
ALARM = ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:al", "TRIGGER:-PT15M", "END:VALARM"]
ALARM2 = ["BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER;RELATED=END:PT5M", "REPEAT:2", "DURATION:PT1M", "END:VALARM"]


def case(rng, i):
    typ = rng.choice(["VEVENT"] * 5 + ["VTODO", "VTODO", "VJOURNAL"])
    do = 1 if rng.random() < .25 else 0
    tz = "F" if do else rng.choice(["F", "Z", "E", "E", "O3600", "O-18000", "O19800"])
    while True:
        w = D0 + TD(days=rng.randint(1, 340), seconds=0 if do else rng.choice([0, 36000, 82800, 86399, 900 * rng.randint(0, 95)]))
        u = to_utc(w, tz)
        if not near(u):
            break
    uid = "u%d" % i
    endform = rng.choice(["end", "end", "dur", "none"]) if typ != "VJOURNAL" else "none"
    ln = 0
    if endform == "none":
        ln = 86400 if do else 0
    elif do:
        ln = 86400 * rng.choice([1, 1, 2, 7])
    else:
        ln = rng.choice([60, 1800, 3600, 5400, 7200, 86399, 3 * 3600, 86400, 3 * 86400])
    lines = ["UID:" + uid, "DTSTAMP:20200101T000000Z"] + rng.sample(LINES, rng.randint(0, 8))
    if typ != "VEVENT":
        lines = [l for l in lines if not l.startswith(("TRANSP", "STATUS", "LOCATION", "GEO", "PRIORITY"))]
    if endform == "dur":
        lines.append("DURATION:" + ("P%dD" % (ln // 86400) if do else "PT%dS" % ln if ln % 60 else "PT%dM" % (ln // 60) if ln % 3600 else "PT%dH" % (ln // 3600)))
    if typ != "VJOURNAL":
        if rng.random() < .3:
            lines += ALARM
        if rng.random() < .15 and endform != "none":
            lines += ALARM2
    start = rec(u, tz, do)
    freq = rng.choice(["DAILY", "DAILY", "WEEKLY", "HOURLY"]) if not do else rng.choice(["DAILY", "WEEKLY"])
    k = rng.choice([1, 1, 2, 3])
    rl = ["RRULE:FREQ=%s;INTERVAL=%d" % (freq, k) + rng.choice(["", ";COUNT=40"])]
    if rng.random() < .3:
        r = rec(u + TD(days=rng.randint(1, 20), seconds=0 if do else 3600), "F" if tz == "F" else "Z", do)
        rl.append(("EXDATE" if rng.random() < .5 else "RDATE") + (";VALUE=DATE:%04d%02d%02d" % (r["y"], r["m"], r["d"]) if do else ":%04d%02d%02dT%02d%02d%02d%s" % (r["y"], r["m"], r["d"], r["h"], r["n"], r["s"], "Z" if r["tz"] == "Z" else "")))
    if rng.random() < .1:
        rl = []
    m = {"typ": typ, "rid": 0, "start": start, "endform": endform, "len": ln, "lines": lines, "rlines": rl}
    if endform == "end":
        etz = tz if tz == "F" or rng.random() < .8 else rng.choice(["Z", "E", "O3600"])
        if near(u + TD(seconds=ln)) or near(u):
            etz = tz
        m["end"] = rec(u + TD(seconds=ln), etz, do)
    comps = [m]
    fail = rng.random()
    if fail < .06:
        comps = [dict(m, rid=1, rlines=[])]
    elif fail < .1:
        comps = [{"typ": "VJOURNAL", "rid": 1, "start": start, "endform": "none", "len": 0, "lines": ["UID:u9", "DTSTAMP:20200101T000000Z"], "rlines": []}] + comps
    elif fail < .2:
        comps = comps + [{"typ": "VJOURNAL", "rid": 0, "start": start, "endform": "none", "len": 0, "lines": ["UID:u9", "DTSTAMP:20200101T000000Z"], "rlines": []}]
    step = {"DAILY": 86400, "WEEKLY": 7 * 86400, "HOURLY": 3600}[freq] * k
    ev = []
    used = set()
    for _ in range(rng.choice([1, 2, 3, 5])):
        x = rng.random()
        if x < .15:
            ev.append(dict({"op": rng.choice(["dup", "expand"])}, **span(u, u + TD(days=9))))
        elif x < .22:
            new = uid + "x"
            ev.append({"op": "rename", "old": "UID:" + uid, "new": "UID:" + new})
            uid = new
        for _ in range(9):
            j = rng.choice([0, 1, 2, 5, rng.randint(0, 30), rng.randint(0, 30)])
            v = to_utc(w + TD(seconds=step * j), tz) if freq != "HOURLY" else u + TD(seconds=step * j)
            if not near(v) and not near(v + TD(seconds=ln)):
                break
        else:
            continue
        rtz = tz if tz == "F" or rng.random() < .5 else rng.choice(["Z", "Z", "E", "O3600"])
        ev.append({"op": "derive", "rid": rec(v, rtz, do), "got": {"null": 1}})
        y = rng.random()
        if y < .3 and fail >= .1 and typ == "VEVENT" and rl and not any("DATE" in l for l in rl) and v not in used and j < 40:
            used.add(v)
            ev.append(dict({"op": "addin", "before": [], "after": []}, **span(u, v)))
        elif y < .4:
            ev.append({"op": "shift", "dup": rng.choice([0, 1])})
    return {"id": "d%d" % i, "init": {"comps": comps}, "events": ev}


def check(run):
    s = [case(run.rng, i) for i in range(run.scale(800, 20000))]
    run.validate("P14Trace", run.drive("p14", s))
