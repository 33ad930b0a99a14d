"""P24: free-busy queries over random events (recurring, overridden, cancelled, transparent) and free-busy components."""
import datetime

H = 60
D = 1440


def when(t, tz="Z"):
    d = datetime.datetime(2020, 1, 1) + datetime.timedelta(minutes=t)
    if tz == "Z":
        return ":" + d.strftime("%Y%m%dT%H%M%SZ")
    return ";TZID=Fix/Two:" + (d + datetime.timedelta(hours=2)).strftime("%Y%m%dT%H%M%S")


def dur(n):
    return "PT%dM" % n if n % H else "PT%dH" % (n // H)


def kind(rng):
    """type and the lines that give it"""
    r = rng.random()
    if r < .4:
        return 3, rng.choice([[], ["STATUS:CONFIRMED"], ["TRANSP:OPAQUE"], ["STATUS:CONFIRMED", "TRANSP:OPAQUE"], ["STATUS:confirmed"]])
    if r < .7:
        return 1, rng.choice([["STATUS:TENTATIVE"], ["STATUS:Tentative"], ["TRANSP:OPAQUE", "STATUS:TENTATIVE"]])
    if r < .85:
        return 0, rng.choice([["STATUS:CANCELLED"], ["STATUS:cancelled"]])
    return 0, rng.choice([["TRANSP:TRANSPARENT"], ["TRANSP:transparent", "STATUS:CONFIRMED"], ["TRANSP:TRANSPARENT", "STATUS:TENTATIVE"]])


def length(rng):
    return rng.choice([30, 60, 60, 90, 240, 1500, 3000])


def event(rng, n):
    tz = rng.choice(["Z", "Z", "Z", "L"])
    t, kl = kind(rng)
    ev = {"start": rng.randrange(0, 96) * 30, "len": length(rng), "every": 0, "count": 1, "ex": [], "over": [], "type": t}
    ls = ["UID:e%d" % n, "DTSTAMP:20200101T000000Z", "DTSTART" + when(ev["start"], tz)] + kl
    ls.append("DURATION:" + dur(ev["len"]) if rng.random() < .5 else "DTEND" + when(ev["start"] + ev["len"], tz))
    comps = []
    if rng.random() < .15:      # all day: does not count
        ev["type"] = 0
        ls = ["UID:e%d" % n, "DTSTAMP:20200101T000000Z", "DTSTART;VALUE=DATE:2020010%d" % rng.randint(1, 3)] + kl
    elif rng.random() < .6:
        f, ev["every"] = rng.choice([("HOURLY;INTERVAL=6", 6 * H), ("DAILY", D), ("DAILY;INTERVAL=2", 2 * D), ("WEEKLY", 7 * D)])
        ev["count"] = rng.randint(1, 5)
        ls.append("RRULE:FREQ=%s;COUNT=%d" % (f, ev["count"]))
        for k in range(ev["count"]):
            at = ev["start"] + k * ev["every"]
            r = rng.random()
            if r < .2:
                ev["ex"].append(k)
                ls.append("EXDATE" + when(at, tz))
            elif r < .45:
                s, l = at + rng.choice([0, -60, 90, 1440, -3000]), length(rng)
                ot, ol = kind(rng)
                ev["over"].append([k, s, l, ot])
                comps.append(["UID:e%d" % n, "RECURRENCE-ID" + when(at, tz), "DTSTAMP:20200101T000000Z", "DTSTART" + when(s, rng.choice(["Z", tz])), "DURATION:" + dur(l)] + ol)
    rng.shuffle(ls)
    comps.append(ls)
    rng.shuffle(comps)
    return ev, comps


FB = {"": 3, "BUSY": 3, "busy": 3, "BUSY-UNAVAILABLE": 2, "BUSY-TENTATIVE": 1, "Busy-Tentative": 1, "FREE": 0, "free": 0, "X-OOF": 3}


def fbitems(rng):
    items, ls = [], []
    for i in range(rng.randint(0, 4)):
        ty = rng.choice(list(FB))
        ps = []
        for j in range(rng.randint(1, 3)):
            a, l = rng.randrange(0, 160) * 30, length(rng)
            if items and rng.random() < .3:         # around the one before
                a = items[-1][1] - rng.choice([0, 30, 60])
                l = items[-1][2] + rng.choice([0, 30, 120]) - a
            items.append([FB[ty], a, a + l])
            ps.append(when(a)[1:] + "/" + (dur(l) if rng.random() < .5 else when(a + l)[1:]))
        ls.append("FREEBUSY" + (";FBTYPE=" + ty if ty else "") + ":" + ",".join(ps))
    return items, ls


def freebusy(rng, n):
    items, ls = fbitems(rng)
    span = []
    head = ["UID:%d" % n, "DTSTAMP:20200101T000000Z"]
    if rng.random() < .5:
        span = [-rng.randrange(0, 3) * 30, 9000]
        head += ["DTSTART" + when(span[0]), "DTEND" + when(span[1])]
    return {"items": items, "span": span}, head + ls


def session(rng, i):
    evs, fbs, comps = [], [], []
    for n in range(rng.choice([0, 1, 1, 2, 3, 5])):
        ev, cs = event(rng, n)
        evs.append(ev)
        comps += [("VEVENT", c) for c in cs]
    for n in range(rng.choice([0, 0, 1, 2])):
        fb, c = freebusy(rng, n + 1)
        fbs.append(fb)
        comps.append(("VFREEBUSY", c))
    ls = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VTIMEZONE", "TZID:Fix/Two", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0200", "TZNAME:X",
          "END:STANDARD", "END:VTIMEZONE"]
    for t, c in comps:
        ls += ["BEGIN:" + t] + c + ["END:" + t]
    ls.append("END:VCALENDAR")
    out = []
    for k in range(rng.randint(3, 6)):
        a = rng.choice([-1000, 0, rng.randrange(0, 160) * 30, rng.randrange(0, 300) * 15])
        at = [it for fb in fbs for it in fb["items"]]
        if at and rng.random() < .4:            # at the edge of a free-busy item
            a = rng.choice(at)[rng.choice([1, 2])] + rng.choice([0, -30, -15, -60])
        e = {"op": rng.choice(["query", "query", "vfb", "list"] + (["comp", "comp", "change"] if fbs else [])), "a": a, "b": a + rng.choice([30, 60, 120, 1440, 1440, 10080, 20000])}
        if e["op"] in ("comp", "change"):
            e["i"] = rng.randint(1, len(fbs))
        if e["op"] == "change":
            del e["a"], e["b"]
            e["items"], e["lines"] = fbitems(rng)
        out.append(e)
    return {"id": "fb%d" % i, "init": {"evs": evs, "fbs": fbs, "text": list(("\r\n".join(ls) + "\r\n").encode())}, "events": out}


def nested(rng, i):
    """one free-busy component without a span of its own whose items are listed in any order; questions at its edges"""
    base = rng.randrange(20, 100) * 30
    items, ls = [], []
    for _ in range(rng.randint(2, 5)):
        ty = rng.choice(["", "BUSY", "BUSY-TENTATIVE", "BUSY-UNAVAILABLE", "FREE"])
        k = rng.random()
        if not items or k < .2:
            a, z = base + rng.randrange(-4, 5) * 30, base + rng.randrange(5, 9) * 30
        elif k < .6:            # around everything so far
            a, z = min(x[1] for x in items) - rng.choice([30, 60]), max(x[2] for x in items) + rng.choice([30, 90])
        elif k < .8:
            z = max(x[2] for x in items) + 30
            a = z - 60
        else:
            a = min(x[1] for x in items) - 30
            z = a + 60
        items.append([FB[ty], a, z])
        ls.append("FREEBUSY" + (";FBTYPE=" + ty if ty else "") + ":" + when(a)[1:] + "/" + (dur(z - a) if rng.random() < .5 else when(z)[1:]))
    text = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VFREEBUSY", "UID:1", "DTSTAMP:20200101T000000Z"] + ls + ["END:VFREEBUSY", "END:VCALENDAR", ""]
    out = []
    for _ in range(4):
        a = rng.choice([rng.choice(items)[2] - 15, max(x[2] for x in items) - 15, min(x[1] for x in items) - 15, base])
        e = {"op": rng.choice(["query", "comp", "vfb"]), "a": a, "b": a + rng.choice([30, 120])}
        if e["op"] == "comp":
            e["i"] = 1
        out.append(e)
    return {"id": "ne%d" % i, "init": {"evs": [], "fbs": [{"items": items, "span": []}], "text": list("\r\n".join(text).encode())}, "events": out}


def check(run):
    run.mc("BusyResolve.tla", run.scale("BusyResolve.cfg", "BusyResolve_big.cfg"))
    run.validate("P24Trace", run.drive("p24", [session(run.rng, i) for i in range(run.scale(400, 12000))] + [nested(run.rng, i) for i in range(run.scale(80, 2000))]))
