"""Timezone definitions: records as in Tz.tla plus the iCalendar text."""
import datetime
from . import recurgen as g
WD = g.WD


def rec(d, do=0):
    return g.dtrec(d, do)


def off(n):
    a = abs(n)
    t = "%s%02d%02d" % ("-" if n < 0 else "+", a // 3600, a // 60 % 60)
    return t + ("%02d" % (a % 60) if a % 60 else "")


def obs(start, frm, to, name, rules=(), rdates=(), kind="STANDARD"):
    return {"start": rec(start), "from": frm, "to": to, "name": name, "rules": list(rules), "rdates": [rec(x) for x in rdates], "kind": kind}


def yearly(month, nth, wd, until=None, md=None, interval=1, count=0):
    r = dict(g.BASE, freq="YEARLY", bymon=[month], interval=interval, count=count)
    if md is not None:
        r["bymd"] = md
        if wd is not None:
            r["byday"] = [[0, wd]]
    else:
        r["byday"] = [[nth, wd]]
    if until is not None:
        r["hasuntil"], r["until"] = 1, until
    return r


def nth(year, month, k, wd, md=None):
    """wd: 0 = Sunday"""
    days = []
    d = datetime.date(year, month, 1)
    while d.month == month:
        if (d.weekday() + 1) % 7 == wd:
            days.append(d.day)
        d += datetime.timedelta(days=1)
    if md is not None:
        days = [x for x in days if x in md]
        return days[0]
    return days[k - 1] if k > 0 else days[k]


def text(defs, order=None):
    l = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y//EN", "BEGIN:VTIMEZONE", "TZID:X/zone"]
    for o in (order or defs):
        l.append("BEGIN:" + o["kind"])
        l.append("DTSTART:" + g.dttext(o["start"]))
        for r in o["rules"]:
            l.append("RRULE:" + g.text(r))
        if o["rdates"]:
            l.append("RDATE:" + ",".join(g.dttext(x) for x in o["rdates"]))
        if o["name"]:
            l.append("TZNAME:" + o["name"])
        l.append("TZOFFSETFROM:" + off(o["from"]))
        l.append("TZOFFSETTO:" + off(o["to"]))
        l.append("END:" + o["kind"])
    return "\r\n".join(l + ["END:VTIMEZONE", "END:VCALENDAR", ""])


def zone(rng):
    """a chain of eras between two years"""
    y0 = rng.choice([1965, 1985, 1995, 2000, 2003])
    span = rng.choice([4, 8, 12, 20])
    end = y0 + span
    std = 60 * rng.choice([0, -300, -480, -45, -20, 30, 60, 120, 330, 345, 570, 600, -210, rng.randint(-700, 800)]) + rng.choice([0, 0, 0, 0, rng.randint(1, 59)])
    names = rng.choice([("EST", "EDT"), ("", ""), ("", ""), ("LMT+1", "X-DST"), ("CET", "CEST"), ("A", "")])
    defs = []
    cur = std
    t = lambda: (rng.choice([0, 1, 2, 2, 3, 23]), rng.choice([0, 0, 30, 30, 59]), rng.choice([0, 0, 0, 0, 58]))
    if rng.random() < .7:
        first = 60 * rng.choice([-10, 7, 30, 45, -60]) + std + rng.choice([0, 2, 58])
        defs.append(obs(datetime.datetime(y0 - rng.randint(1, 3), rng.randint(1, 12), rng.randint(1, 28), *t()), first, std, rng.choice([names[0], "LMT"])))
    y = y0
    events = []
    while y < end and len(defs) < 9:
        era = rng.choice([1, 2, 3, 5, 30])
        ye = min(y + era, end + 40)
        last = ye >= end
        k = rng.random()
        dst = std + 60 * rng.choice([60, 60, 60, 30, 120, -60])
        if k < .55:
            m1, m2 = rng.choice([(3, 11), (4, 10), (3, 9), (2, 5), (1, 12), (5, 8)])
            kinds = []
            for (m, frm, to, nm, kd) in ((m1, std, dst, names[1], "DAYLIGHT"), (m2, dst, std, names[0], "STANDARD")):
                h = t()
                wd = rng.choice([0, 0, 0, 6, 3])
                if rng.random() < .3:
                    md = list(range(8, 15))
                    kk = 0
                else:
                    md = None
                    kk = rng.choice([1, 2, -1, -1, 4])
                st = datetime.datetime(y, m, nth(y, m, kk, wd, md), *h)
                until = None
                count = 0
                if not last:
                    lastd = datetime.datetime(ye - 1, m, nth(ye - 1, m, kk, wd, md), *h)
                    how = rng.random()
                    if how < .6:      # UTC of the last onset, or somewhat later
                        u = lastd - datetime.timedelta(seconds=frm) + datetime.timedelta(seconds=rng.choice([0, 0, 0, 3600, 86400 * 20]))
                        until = dict(rec(u), tz="Z")
                    elif how < .8:
                        count = ye - y
                    else:
                        until = rec(lastd + datetime.timedelta(days=rng.choice([0, 1, 30])))
                if not last and ye - y == 1 and rng.random() < .5:
                    kinds.append(obs(st, frm, to, nm, kind=kd))
                else:
                    kinds.append(obs(st, frm, to, nm, [yearly(m, kk, wd, until, md, 1, count)], kind=kd))
            defs += kinds
        elif k < .8:
            a, b = [], []
            n = min(ye, end + 2) - y
            for yy in range(y, y + max(n, 1)):
                a.append(datetime.datetime(yy, rng.choice([2, 3, 4]), rng.randint(1, 28), *t()))
                b.append(datetime.datetime(yy, rng.choice([9, 10, 11]), rng.randint(1, 28), *t()))
            extra_a, extra_b = a[1:], b[1:]
            if rng.random() < .4:
                extra_a, extra_b = list(a), list(b)            # RDATE repeats the start
            rng.shuffle(extra_a)
            defs.append(obs(a[0], std, dst, names[1], (), extra_a, "DAYLIGHT"))
            defs.append(obs(b[0], dst, std, names[0], (), extra_b, "STANDARD"))
            ye = y + max(n, 1)
        else:
            new = std + 60 * rng.choice([0, 30, 60, -60, -30, 15])
            m = rng.choice([1, 6, 12])
            day = datetime.datetime(y, m, rng.choice([1, 15, 28]), *t())
            if rng.random() < .5:       # at the turn of the year
                day = rng.choice([datetime.datetime(y, 1, 1), datetime.datetime(y, 1, 1, 2), datetime.datetime(y, 12, 31, 23)])
            defs.append(obs(day, std, new, rng.choice([names[0], "NEW"])))
            std = new
        y = ye
    order = list(defs)
    if rng.random() < .4:
        rng.shuffle(order)
    return {"def": defs, "text": text(defs, order), "lo": y0 - 3, "top": end + 3}


def when(rng, z):
    d = datetime.datetime(rng.randint(z["lo"], z["top"]), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 1, 2, 3, 12, 23]), rng.choice([0, 0, 30, 59]), rng.choice([0, 0, 59]))
    if rng.random() < .6:
        # next to an onset
        o = rng.choice(z["def"])
        s = g.todt(rng.choice([o["start"]] + o["rdates"]))
        if o["rules"]:
            r = o["rules"][0]
            y = rng.randint(s.year, min(z["top"], s.year + 12))
            bd = r["byday"][0]
            s = s.replace(year=y, day=nth(y, s.month, bd[0], bd[1], r["bymd"] or None))
        d = s + datetime.timedelta(seconds=rng.choice([0, 0, -1, 1, 60, -60, 3600, -3600, 1800, -1800, 7200, -7200, 86400, -86400, 59, -59, -o["from"], -o["from"] - 1, -o["from"] + 1, -o["from"] - 59, 
                                                   -o["from"] + 40]))
    return d


def query(rng, z, nobj=1):
    i = rng.randint(1, nobj)
    k = rng.random()
    d = when(rng, z)
    if k < .45:
        rel = rng.randint(0, 1)
        r = rec(d)
        if not rel and rng.random() < .1:
            r = rec(d.replace(hour=0, minute=0, second=0), 1)
        return {"op": "off", "i": i, "dt": r, "rel": rel}
    if k < .6:
        return {"op": "desc", "i": i, "dt": rec(d)}
    if k < .78:
        hi = when(rng, z)
        lo = {"y": 0}
        if rng.random() < .7:
            l = when(rng, z)
            if l > hi:
                l, hi = hi, l
            lo = rec(l)
        return {"op": "range", "i": i, "lo": lo, "hi": rec(hi), "names": rng.randint(0, 1)}
    return {"op": rng.choice(["fromutc", "fromlocal"]), "i": i, "dt": rec(d)}
