"""P15: round trips and equality of random calendars against their meaning (CalCanon.tla)."""
from checks import icalgen as g


def mutate(rng, c):
    c = g.copy(c)
    all_ = list(g.walk(c))
    for _ in range(20):
        x = rng.choice(all_)
        y = rng.random()
        if y < .2 and x[1]:
            l = rng.choice(x[1])
            if not l.startswith(("VERSION", "DTSTART", "DTEND", "DUE", "RECURRENCE", "TRIGGER", "TZID", "POLL-ITEM-ID")):
                x[1].remove(l)
                return c
        elif y < .35:
            x[1].append(g.known(rng))
            return c
        elif y < .5:
            q = [l for l in x[1] if l.startswith(("X-", "COMMENT", "SUMMARY", "CATEGORIES", "ATTENDEE", "DESCRIPTION", "x-"))]
            if q:
                l = rng.choice(q)
                x[1].remove(l)
                z = rng.random()
                if z < .4 and "VALUE=" not in l:
                    x[1].append(l + "x")
                elif z < .6:
                    n = min(i for i in (l.find(":"), l.find(";")) if i > 0)
                    x[1].append(l[:n] + ";X-EXTRA=1" + l[n:])
                elif z < .8:
                    x[1] += [l, l]
                else:
                    n = min(i for i in (l.find(":"), l.find(";")) if i > 0)
                    x[1].append(l[:n] + "Z" + l[n:])
                return c
        elif y < .65 and x[2]:
            k = rng.choice(x[2])
            if k[0] not in ("STANDARD", "DAYLIGHT"):
                x[2].remove(k)
                return c
        elif y < .75 and x[2]:
            k = rng.choice(x[2])
            x[2].append(g.copy(k))
            return c
        elif y < .85:
            # notation only
            for i, l in enumerate(x[1]):
                if "\\n" in l and l.split(":")[0].split(";")[0] in ("SUMMARY", "DESCRIPTION", "COMMENT", "LOCATION") and ";" not in l.split(":")[0]:
                    x[1][i] = l.replace("\\\\", "\x00").replace("\\n", "\\N").replace("\x00", "\\\\")
                    return c
        elif y < .95:
            for i, l in enumerate(x[1]):
                if l.startswith("SUMMARY:"):
                    x[1][i] = "SUMMARY;VALUE=" + g.cased(rng, "TEXT") + l[7:]
                    return c
                if l.startswith(("DTSTAMP:", "DTSTART:")):
                    x[1][i] = l[:7] + ";VALUE=" + g.cased(rng, "DATE-TIME") + l[7:]
                    return c
        else:
            if len(x[2]) >= 2 and all(k[0] == x[2][0][0] for k in x[2][:2]):
                a, b = x[2][0], x[2][1]
                q = [l for l in a[1] if l.startswith(("X-", "COMMENT", "SUMMARY"))]
                if q:       # a property moved to the neighbour
                    a[1].remove(q[0])
                    b[1].append(q[0])
                    return c
    return c


def check(run):
    rng = run.rng
    sess = []
    for i in range(run.scale(90, 5000)):
        ev = []
        c = g.calendar(rng, twins=True) if i % 5 else g.dense(rng)
        ev.append({"op": "rt", "data": g.octets(rng, c)})
        s = g.shuffled(rng, c, rng.random() < .8, rng.random() < .8)
        ev.append({"op": "two", "data": g.octets(rng, c), "data2": g.octets(rng, s)})
        m = mutate(rng, c)
        if rng.random() < .3:
            m = g.shuffled(rng, m)
        ev.append({"op": "two", "data": g.octets(rng, c), "data2": g.octets(rng, m)})
        sess.append({"id": "c%d" % i, "init": {}, "events": ev})
    run.validate("P15Trace", run.drive("p15", sess))
