"""P07: rule expansion against Recur.tla (declarative RFC 5545 recurrence sets)."""
import datetime
from . import recurgen as g


def case(rng, i, freq=None):
    s = g.start(rng)
    r = g.rule(rng, s, freq)
    days = g.span(rng, r)
    g.bounded(rng, r, s, days)
    ev = []
    for _ in range(rng.choice([1, 1, 2])):
        lo, hi = g.rng_range(rng, s, days)
        ev.append({"op": "expand", "lo": lo, "hi": hi})
    return {"id": "r%d" % i, "init": {"rule": r, "start": s, "text": g.text(r, rng if rng.random() < .3 else None)}, "events": ev}


def systematic():
    """every BY part alone with every legal value, for each frequency the tables allow, over a leap and a common year"""
    out = []

    def add(name, s, days, **kw):
        r = {k: (list(v) if isinstance(v, list) else v) for k, v in g.BASE.items()}
        r.update(kw)
        a = g.todt(s)
        b = a + datetime.timedelta(days=days)
        out.append({"id": name, "init": {"rule": r, "start": s, "text": g.text(r)},
                    "events": [{"op": "expand", "lo": s, "hi": g.dtrec(b, s["do"], s["tz"])}]})
    jan = {"y": 2023, "m": 1, "d": 31, "h": 10, "n": 30, "s": 15, "do": 0, "tz": "Z"}
    mar = {"y": 2024, "m": 2, "d": 29, "h": 0, "n": 0, "s": 0, "do": 1, "tz": "F"}
    for s in (jan, mar):
        for m in range(1, 13):
            add("ymon%d" % m, s, 1500, freq="YEARLY", bymon=[m])
            add("ymonsu%d" % m, s, 800, freq="YEARLY", bymon=[m], byday=[[0, 0]])
            add("mmon%d" % m, s, 800, freq="MONTHLY", bymon=[m])
            add("dmon%d" % m, s, 400, freq="DAILY", bymon=[m])
        for d in list(range(1, 32)) + list(range(-31, 0)):
            add("mmd%d" % d, s, 500, freq="MONTHLY", bymd=[d])
            add("ymd%d" % d, s, 800, freq="YEARLY", bymd=[d])
            add("dmd%d" % d, s, 90, freq="DAILY", bymd=[d])
        for w in range(7):
            add("wwk%d" % w, s, 60, freq="WEEKLY", byday=[[0, 1], [0, 0], [0, 3]], wkst=w, interval=2)
            add("wday%d" % w, s, 60, freq="WEEKLY", byday=[[0, w]])
            add("dday%d" % w, s, 40, freq="DAILY", byday=[[0, w]])
            add("mday%d" % w, s, 100, freq="MONTHLY", byday=[[0, w]])
            add("yday%d" % w, s, 800, freq="YEARLY", byday=[[0, w]])
            for n in (1, 2, 3, 4, 5, -1, -2, -3, -4, -5):
                add("mn%d,%d" % (n, w), s, 500, freq="MONTHLY", byday=[[n, w]])
            for n in (1, 2, 26, 52, 53, -1, -2, -52, -53):
                add("yn%d,%d" % (n, w), s, 1600, freq="YEARLY", byday=[[n, w]])
        for n in list(range(1, 54)) + [-1, -2, -26, -52, -53]:
            add("wkno%d" % n, s, 2600, freq="YEARLY", bywk=[n], byday=[[0, 1], [0, 0], [0, 4]])
        for n in (1, 2, 31, 32, 58, 59, 60, 61, 90, 364, 365, 366):
            add("yd%d" % n, s, 1600, freq="YEARLY", byyd=[n])
            add("yd-%d" % n, s, 1600, freq="YEARLY", byyd=[-n])
        for p in (1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 366, -366):
            add("msp%d" % p, s, 300, freq="MONTHLY", byday=[[0, 1], [0, 2], [0, 5]], bysp=[p])
            add("ysp%d" % p, s, 1600, freq="YEARLY", byday=[[0, 1]], bysp=[p])
            add("wsp%d" % p, s, 60, freq="WEEKLY", byday=[[0, 1], [0, 2], [0, 5]], bysp=[p])
    for wk in range(7):                    # placement of the weeks of longer intervals
        for sd in range(7):
            s = {"y": 2024, "m": 9, "d": 1 + sd, "h": 9, "n": 0, "s": 0, "do": 0, "tz": "F"}
            for w in range(7):
                for iv in (2, 3):
                    add("wk%d,%d,%d,%d" % (wk, sd, w, iv), s, 7 * iv * 2 + 8, freq="WEEKLY", byday=[[0, w]] + ([[0, (w + 3) % 7]] if (wk + w) % 2 else []), wkst=wk, interval=iv)
    for h in range(24):
        add("dh%d" % h, jan, 4, freq="DAILY", byhour=[h, (h + 5) % 24])
        add("hh%d" % h, jan, 4, freq="HOURLY", byhour=[h])
    for m in range(0, 60, 7):
        add("hm%d" % m, jan, 1, freq="HOURLY", bymin=[m, 59])
        add("mm%d" % m, jan, .5, freq="MINUTELY", bymin=[m])
        add("ms%d" % m, jan, .02, freq="MINUTELY", bysec=[m, 0])
        add("ss%d" % m, jan, .005, freq="SECONDLY", bysec=[m])
    return out


def check(run):
    run.mc("RecurMC.tla", run.scale("RecurMC.cfg", "RecurMC_big.cfg"))
    s = systematic() + [case(run.rng, i) for i in range(run.scale(700, 20000))]
    recs = run.drive("p07", s)
    run.validate("P07Trace", recs)
