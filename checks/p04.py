"""P04: durations and periods against the interval algebra of P04Trace.tla."""
import datetime
from . import recurgen as g
EDGE = [0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 604799, 604800, 604801, 1209600, 31536000]


def secs(rng):
    return rng.choice([rng.choice(EDGE), rng.randint(0, 200000), rng.randint(0, 10 ** 8), 3600 * rng.randint(0, 100), 604800 * rng.randint(0, 9), 60 * rng.randint(0, 5000)])


def dtext(rng):
    t = rng.choice(["", "+", "-"]) + "P"
    n = lambda: str(rng.choice([0, 1, 7, 23, 24, 36, 59, 60, 90, 365, rng.randint(0, 99999)]))
    k = rng.random()
    if k < .2:
        return t + n() + "W"
    if k < .6:
        t += n() + "D"
        if rng.random() < .4:
            return t
    return t + "T" + "".join(n() + c for c in rng.choice(["H", "M", "S", "HM", "MS", "HMS"]))


def base(rng, kind):
    d = datetime.datetime(rng.choice([1969, 1999, 2000, 2011, 2020, 2024, 2100]), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 0, 12, 23]), rng.choice([0, 30, 59]), rng.choice([0, 0, 59]))
    return d


def rec(d, kind):
    if kind == "D":
        return g.dtrec(d, 1, "F")
    return dict(g.dtrec(d), tz=kind)


def near(rng, d, kind):
    if kind == "D":
        return d + datetime.timedelta(days=rng.choice([0, 0, 1, -1, 2, 7, 30, rng.randint(-40, 40)]))
    return d + datetime.timedelta(seconds=rng.choice([0, 0, 1, -1, 3600, -3600, 86400, 7200, rng.randint(-200000, 200000)]))


def mk(rng, kind, ref, i):
    s = near(rng, ref, kind)
    use = rng.randint(0, 1)
    step = 86400 if kind == "D" else 1
    n = rng.choice([0, 1, 3600, 7200, 86400, rng.randint(0, 200000)]) if step == 1 else 86400 * rng.choice([0, 1, 2, 7, 14, 31])
    e = s + datetime.timedelta(seconds=n)
    r = {"op": "new", "i": i, "how": "api", "use": use, "s": rec(s, kind), "e": rec(e, kind), "days": n // 86400, "secs": n % 86400}
    if rng.random() < .3 and kind in ("F", "Z"):
        r["how"] = "text"
        r["text"] = g.dttext(r["s"]) + "/" + (("P%dD" % r["days"] if not r["secs"] else "P%dDT%dS" % (r["days"], r["secs"])) if use else g.dttext(r["e"]))
    return r


def session(rng, k):
    kind = rng.choice(["Z", "Z", "F", "D", "O19800", "O-18000"])
    ref = base(rng, kind)
    if kind == "D":
        ref = ref.replace(hour=0, minute=0, second=0)
    ev = []
    for i in (1, 2, 3):
        ev.append(mk(rng, kind, ref, i))
    conv = False
    for _ in range(rng.randint(6, 22)):
        i, j = rng.randint(1, 3), rng.randint(1, 3)
        x = rng.random()
        if x < .12:
            ev.append({"op": "use", "i": i, "use": rng.randint(0, 1)})
        elif x < .18:
            ev.append({"op": "dup", "i": i, "j": j})
        elif x < .22 and kind.startswith("O"):
            for m in (1, 2, 3):
                ev.append({"op": "utc", "i": m})
            conv = True
        elif x < .28 and not conv:
            ev.append(mk(rng, kind, ref, i))
        elif x < .55:
            o = ["start", "end", "len", "use", "text"]
            rng.shuffle(o)
            ev.append({"op": "look", "i": i, "order": o})
        elif x < .75:
            t = near(rng, ref, kind)
            # often exactly at an edge of some period
            c = [e for e in ev if e["op"] == "new"]
            r = rec(t, kind)
            if rng.random() < .6:
                r = dict(rng.choice(c)[rng.choice(["s", "e"])])
            if not conv:
                ev.append({"op": "point", "i": i, "t": r})
        elif x < .95:
            ev.append({"op": "pair", "i": i, "j": j})
        else:
            ev.append({"op": "sort", "list": [mk(rng, kind, ref, 1) for _ in range(rng.randint(2, 9))]})
    return {"id": "p%d" % k, "init": {}, "events": ev}


def durs(rng, n, full):
    ev = []
    for d in range(0, 16):
        for s in [0, 1, 59, 60, 61, 3599, 3600, 3661, 43200, 86399]:
            for sg in (1, -1):
                for how in ("secs", "set", "neg"):
                    ev.append({"op": "dur", "how": how, "days": sg * d, "secs": sg * s})
    for _ in range(n):
        v = secs(rng) * rng.choice([1, -1])
        sg = -1 if v < 0 else 1
        ev.append({"op": "dur", "how": rng.choice(["secs", "set", "neg"]), "days": sg * (abs(v) // 86400), "secs": sg * (abs(v) % 86400)})
        ev.append({"op": "dur", "how": "text", "text": dtext(rng), "days": 0, "secs": 0})
        p = [rng.choice([0, 0, 1, 5]), rng.choice([0, 1, 6, 7, 13]), rng.choice([0, 0, 23, 24, 50]), rng.choice([0, 0, 59, 60, 90]), rng.choice([0, 0, 59, 60, 3601])]
        ev.append({"op": "dur", "how": "parts", "parts": p, "days": p[0] * 7 + p[1], "secs": p[2] * 3600 + p[3] * 60 + p[4]})
        a = secs(rng) * rng.choice([1, 1, -1])
        b = rng.choice([a, a + 1, a - 1, -a, secs(rng)])
        sp = lambda v: [(1 if v >= 0 else -1) * (abs(v) // 86400), (1 if v >= 0 else -1) * (abs(v) % 86400)]
        ev.append({"op": "durcmp", "a": sp(a), "b": sp(b)})
    return [{"id": "d%d" % i, "init": {}, "events": ev[i:i + 100]} for i in range(0, len(ev), 100)]


def check(run):
    s = durs(run.rng, run.scale(1200, 20000), run.thorough) + [session(run.rng, i) for i in range(run.scale(1500, 25000))]
    recs = run.drive("p04", s)
    run.validate("P04Trace", recs)
