"""P03: value texts against the grammars of ValueText.tla."""
ALPHA = "0123456789TZPWDHMS+-/:.,;x e"


def date(rng):
    y = rng.choice([1, 9, 99, 1600, 1752, 1753, 1899, 1900, 1970, 1999, 2000, 2020, 2024, 2100, 9999, rng.randint(1, 9999)])
    m = rng.randint(1, 12)
    return y, m, rng.choice([1, 28, rng.randint(1, 28), 29, 30, 31])


def dt(rng, ext=False):
    y, m, d = date(rng)
    t = ("%04d-%02d-%02d" if ext else "%04d%02d%02d") % (y, m, d)
    if rng.random() < .2:
        return t
    h = (rng.choice([0, 23, 12, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)]))
    t += ("T%02d:%02d:%02d" if ext else "T%02d%02d%02d") % h
    if ext and rng.random() < .2:
        t += ",%d" % rng.choice([0, 5, 123])
    if ext and rng.random() < .4:
        return t + rng.choice(["+%02d:%02d", "-%02d:%02d", "+%02d%02d", "-%02d%02d"]) % (rng.randint(0, 14), rng.choice([0, 30, 45, rng.randint(0, 59)]))
    return t + rng.choice(["", "Z"])


def num(rng):
    return str(rng.choice([0, 1, 2, 7, 10, 23, 24, 59, 60, 61, 90, 99999, rng.randint(0, 300), "00", "007"]))


def dur(rng):
    t = rng.choice(["", "", "+", "-"]) + "P"
    k = rng.random()
    if k < .2:
        return t + num(rng) + "W"
    if k < .35:
        return t + num(rng) + "D"
    if k < .65:
        t += num(rng) + "D"
    t += "T"
    parts = rng.choice(["H", "M", "S", "HM", "MS", "HMS", "HS"])
    return t + "".join(num(rng) + c for c in parts)


def per(rng):
    a = dt(rng)
    while "T" not in a:
        a = dt(rng)
    if rng.random() < .5:
        return a + "/" + rng.choice([dur(rng).lstrip("-"), dur(rng)])
    b = dt(rng)
    while "T" not in b:
        b = dt(rng)
    return a + "/" + (b.rstrip("Z") + ("Z" if a.endswith("Z") else ""))


def off(rng, ext=False):
    c = ":" if ext else ""
    t = rng.choice("+-") + "%02d%s%02d" % (rng.choice([0, 1, 5, 11, 12, 14, 23, rng.randint(0, 23)]), c, rng.choice([0, 30, 45, 59, rng.randint(0, 59)]))
    if rng.random() < .4:
        t += c + "%02d" % rng.randint(0, 59)
    return t


def integer(rng):
    return rng.choice(["", "+", "-"]) + rng.choice([str(rng.randint(0, 10)), str(rng.randint(0, 2147483647)), "0", "00", "007", "2147483647", "2147483648", str(10 ** rng.randint(1, 14))])


def flt(rng):
    t = rng.choice(["", "+", "-"])
    n = rng.choice([1, 1, 2, 3, 5, 9, 12])
    t += rng.choice(["0", "1", "37", "0" * rng.randint(1, 3) + "7", str(rng.randint(0, 10 ** n - 1)), "1" + "0" * n])
    if rng.random() < .75:
        t += "." + rng.choice(["0", "5", "0" * rng.randint(1, 9) + str(rng.randint(1, 99)), str(rng.randint(0, 10 ** rng.randint(1, 8))), "386013"])
    return t


GEN = {"dt": dt, "dtx": lambda r: dt(r, r.random() < .75), "dur": dur, "per": per, "off": off, "offx": lambda r: off(r, True), "int": integer, "flt": flt}


def mutate(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        i = rng.randrange(len(t)) if t else 0
        if k < .3 and t:
            del t[i]
        elif k < .55:
            t.insert(rng.randint(0, len(t)), rng.choice(ALPHA))
        elif k < .8 and t:
            t[i] = rng.choice(ALPHA)
        elif k < .9 and t:
            del t[i:]
        elif t:
            t.append(t[i])
    return "".join(t)


FIXED = {"dt": ["", "T", "Z", "20200101T", "2020", "20200101T000000ZZ", "20200101T00000", "20200101 T000000", "2020010a", "20200101T00000aZ", "20200101TT00000"],
         "dtx": ["", "2020-01-01T", "2020-01-01T00:00:00+", "2020-01-01T00:00:00+0", "2020-01-01T00:00:00+01:", "2020-01-01T00:00:00,", "2020-01-01T00:00:00,5+01:0",
                 "2020-01-01T00:00:00+01:5", "2020-01-01T00:00:00+1:30", "2020-01-01T00:00:00Z5"],
         "dur": ["", "P", "T", "PT", "P1", "P1DT", "-P", "P1W1D", "P1WT1H", "P1D1H", "PT1", "PT1D", "PT1H1", "PT1H1H", "PT1M1H", "PT1S1M", "P1M", "P1Y", "1D", "PT1HX", "PT1SX", "P1DX",
                 "--P1D", "P-1D", "PT-1H", "P+1W", "P1.5D", "PTH", "PT1HM", "P1D2D", "P1D1W", "p1d", "-PT0S", "+P0D", "P0W", "PT0H0M0S", "P1WX", "P2W ", "P1D T1H"],
         "per": ["", "/", "20200101T000000Z", "20200101T000000Z/", "/P1D", "20200101T000000Z/20200102T000000Z/P1D", "20200101T000000Z//P1D", "20200101T000000Z/P", "20200101T000000Z/+P1D",
                 "20200101T000000Z/PT0S", "20200101T000000Z/P1", "20200101T000000/PT1H"],
         "off": ["", "+", "0000", "+000", "+00000", "+0000000", "+0a00", "+00a0", "+ 100", "+1 00", "++100", "+-100", "+01:00", "+0100 ", "+0100a0", "+01000a", "+000001", "-000001"],
         "offx": ["", "+", "+01x30", "+01:3a", "+01:30:0a", "+01:30x00", "+01:30x0a", "+1:300", "+ 1:30", "+01: 3", "01:30", "+01:30:00:"],
         "int": ["", "+", "-", " 1", "1 ", "1.0", "1e5", "0x10", "1L", "--1", "+-1", "1_0", "- 1", "a", "1,2"],
         "flt": ["", "+", "-", ".", "1.", ".5", "1e5", "1E-5", "nan", "inf", "-inf", "infinity", " 1.0", "1.0 ", "1.0f", "1..0", "1.0.0", "+-1.0", "0x1p3", "1_0.0", "- 1.0"]}


def check(run):
    ev = []
    for ty, l in FIXED.items():
        for t in l:
            for s in (0, 1):
                ev.append({"type": ty, "text": t, "strict": s})
    n = run.scale(1500, 25000)
    for ty, g in GEN.items():
        for i in range(n):
            t = g(run.rng)
            s = run.rng.randint(0, 1)
            ev.append({"type": ty, "text": t, "strict": s})
            ev.append({"type": ty, "text": mutate(run.rng, t), "strict": s})
    for e in ev:
        e["op"] = "value"
    # every offset, every duration below three hours and around day boundaries
    for h in range(24):
        for m in range(60):
            for sg in "+-":
                ev.append({"op": "value", "type": "off", "text": "%s%02d%02d" % (sg, h, m), "strict": 1})
                ev.append({"op": "value", "type": "offx", "text": "%s%02d:%02d" % (sg, h, m), "strict": 1})
    sess = [{"id": "s%d" % i, "init": {}, "events": ev[i:i + 150]} for i in range(0, len(ev), 150)]
    recs = run.drive("p03", sess)
    run.validate("P03Trace", recs)
