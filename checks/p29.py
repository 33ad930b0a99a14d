"""P29: alarms over random triggers, repeats, actions and components, polled and edited along histories from AlarmHist.tla."""
from checks import icalgen as g

NONE = -2147483647


def o(t):
    return list(t.encode("utf-8"))


def durtext(n):
    sign, n = ("-" if n < 0 else ""), abs(n)
    if n and n % 604800 == 0:
        return sign + "P%dW" % (n // 604800)
    d, r = divmod(n, 86400)
    h, r = divmod(r, 3600)
    m, s = divmod(r, 60)
    t = ("%dH" % h if h else "") + ("%dM" % m if m or (h and s) else "") + ("%dS" % s if s else "")
    return sign + "P" + ("%dD" % d if d else "") + ("T" + t if t else "") if n else "PT0S"


def when(t, tz):
    import datetime
    d = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=t)
    return d.strftime("%Y%m%d") if tz == "D" else d.strftime("%Y%m%dT%H%M%S") + ("Z" if tz == "Z" else "")


def offset(rng):
    return rng.choice([0, -900, 900, -3600, 5400, -86400, 86400, -604800, -93784, 59, rng.randint(-200000, 200000)])


def text(rng):
    return g.raw(rng, rng.choice([1, 4, 9])) or "x"


def adata(rng, act, absent=True):
    """the texts of an action and its lines"""
    ls, d = [], []

    def one(name, val, esc=True):
        if absent and rng.random() < .2:
            d.append([])
        else:
            d.append(o(val))
            ls.append(name + ":" + (g.esc(val) if esc else val))
    if act == "AUDIO":
        one("X-MULBERRY-SPEAK-TEXT", text(rng))
    elif act == "DISPLAY":
        one("DESCRIPTION", text(rng))
    elif act == "EMAIL":
        one("DESCRIPTION", text(rng))
        one("SUMMARY", text(rng))
        for i in sorted(rng.randrange(9) for _ in range(rng.randint(0, 3))):
            a = "mailto:u%d@example.com" % i
            d.append(o(a))
            ls.append(rng.choice(["ATTENDEE:", "ATTENDEE;CN=x:"]) + a)
    elif act == "URI":
        one("URL", "http://example.com/%d?a=1;b,c" % rng.randrange(9), False)
    return d, ls


def session(rng, i, beh):
    tz = rng.choice(["Z", "Z", "Z", "Z", "F", "D"])
    step = 86400 if tz == "D" else 1
    start = rng.choice([0, 3600, -7200, 100000, rng.randint(-300000, 300000)]) // step * step
    length = max(step, rng.choice([1800, 3600, 86400, 200000]) // step * step)
    act = rng.choice(["AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "X-ACT", "audio", "Display", "email", "PROCEDURE"])
    kind = act.upper() if act.upper() in ("AUDIO", "DISPLAY", "EMAIL", "URI") else ""
    data, ls = adata(rng, kind)
    t = {"act": act, "abs": int(rng.random() < .25), "on": rng.randint(-100000, 200000), "by": offset(rng), "rel": rng.choice(["", "", "START", "END", "END", "end", "Start"]),
         "rep": rng.choice([-1, 0, 1, 2, 5]), "int": rng.choice([NONE, 300, 600, 3600, 86400]), "data": data}
    if tz != "Z":
        t["abs"] = 0
    if t["rep"] > 0 and rng.random() < .9 and t["int"] == NONE:
        t["int"] = 900
    al = ["ACTION:" + act] + ls
    if t["abs"]:
        al.append("TRIGGER;VALUE=DATE-TIME:" + when(t["on"], "Z"))
    else:
        al.append("TRIGGER" + (";RELATED=" + t["rel"] if t["rel"] else "") + rng.choice(["", ";X-P=y"]) + ":" + durtext(t["by"]))
    if t["rep"] >= 0:
        al.append("REPEAT:%d" % t["rep"])
    if t["int"] != NONE:
        al.append("DURATION:" + durtext(t["int"]))
    rng.shuffle(al)
    comp = rng.choice(["VEVENT", "VEVENT", "VTODO"])
    p = ";VALUE=DATE" if tz == "D" else ""
    endname = "DTEND" if comp == "VEVENT" else "DUE"
    cl = ["UID:u", "DTSTAMP:20200101T000000Z", "DTSTART%s:%s" % (p, when(start, tz))]
    cl.append("DURATION:" + durtext(length) if rng.random() < .3 and (comp == "VEVENT" or True) else "%s%s:%s" % (endname, p, when(start + length, tz)))
    al = ["BEGIN:VALARM"] + al + ["END:VALARM"]
    ls = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:" + comp] + (cl + al if rng.random() < .7 else al + cl) + ["END:" + comp, "END:VCALENDAR"]
    ev = [{"op": "parse"}, {"op": "first"}]
    for e in beh:
        if e["op"] == "end":
            break
        e = dict(e)
        if tz != "Z" and e["op"] in ("next", "fire", "triggeron"):
            e = {"op": "first", "k": 0}
        if e["op"] == "triggeron":
            e["on"] = rng.randint(-100000, 200000)
        elif e["op"] == "trigger":
            e["by"], e["start"] = offset(rng), rng.randint(0, 1)
        elif e["op"] == "repeats":
            e["rep"], e["int"] = rng.choice([0, 1, 2, 7]), rng.choice([60, 300, 3600, 86400, 604800])
        elif e["op"] == "status":
            e["status"] = rng.choice(["pending", "completed", "disabled"]) if tz == "F" else rng.choice(["pending", "pending", "completed"])
        elif e["op"] == "action":
            e["act"] = rng.choice(["AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"])
            e["data"] = adata(rng, e["act"], True)[0]
        elif e["op"] == "pass":
            e["k"] = e["k"] + rng.choice([0, 0, 1, 299, 43200])
        ev.append(e)
        if e["op"] in ("trigger", "triggeron"):
            ev.append({"op": "first"})
    ev.append({"op": "first"})
    return {"id": "%s%d" % (tz, i), "init": {"t": t, "tz": tz, "start": start, "end": start + length, "text": o("\r\n".join(ls) + "\r\n")}, "events": ev}


def check(run):
    rng = run.rng
    run.mc("AlarmHist.tla", run.scale("AlarmHist.cfg", "AlarmHist_big.cfg"))
    beh = run.gen("AlarmHist.tla", "AlarmHist_gen.cfg", run.scale(500, 12000), 10)
    run.validate("P29Trace", run.drive("p29", [session(rng, i, b) for i, b in enumerate(beh)]))
