"""P30: events, to-dos and journals of random calendars edited, copied, written and read along histories from ItemHist.tla."""
from checks import icalgen as g

BASE = {"VEVENT": ["", "CONFIRMED", "TENTATIVE", "CANCELLED"], "VTODO": ["", "NEEDS-ACTION", "IN-PROCESS", "COMPLETED", "CANCELLED"], "VJOURNAL": [""]}
ZONE = ["BEGIN:VTIMEZONE", "TZID:X/Five", "BEGIN:STANDARD", "DTSTART:18000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD", "END:VTIMEZONE"]


def o(t):
    return list(t.encode("utf-8"))


def when(t, do=0):
    import datetime
    d = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=t)
    return d.strftime("%Y%m%d") if do else d.strftime("%Y%m%dT%H%M%SZ")


def case(rng, t):
    return rng.choice([t, t, t.lower(), t.capitalize()])


def tm(t, do):
    return {"day": t // 86400, "sec": 0 if do else t % 86400, "do": do}


def text(rng):
    return g.raw(rng, rng.choice([1, 3, 9, 40])).strip() or "x"


def item(rng, k, kind, now):
    """an item and its lines"""
    st = rng.randrange(len(BASE[kind]))
    it = {"kind": kind, "status": st, "done": [], "sum": [], "desc": [], "loc": [], "due": [], "prio": rng.randint(1, 9)}
    n = dict.fromkeys(("STATUS", "COMPLETED", "SUMMARY", "DESCRIPTION", "LOCATION"), 0)
    ls = ["UID:u%d" % k, "DTSTAMP:20200101T000000Z", "X-OTHER;X-P=1:%d" % k]

    def put(name, val, key=None):
        n[name] += 1
        ls.append(name + rng.choice(["", "", ";X-Q=a"]) + ":" + val)
    if st:
        put("STATUS", case(rng, BASE[kind][st]))
    if kind == "VTODO" and rng.random() < (.7 if st == 3 else .15):
        t = now - rng.choice([0, 1, 3600, 86400, 900000])
        it["done"] = [t]
        put("COMPLETED", when(t))
    for name, key in (("SUMMARY", "sum"), ("DESCRIPTION", "desc"), ("LOCATION", "loc")):
        if rng.random() < .5:
            x = text(rng)
            it[key] = [o(x)]
            put(name, g.esc(x))
            if kind == "VJOURNAL" and name == "DESCRIPTION" and rng.random() < .4:
                n[name] += 1                                            # a journal may have several: the first is shown
                ls.append("DESCRIPTION:" + g.esc(text(rng)))
    do = int(rng.random() < .3)
    day = now // 86400 * 86400
    s = day + rng.choice([-5, -1, 0, 1, 40]) * 86400 + rng.choice([0, 3600, 50000])
    it["start"] = tm(s, do)
    ls.append("DTSTART%s:%s" % (";VALUE=DATE" if do else "", when(s, do)))
    if kind == "VTODO":
        if rng.random() < .7:
            u = day + rng.choice([-400, -8, -3, -2, -1, 0, 0, 1, 2, 7, 8, 300]) * 86400 + rng.choice([0, 3600, 86399])
            if rng.random() < .15 and u > s and not do:
                ls.append("DURATION:PT%dS" % (u - s))
                it["due"] = [tm(u, 0)]
            else:
                it["due"] = [tm(u, do)]
                ls.append("DUE%s:%s" % (";VALUE=DATE" if do else "", when(u, do)))
        ls.append("PRIORITY:%d" % it["prio"])
    it["n"] = n
    first = [l for l in ls if l.startswith("DESCRIPTION")]
    rng.shuffle(ls)
    if len(first) > 1:
        q = iter(first)
        ls = [next(q) if l.startswith("DESCRIPTION") else l for l in ls]
    if rng.random() < .3 and kind != "VJOURNAL":
        ls += ["BEGIN:VALARM", "ACTION:DISPLAY", "TRIGGER:-PT5M", "DESCRIPTION:alarm", "STATUS:X", "END:VALARM"]
    return it, ["BEGIN:" + kind] + ls + ["END:" + kind]


def session(rng, i, beh):
    now = rng.choice([0, 43200, 86399, 86400 * 59, rng.randint(0, 40000000)])
    kinds = [rng.choice(["VEVENT", "VTODO", "VTODO", "VTODO", "VJOURNAL"]) for _ in range(rng.randint(2, 4))]
    its = [item(rng, k, x, now) for k, x in enumerate(kinds)]
    cal = {"name": [], "cdesc": [], "nname": 0, "ncdesc": 0}
    ls = ["VERSION:2.0", "PRODID:x"]
    for nm, key in (("X-WR-CALNAME", "name"), ("X-WR-CALDESC", "cdesc")):
        if rng.random() < .5:
            x = text(rng)
            cal[key], cal["n" + key] = [o(x)], 1
            ls.append(nm + ":" + g.esc(x))
    body = [c[1] for c in its]
    rng.shuffle(body)
    ls = ["BEGIN:VCALENDAR"] + ls + ZONE + [l for b in body for l in b] + ["END:VCALENDAR"]
    used = [text(rng) for _ in range(2)]

    def some():
        return o(rng.choice(["", used[0], used[1], text(rng)]))
    ev = [{"op": "load"}, {"op": "state"}, {"op": "order"}]
    for e in beh:
        e = dict(e)
        op = e["op"]
        if op == "end":
            break
        k = rng.randrange(len(kinds))
        if op in ("status", "done"):
            q = [x for x in range(len(kinds)) if kinds[x] == "VTODO" or (op == "status" and kinds[x] == "VEVENT")]
            if not q:
                op = e["op"] = "summary"
            else:
                k = rng.choice(q)
        if op in ("status", "done", "summary", "details"):
            e["i"] = k + 1
        if op == "status":
            e["status"] = rng.randrange(len(BASE[kinds[k]]))
        elif op == "done":
            e["at"], e["tz"] = now + rng.choice([0, -100, -86400, 3000, rng.randint(-3000000, 3000000)]), rng.choice(["Z", "X/Five"])
        elif op in ("summary", "name", "cdesc"):
            e["x"] = some()
        elif op == "details":
            e["x"], e["y"] = some(), some()
        elif op == "pass":
            e["k"] = rng.choice([0, 1, 3600, 86400, 200000])
        ev.append(e)
        if op in ("status", "pass") and rng.random() < .5:
            ev.append({"op": rng.choice(["state", "order"])})
    ev += [{"op": "state"}, {"op": "order"}, {"op": "text"}]
    return {"id": "i%d" % i, "init": {"items": [c[0] for c in its], "cal": cal, "now": now, "text": o("\r\n".join(ls) + "\r\n")}, "events": ev}


def check(run):
    rng = run.rng
    run.mc("ItemHist.tla", run.scale("ItemHist.cfg", "ItemHist_big.cfg"))
    beh = run.gen("ItemHist.tla", "ItemHist_gen.cfg", run.scale(500, 12000), 11)
    run.validate("P30Trace", run.drive("p30", [session(rng, i, b) for i, b in enumerate(beh)]))
