"""P23: histories of the timezone store (TLC-generated and random) with calendars that feed it and are completed from it."""
import json

STD = ["Etc/A", "Area/City", "Area/Sub/Town", "Zulu"]
BAD = ["Bad/Cut", "Bad/Junk", "Bad/Value", "Bad/Nest", "Bad/Dir"]
UNK = ["X-One", "Custom/Two", "area/city", "Etc", "X Y", "zebra"]
ESC = ["../out/X", "../db2/X", "@/out/Y", "../../@/none", "Area/../../out/X", "Area/../Etc/A", "./Zulu", "/etc/hostname", "Etc/A.ics"]
ALL = STD + UNK + BAD[:2] + ESC[:5]


def offtext(n):
    return "%s%02d%02d" % ("-" if n < 0 else "+", abs(n) // 60, abs(n) % 60)


def vtz(rng, tid, n):
    a = offtext(n)
    ls = ["DTSTART:19700101T000000", "TZNAME:D%d" % n, "TZOFFSETFROM:" + a, "TZOFFSETTO:" + a]
    head = ["TZID:" + tid] + rng.sample(["X-LIC-LOCATION:Q", "LAST-MODIFIED:20200101T000000Z"], rng.randint(0, 1))
    k = rng.choice(["STANDARD", "STANDARD", "DAYLIGHT"])
    return ["BEGIN:VTIMEZONE"] + head + ["BEGIN:" + k] + ls + ["END:" + k, "END:VTIMEZONE"]


def cal(comps):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//V//EN"] + [l for c in comps for l in c] + ["END:VCALENDAR", ""])


def stdtext(tid, n):
    class R(object):
        def sample(self, q, k):
            return []

        def choice(self, q):
            return q[0]

        def randint(self, a, b):
            return a
    return cal([vtz(R(), tid, n)])


def quoted(tid):
    return '"%s"' % tid if set(tid) & set(":;,") else tid


def ref(rng, k, tid):
    """a component that refers to a timezone, in one of the places where that can be done"""
    z = quoted(tid)
    e = ["BEGIN:VEVENT", "UID:u%d" % k, "DTSTAMP:20200101T000000Z"]
    how = rng.choice(["start", "start", "start", "end", "rdate", "period", "exdate", "x", "rid", "todo", "avail", "sub", "alarm"])
    if how == "start":
        e += ["DTSTART;TZID=%s:20200105T100000" % z] + rng.choice([[], ["DURATION:PT1H"], ["DTEND;TZID=%s:20200105T120000" % z], ["RRULE:FREQ=DAILY;COUNT=3"]])
    elif how == "end":
        e += ["DTSTART:20200105T100000Z", "DTEND;TZID=%s:20200107T120000" % z]
    elif how == "rdate":
        e += ["DTSTART:20200105T100000Z", "RDATE;TZID=%s:20200107T120000,20200109T120000" % z]
    elif how == "period":
        e += ["DTSTART:20200105T100000Z", "RDATE;VALUE=PERIOD;TZID=%s:20200107T120000/PT1H" % z]
    elif how == "exdate":
        e += ["DTSTART:20200105T100000Z", "RRULE:FREQ=DAILY;COUNT=4", "EXDATE;TZID=%s:20200107T120000" % z]
    elif how == "x":
        e += ["DTSTART:20200105T100000Z", "X-FOO;VALUE=DATE-TIME;TZID=%s:20200107T120000" % z]
    elif how == "rid":
        e += ["DTSTART:20200105T100000Z", "RECURRENCE-ID;TZID=%s:20200107T120000" % z]
    elif how == "todo":
        return ["BEGIN:VTODO"] + e[1:] + ["DUE;TZID=%s:20200107T120000" % z, "END:VTODO"]
    elif how == "avail":
        return ["BEGIN:VAVAILABILITY"] + e[1:] + ["BEGIN:AVAILABLE", "UID:v%d" % k, "DTSTAMP:20200101T000000Z", "DTSTART;TZID=%s:20200105T100000" % z,
                                                   "DURATION:PT1H", "END:AVAILABLE", "END:VAVAILABILITY"]
    elif how == "sub":
        return ["BEGIN:X-FOO"] + e[1:] + ["BEGIN:X-BAR", "DTSTART;TZID=%s:20200105T100000" % z, "END:X-BAR", "END:X-FOO"]
    elif how == "alarm":
        e += ["DTSTART:20200105T100000Z", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:q", "TRIGGER:-PT5M", "X-UNTIL;VALUE=DATE-TIME;TZID=%s:20200107T120000" % z, "END:VALARM"]
    return e + ["END:VEVENT"]


def jprop(l):
    n, v = l.split(":", 1)
    ps = n.split(";")
    name, pars = ps[0].lower(), dict(p.split("=", 1) for p in ps[1:])
    ty = pars.pop("VALUE", None)
    pars = {k.lower(): v.strip('"') for k, v in pars.items()}
    if ty is None:
        ty = {"DTSTART": "date-time", "DTEND": "date-time", "DUE": "date-time", "RDATE": "date-time", "EXDATE": "date-time", "RECURRENCE-ID": "date-time", "DTSTAMP": "date-time",
              "LAST-MODIFIED": "date-time", "DURATION": "duration", "TRIGGER": "duration", "RRULE": "recur", "TZOFFSETFROM": "utc-offset", "TZOFFSETTO": "utc-offset"}.get(ps[0], "text")
    ty = ty.lower()

    def dt(x):
        return "%s-%s-%sT%s:%s:%s" % (x[:4], x[4:6], x[6:8], x[9:11], x[11:13], x[13:])
    if ty == "date-time":
        vs = [dt(x) for x in v.split(",")]
    elif ty == "period":
        vs = [[dt(v.split("/")[0]), v.split("/")[1]]]
    elif ty == "utc-offset":
        vs = [v[:3] + ":" + v[3:]]
    elif ty == "recur":
        r = dict(p.split("=") for p in v.split(";"))
        vs = [{k.lower(): int(x) if x.isdigit() else x for k, x in r.items()}]
    else:
        vs = [v]
    return [name, pars, ty] + vs


def jcal(text):
    st = [["", [], []]]
    for l in text.split("\r\n"):
        if l.startswith("BEGIN:"):
            st.append([l[6:].lower(), [], []])
        elif l.startswith("END:"):
            c = st.pop()
            st[-1][2].append(c)
        elif l:
            st[-1][1].append(jprop(l))
    return json.dumps(st[0][2][0])


class Ses(object):
    def __init__(self, rng, i, pre):
        self.rng, self.ev, self.slots, self.dirty, self.n = rng, [], {}, set(), 0
        self.dir = 1 if rng.random() < .93 else 0
        self.nextdef = 1
        self.std = {t: self.newdef() for t in STD} if self.dir else {}
        files = [["db/%s.ics" % t, stdtext(t, d)] for t, d in self.std.items()]
        files += [["out/X.ics", stdtext("../out/X", 601)], ["db2/X.ics", stdtext("../db2/X", 602)], ["out/Y.ics", stdtext("@/out/Y", 603)],
                  ["db/Bad/Cut.ics", stdtext("Bad/Cut", 604)[:rng.choice([150, 210, -16, -22])]], ["db/Bad/Junk.ics", rng.choice(["junk", "BEGIN:VCARD\r\nVERSION:3.0\r\nEND:VCARD\r\n", "\r\n\r\nx"])],
                  ["db/Bad/Value.ics", stdtext("Bad/Value", 605).replace("DTSTART:1970", "DTSTART:x97")],
                  ["db/Bad/Nest.ics", stdtext("Bad/Nest", 605).replace("STANDARD", rng.choice(["VEVENT", "VALARM", "X-FOO"]))], ["db/Bad/Dir.ics/x", "x"]]
        low = sorted({t.lower() for t in STD + UNK + BAD + ESC})
        self.s = {"id": "%s%d" % (pre, i), "init": {"dir": self.dir, "std": [[t, d] for t, d in self.std.items()], "files": files,
                                                   "dbpath": rng.choice(["@/db", "@/db", "@/db/", "@/x/../db", "@//db", "@/./db", "@/db2/../db"]),
                                                   "rank": [[t, low.index(t.lower())] for t in STD + UNK + BAD + ESC]}, "events": self.ev}

    def newdef(self):
        n = self.nextdef
        self.nextdef += self.rng.randint(1, 9)
        return n if n % 3 else -n

    def load(self, ids, refs, slot=None, bad=False):
        rng = self.rng
        tz = [[t, rng.choice([self.newdef(), self.newdef(), self.nextdef - 1 or 1])] for t in ids]
        tcs = [vtz(rng, t, d) for t, d in tz]
        rcs = [ref(rng, k, t) for k, t in enumerate(refs)]
        comps = tcs + rcs if rng.random() < .5 else rcs + tcs
        if rng.random() < .3:
            rng.shuffle(comps)
        order = [c for c in comps if c[0] == "BEGIN:VTIMEZONE"]
        tz = [tz[tcs.index(c)] for c in order]
        text = cal(comps)
        via = rng.choice(["text", "text", "comp", "json", "multi"])
        if via == "comp" and not tz:
            via = "text"
        e = {"op": "load", "c": slot or rng.randint(1, 3), "via": via, "tzs": tz, "refs": sorted(set(refs)), "text": text, "json": jcal(text)}
        if bad:
            e["op"] = "badload"
            if via == "json":
                e["json"] = jcal(text.replace("END:VCALENDAR\r\n", "BEGIN:VEVENT\r\nUID:1\r\nDTSTART:x\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"))
            else:
                e["text"] = rng.choice([text[:-15], text.replace("END:VCALENDAR\r\n", "BEGIN:VEVENT\r\nEND:VCALENDAR\r\n"), text.replace("END:VCALENDAR\r\n", "END:VEVENT\r\n"),
                                        text.replace("END:VCALENDAR\r\n", "BEGIN:VEVENT\r\nDTSTART:junk\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")])
        else:
            self.slots[e["c"]] = len(tz)
            self.dirty.discard(e["c"])
        self.ev.append(e)

    def ask(self, tid, op=None):
        rng = self.rng
        e = {"op": op or rng.choice(["lookup", "lookup", "off", "desc", "incal", "std", "std"]), "id": tid, "y": rng.choice([1971, 1999, 2020, 2037]), "rel": rng.randint(0, 1)}
        self.ev.append(e)

    def do(self, op, tid=None):
        rng = self.rng
        if op == "add":
            self.ev.append({"op": "add", "id": tid, "def": self.newdef()})
        elif op == "cache":
            self.ev.append({"op": "cache", "id": tid, "dir": self.dir})
        elif op == "clear":
            files = []
            if self.dir and rng.random() < .7:       # other files in the directory from here on
                new = {t: self.newdef() for t in STD if t != "Area/City" or rng.random() < .5} if tid == "all" else {} if tid == "none" else \
                    {t: self.std[t] if t in self.std and rng.random() < .5 else self.newdef() for t in STD if rng.random() < .6}
                files = [["db/%s.ics" % t, stdtext(t, new[t]) if t in new else ""] for t in sorted(set(new) | set(self.std)) if new.get(t) != self.std.get(t)]
                self.std = new
            self.ev.append({"op": "clear", "std": [[t, d] for t, d in self.std.items()], "files": files})
        elif self.slots:
            c = rng.choice(sorted(self.slots))
            if op == "strip":
                self.ev.append({"op": "strip", "c": c})
                self.slots[c] = 0           # not known how many are left
            elif op == "complete":
                how = rng.choice(["call", "call", "text", "json", "xml", "str"])
                mode = 2 if how == "str" else rng.choice([0, 0, 1, 1, 2])
                self.ev.append({"op": "complete", "c": c, "mode": mode, "how": how, "default": mode == 1 and rng.random() < .5})
            elif op == "edit" and self.slots[c]:
                self.ev.append({"op": "edit", "c": c, "i": rng.randint(1, self.slots[c]), "def": self.newdef()})
                self.dirty.add(c)
            elif op == "sort" and c not in self.dirty:
                self.ev.append({"op": "sort", "c": c})


def session(rng, i):
    z = Ses(rng, i, "r")
    pool = rng.sample(ALL, rng.randint(2, 5)) + rng.sample(STD, 1)
    for _ in range(rng.randint(8, 30)):
        op = rng.choices(["load", "badload", "ask", "add", "cache", "clear", "strip", "complete", "edit", "sort", "esc"], [5, 1, 10, 2, 1, .9, 2, 4, 1.5, 1, 2])[0]
        tid = rng.choice(pool)
        if op in ("load", "badload"):
            z.load([rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))], [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3]))], None, op == "badload")
        elif op == "ask":
            z.ask(tid)
        elif op == "esc":
            z.ask(rng.choice(ESC + BAD))
        else:
            z.do(op, rng.choice(BAD + ESC[:4] + ESC[7:] + [tid]) if op == "cache" else tid if op != "clear" else None)
            if op == "clear":
                for t in rng.sample(pool, 2):
                    z.ask(t)
    return z.s


def concretise(rng, i, beh):
    z = Ses(rng, i, "b")
    std = rng.sample(STD, 2)
    unk = rng.sample(UNK + ESC[:3] + BAD[:2], 2)
    ids = [None] + std + unk
    for e in beh:
        if e["op"] == "load":
            z.load([ids[e["id"]]], rng.choices(ids[1:], k=rng.randint(0, 2)))
        elif e["op"] in ("lookup", "std"):
            z.ask(ids[e["id"]], e["op"])
        elif e["op"] == "end":
            break
        else:
            z.do(e["op"], (ids[e["id"]] if e["id"] else None) if e["op"] != "clear" else "all" if e["def"] else "none")
        if rng.random() < .3:
            z.do(rng.choice(["strip", "complete", "complete"]))
    for t in ids[1:]:
        z.ask(t, "lookup")
        z.ask(t, "std")
    return z.s


def check(run):
    run.mc("TzStore.tla", run.scale("TzStore.cfg", "TzStore_big.cfg"))
    beh = run.gen("TzStore.tla", "TzStore_gen.cfg", run.scale(250, 3000), 14)
    s = [concretise(run.rng, i, b) for i, b in enumerate(beh)] + [session(run.rng, i) for i in range(run.scale(350, 4000))]
    recs = run.drive("p23", s)
    run.validate("P23Trace", recs)
