import base, os, shutil, tempfile, calendar as cal_
from base import *
from zonal.rule import Rule, RuleSet
from zonal.zone import Zone
from zonal.tzconvert import tzconvert
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone


def secs(dt):
    return int(cal_.timegm((dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds())))


def clip(x):
    return max(-2147000000, min(2147000000, x))


def load(sess):
    """the zone and its rules, read line by line or from a file"""
    i = sess["init"]
    if i["how"] == 0:
        rules = {}
        for t in i["settext"]:
            rs = RuleSet()
            rs.parse(str(t))
            rules[rs.name] = rs
        z = Zone()
        z.parse(str(i["zonetext"]))
        return z, rules, None
    d = tempfile.mkdtemp(prefix="p26_")
    try:
        p = os.path.join(d, "data")
        f = open(p, "w")
        f.write(str(i["file"]))
        f.close()
        c = tzconvert()
        c.parse(p)
    finally:
        shutil.rmtree(d)
    return c.zones[str(i["name"])], c.rules, c


def ask(vtz, t):
    d = DateTime(1970, 1, 1, 0, 0, 0, tzid=Timezone(utc=True))
    d.offsetDay(t // 86400)
    d.offsetSeconds(t % 86400)
    return num(vtz.getTimezoneOffsetSeconds(d, True))


def run(sess):
    z, rules, conv = load(sess)
    out = []
    for e in sess["events"]:
        e = dict(e)

        def do():
            op = e["op"]
            if op == "text":
                e["gen"] = [str(rules[str(n)].generate()) for n in e["names"]] + [str(z.generate())]
                ok = 1
                for n in e["names"]:
                    r = RuleSet()
                    r.parse(rules[str(n)].generate())
                    if not (r == rules[str(n)] and not (r != rules[str(n)]) and r.generate() == rules[str(n)].generate()):
                        ok = 0
                y = Zone()
                y.parse(z.generate())
                if not (y == z and not (y != z) and y.generate() == z.generate()):
                    ok = 0
                e["eq"] = ok
            elif op == "expand":
                got = []
                if e["conv"] and conv is not None:
                    q = conv.expandZone(z.name, e["miny"], e["maxy"])
                else:
                    q = z.expand(rules, e["miny"], e["maxy"])
                for x in q:
                    got.append([clip(secs(x[0]) - int(x[1])), num(x[1]), num(x[2])])
                e["got"] = got
            elif op == "vtz":
                if e["conv"] and conv is not None:
                    c = Calendar.parseText(conv.vtimezones(e["miny"], e["maxy"], (z.name,)))
                    vtz = c.getComponents("VTIMEZONE")[0]
                else:
                    c = Calendar()
                    vtz = z.vtimezone(c, rules, e["miny"], e["maxy"])
                    c.addComponent(vtz)
                    c = Calendar.parseText(c.getText())
                    vtz = c.getComponents("VTIMEZONE")[0]
                e["asked"] = [[t, ask(vtz, t)] for t in e["at"]]
                e["text"] = str(vtz.getText())
            elif op == "files":
                d = tempfile.mkdtemp(prefix="p26_")
                try:
                    conv.generateZoneinfoFiles(d, e["miny"], e["maxy"])
                    e["names"], e["tables"] = [], []
                    for r, _, fs in os.walk(d):
                        for n in fs:
                            if n.endswith(".ics"):
                                c = Calendar.parseText(open(os.path.join(r, n)).read())
                                vtz, = c.getComponents("VTIMEZONE")
                                e["names"].append(str(os.path.relpath(os.path.join(r, n), d)[:-4]) + " " + str(vtz.getID()))
                                e["tables"].append([[t, ask(vtz, t)] for t in e["at"]])
                    e["links"] = [str(x) for x in open(os.path.join(d, "links.txt")).read().split("\n") if x]
                finally:
                    shutil.rmtree(d)
        ok, x = attempt(do)
        e["ok"], e["exc"] = int(ok), "" if ok else str(x)
        e.pop("at", None)
        out.append(e)
    return out
