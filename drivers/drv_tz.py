import base
from base import *
from tzlib import *


def fresh_db():
    TimezoneDatabase.sTimezoneDatabase = None
    TimezoneDatabase.createTimezoneDatabase(None)


def run(sess):
    out = []
    text = sess["init"]["text"]
    each = sess["init"]["fresh"]
    fresh_db()
    cal, z = load(text)
    objs = {1: z}

    def step(e):
        op = e["op"]
        if op == "dup":
            objs[e["j"]] = objs[e["i"]].duplicate()
            return
        z = objs[e["i"]]
        if op == "off":
            e["o"] = num(z.getTimezoneOffsetSeconds(mkdt(e["dt"]), bool(e["rel"])))
        elif op == "desc":
            e["o"] = str(z.getTimezoneDescriptor(mkdt(e["dt"])))
        elif op == "range":
            r = z.expandAll(mkdt(e["lo"]) if e["lo"]["y"] else None, mkdt(e["hi"]), with_name=bool(e["names"]))
            e["o"] = [[item(x[0]), item(x[1]), [num(x[2]), num(x[3])]] + ([str(x[4])] if e["names"] else []) for x in r]
        elif op == "fromutc":
            d = mkdt(dict(e["dt"], tz="Z"))
            d.adjustTimezone(Timezone(tzid="X/zone"))
            e["o"] = pdt(d)
            d.adjustToUTC()
            e["back"] = pdt(d)
        elif op == "fromlocal":
            d = mkdt(dict(e["dt"], tz="X/zone"))
            d.adjustToUTC()
            e["o"] = pdt(d)
            d.adjustTimezone(Timezone(tzid="X/zone"))
            e["back"] = pdt(d)

    for e in sess["events"]:
        e = dict(e)
        if each:
            fresh_db()
            cal, objs[1] = load(text)
        ok, v = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, v)
        out.append(e)
    return out
