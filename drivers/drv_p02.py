import base
from base import *
from tzlib import *
F = {"y": "Year", "m": "Month", "d": "Day", "h": "Hours", "n": "Minutes", "s": "Seconds"}


def mktz(t):
    if t == "Z":
        return Timezone(utc=True)
    if t.startswith("O"):
        return Timezone(utc=False, tzid=int(t[1:]))
    return Timezone(tzid=str(t))


def run(sess):
    TimezoneDatabase.sTimezoneDatabase = None
    TimezoneDatabase.createTimezoneDatabase(None)
    cals = [Calendar.parseText(str(z["text"])) for z in sess["init"]["zones"]]
    s = {}
    out = []

    def step(e):
        op = e["op"]
        t = e.get("i")
        if op == "new":
            s[e["i"]] = mkdt(e["dt"])
        elif op == "set":
            getattr(s[e["i"]], "set" + F[e["f"]])(e["v"])
        elif op == "ymd":
            s[e["i"]].setYYMMDD(e["y"], e["m"], e["d"])
        elif op == "hms":
            s[e["i"]].setHHMMSS(e["h"], e["n"], e["s"])
        elif op == "off":
            getattr(s[e["i"]], "offset" + F[e["f"]])(e["v"])
        elif op == "add":
            t = e["j"]
            n = e["days"] * 86400 + e["secs"]
            if e["minus"]:
                s[t] = s[e["i"]] - Duration(duration=-n)
            else:
                s[t] = s[e["i"]] + Duration(duration=n)
        elif op == "dup":
            t = e["j"]
            s[t] = s[e["i"]].duplicate()
        elif op == "relabel":
            if e["how"] == "tz":
                s[t].setTimezone(mktz(e["tz"]))
            elif e["tz"] == "Z":
                s[t].setTimezoneUTC(True)
            else:
                s[t].setTimezoneID(mktz(e["tz"]).getTimezoneID())
        elif op == "adj":
            s[t].adjustTimezone(mktz(e["tz"]))
        elif op == "adjcopy":
            t = e["j"]
            s[t] = s[e["i"]].getAdjustedTime(mktz(e["tz"]))
        elif op == "utc":
            s[t].adjustToUTC()
        elif op == "duputc":
            t = e["j"]
            s[t] = s[e["i"]].duplicateAsUTC()
        elif op == "posix":
            e["p"] = posix(s[t].getPosixTime())
        elif op == "offset":
            e["v"] = num(s[t].timeZoneSecondsOffset())
        elif op == "cmp":
            a, b = s[e["i"]], s[e["j"]]
            e["c"] = [bool(a == b), bool(a != b), bool(a < b), bool(a > b), bool(a <= b), bool(a >= b)]
            e["hash"] = hash(a) == hash(b)
        elif op == "diff":
            a, b = s[e["i"]], s[e["j"]]
            d = a - b
            e["p"] = posix(d.getTotalSeconds())
            e["o"] = pdt(b + d)
            return
        elif op == "sort":
            l = [s[i] for i in e["is"]]
            l.sort()
            e["o"] = [pdt(x) for x in l]
            return
        e["o"] = pdt(s[t])

    for e in sess["events"]:
        e = dict(e)
        ok, v = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, v)
        out.append(e)
        if not ok:
            break
    return out
