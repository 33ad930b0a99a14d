import base
from base import *
from pycalendar import utils
from pycalendar.icalendar import definitions

FREQ = {"SECONDLY": definitions.eRecurrence_SECONDLY, "MINUTELY": definitions.eRecurrence_MINUTELY, "HOURLY": definitions.eRecurrence_HOURLY,
        "DAILY": definitions.eRecurrence_DAILY, "WEEKLY": definitions.eRecurrence_WEEKLY, "MONTHLY": definitions.eRecurrence_MONTHLY,
        "YEARLY": definitions.eRecurrence_YEARLY}


def run(sess):
    dt = mkdt(sess["init"])
    out = []
    for e in sess["events"]:
        e = dict(e)
        op = e["op"]
        if op == "facts":
            ok, r = attempt(lambda: {
                "dow": num(dt.getDayOfWeek()), "yd": num(dt.getYearDay()), "wk": num(dt.getWeekNo()),
                "days": posix(dt.getPosixTime())[0] if dt.getTimezoneUTC() or dt.isDateOnly() or dt.floating() else 0,
                "inv": num(dt.invalid()), "leap": num(utils.isLeapYear(dt.getYear())), "dim": num(utils.daysInMonth(dt.getMonth(), dt.getYear()))})
            e["res"] = r if ok else {"exc": r}
        elif op in ("isMonthDay", "isWeekNo"):
            ok, r = attempt(getattr(dt, op), e["k"])
            e["res"] = num(r) if ok else -99
        elif op == "isDayOfWeekInMonth":
            ok, r = attempt(dt.isDayOfWeekInMonth, e["k"], e["w"])
            e["res"] = num(r) if ok else -99
        elif op == "invalid":
            ok, r = attempt(lambda: DateTime(e["y"], e["m"], e["d"]).invalid())
            e["res"] = num(r) if ok else -99
        else:
            if op == "assign":
                def f():
                    dt.setYYMMDD(e["y"], e["m"], e["d"])
                    dt.setHHMMSS(e["h"], e["n"], e["s"])
                    dt.normalise()
                ok, r = attempt(f)
            elif op in ("add", "sub"):
                d = Duration(duration=e["k"])
                ok, r = attempt(lambda: dt + d if op == "add" else dt - d)
                if ok:
                    dt = r
            elif op in ("setDayOfWeekInMonth", "setDayOfWeekInYear", "setNextDayOfWeek"):
                ok, r = attempt(getattr(dt, op), e["k"], e["w"])
            elif op == "recur":
                ok, r = attempt(dt.recur, FREQ[e["f"]], e["k"])
            else:
                ok, r = attempt(getattr(dt, op), e["k"])
            e["ok"] = 1 if ok else 0
            e["res"] = pdt(dt)
            if not ok:
                e["exc"] = r
        out.append(e)
    return out
