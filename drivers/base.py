# Shared projection helpers (Jython): real objects -> JSON for the trace specifications.
import sys
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
import java.lang.Throwable
import java.lang.OutOfMemoryError


class HarnessError(Exception):
    pass


def excname(e):
    return "EXC:" + type(e).__name__


def attempt(f, *a, **k):
    """(ok, value-or-exception-name)"""
    try:
        return True, f(*a, **k)
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception, e:
        return False, excname(e)
    except java.lang.Throwable, e:
        return False, "EXC:java." + type(e).__name__


def num(x):
    """Integers as TLC can hold them; anything else is projected to a marker out of every domain."""
    try:
        if isinstance(x, bool):
            return 1 if x else 0
        if isinstance(x, (int, long)) and -2 ** 31 < x < 2 ** 31:
            return int(x)
    except Exception:
        pass
    return -2147483647


def tzname(dt):
    if dt.getTimezoneUTC():
        return "Z"
    t = dt.getTimezoneID()
    if t is None or t == 0 or t == "":
        return "F"
    if isinstance(t, (int, long)):
        return "O%d" % t
    return str(t)


def pdt(dt):
    """DateTime -> flat integer list + zone name."""
    if dt is None:
        return {"y": 0, "m": 0, "d": 0, "h": 0, "n": 0, "s": 0, "do": 0, "tz": "NONE"}
    return {"y": num(dt.getYear()), "m": num(dt.getMonth()), "d": num(dt.getDay()), "h": num(dt.getHours()), "n": num(dt.getMinutes()),
            "s": num(dt.getSeconds()), "do": 1 if dt.isDateOnly() else 0, "tz": tzname(dt)}


def posix(p):
    """seconds -> [days, seconds of day]"""
    d, s = divmod(p, 86400)
    return [num(d), num(s)]


def mkdt(r):
    """record -> DateTime"""
    tz = r.get("tz", "F")
    if tz == "F":
        t = None
    elif tz == "Z":
        t = Timezone(utc=True)
    elif tz.startswith("O"):
        t = Timezone(utc=False, tzid=int(tz[1:]))
    else:
        t = Timezone(tzid=str(tz))
    if r.get("do"):
        return DateTime(r["y"], r["m"], r["d"], tzid=t)
    return DateTime(r["y"], r["m"], r["d"], r["h"], r["n"], r["s"], tzid=t)


def codes(s):
    """text -> list of byte values (UTF-8)"""
    if isinstance(s, unicode):
        s = s.encode("utf-8")
    return [ord(c) for c in s]


def ucodes(s):
    if isinstance(s, str):
        s = s.decode("utf-8")
    return [ord(c) for c in s]


def fromcodes(l):
    return "".join([chr(c) for c in l])
