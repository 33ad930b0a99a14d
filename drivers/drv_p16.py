from base import *
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.vcard.card import Card
from pycalendar.utils import readFoldedLine
from cStringIO import StringIO
import os
import tempfile


def s(c):
    return "".join([chr(x) for x in c])


def o(t):
    return [ord(x) for x in t]


def readlines(f):
    lines = [None, None]
    out = []
    while readFoldedLine(f, lines):
        out.append(o(lines[0]))
    return out


def caltext(lines, nl="\r\n"):
    return nl.join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + lines + ["END:VCALENDAR", ""])


def step(e):
    if e["op"] == "write":
        l = [s(x) for x in e["lines"]]
        how = e["how"]
        if how == "parse":
            e["out"] = o(Property.parseText(l[0]).getText())
        elif how == "vparse":
            e["out"] = o(VProperty.parseText(l[0]).getText())
        elif how == "api":
            n, v = l[0].split(":", 1)
            e["out"] = o(Property(n, v).getText())
        elif how == "cal":
            e["out"] = o(Calendar.parseText(caltext(l)).getText())
        elif how == "comp":
            e["out"] = o(Calendar.parseText(caltext(["BEGIN:VEVENT", "UID:1", "DTSTART:20200101T000000Z"] + l + ["END:VEVENT"])).getText())
        elif how == "card":
            e["out"] = o(Card.parseText("\r\n".join(["BEGIN:VCARD", "VERSION:3.0", "FN:x"] + l + ["END:VCARD", ""])).getText())
        else:
            raise HarnessError(how)
    else:
        d = s(e["data"])
        how = e["how"]
        if how == "sio":
            e["got"] = readlines(StringIO(d))
        elif how == "file":
            fd, p = tempfile.mkstemp(dir=os.environ["VERIF_WORK"])
            try:
                os.write(fd, d)
                os.close(fd)
                f = open(p, "rb")
                e["got"] = readlines(f)
                f.close()
            finally:
                os.unlink(p)
        elif how == "cal":
            cal = Calendar.parseText(d)
            e["got"] = []
            k = 1
            while cal.hasProperty("X-L%d" % k):
                p = cal.findFirstProperty("X-L%d" % k)
                e["got"].append(o(p.getName() + ":" + p.getValue().getValue()))
                k += 1
        else:
            raise HarnessError(how)


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
