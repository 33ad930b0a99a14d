from base import *
from pycalendar.icalendar.calendar import Calendar
from pycalendar.parser import ParserContext
from cStringIO import StringIO
import os
import tempfile


def s(c):
    return "".join([chr(x) for x in c])


def o(t):
    if isinstance(t, unicode):
        t = t.encode("utf-8")
    return [ord(x) for x in t]


def val(p):
    return o(p.getValue().getText())


def tree(c):
    ps = []
    for k, v in c.getProperties().items():
        ps.append({"n": o(k), "v": [val(p) for p in v]})
    return {"t": o(c.getType()), "ps": ps, "cs": [tree(x) for x in c.getComponents()]}


class Src(object):
    """a stream that hands out lines only"""
    def __init__(self, d):
        self.f = StringIO(d)

    def readline(self):
        return self.f.readline()


def step(e, hold):
    d = e["text"].encode("latin-1") if e["op"] == "fuzz" else s(e["data"])
    how = e["how"]
    if e["op"] == "one":
        f = StringIO(d) if how == "text" else Src(d)
        try:
            c = hold[0].parseComponent(f)
        finally:
            e["held"] = [tree(x) for x in hold[0].getComponents()]
        e["none"] = 1 if c is None else 0
        if c is not None:
            e["first"] = tree(c)
        return
    if how == "text":
        c = Calendar.parseText(d)
    elif how == "data":
        c = Calendar.parseData(d, Calendar.sFormatText)
    elif how == "stream":
        c = Calendar.parseText(Src(d))
    elif how == "inst":
        c = Calendar(add_defaults=False)
        if not c.parse(StringIO(d)):
            c = None
    else:
        raise HarnessError(how)
    e["none"] = 1 if c is None else 0
    if c is not None and e["op"] == "parse":
        e["got"] = tree(c)


def run(sess):
    hold = [Calendar(add_defaults=False)]
    out = []
    for e in sess["events"]:
        e = dict(e)
        ParserContext.BLANK_LINES_IN_DATA = ParserContext.PARSER_RAISE if e["strict"] else [ParserContext.PARSER_ALLOW, ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX][len(e.get("data", "")) % 3]
        e["none"] = 0
        ok, r = attempt(step, e, hold)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
