import json
import base
from base import *
from pycalendar.value import Value
from pycalendar.parser import ParserContext
import pycalendar.icalendar.calendar
import pycalendar.vcard.card
T = {"dt": Value.VALUETYPE_DATETIME, "dtx": Value.VALUETYPE_DATETIME, "dur": Value.VALUETYPE_DURATION, "per": Value.VALUETYPE_PERIOD,
     "off": Value.VALUETYPE_UTC_OFFSET, "offx": Value.VALUETYPE_UTC_OFFSET, "int": Value.VALUETYPE_INTEGER, "flt": Value.VALUETYPE_FLOAT}


def plain(f):
    """a double as plain decimal text (shortest digits that identify it)"""
    if not isinstance(f, (int, long, float)) or isinstance(f, bool) or f != f or f in (float("inf"), -float("inf")):
        return "not-a-number"
    from java.math import BigDecimal
    from java.lang import Double
    t = BigDecimal(Double.toString(float(f))).stripTrailingZeros().toPlainString()
    return t.rstrip("0").rstrip(".") if "." in t else ("0" if t in ("-0", "0") else t)


def pdur(d):
    n = d.getTotalSeconds()
    a = abs(n)
    return {"neg": 1 if n < 0 else 0, "d": num(a // 86400), "s": num(a % 86400)}


def rec(type, v):
    x = v.getValue()
    if type in ("dt", "dtx"):
        return pdt(x)
    if type == "dur":
        return pdur(x)
    if type == "per":
        if x.getUseDuration():
            return {"dur": 1, "start": pdt(x.getStart()), "len": pdur(x.getDuration()), "end": pdt(x.getStart())}
        return {"dur": 0, "start": pdt(x.getStart()), "end": pdt(x.getEnd()), "len": {"neg": 0, "d": 0, "s": 0}}
    if type in ("off", "offx"):
        return num(x)
    if type == "int":
        return str(x) if isinstance(x, (int, long)) and not isinstance(x, bool) else "not-an-int"
    return plain(x)


def make(type, text):
    v = Value.createFromType(T[type])
    v.parse(text, "vcard" if type in ("dtx", "offx") else "icalendar")
    return v


def gen(type, v):
    if type == "dtx":
        return v.getValue().getXMLText()
    if type == "offx":
        import cStringIO
        os = cStringIO.StringIO()
        v.generate(os, fullISO=True)
        return os.getvalue()
    return v.getText()


def full(e):
    type = e["type"]
    v = make(type, e["text"])
    e["v"] = rec(type, v)
    e["gen"] = str(gen(type, v))
    if type == "per":
        e["pend"], e["plen"] = pdt(v.getValue().getEnd()), pdur(v.getValue().getDuration())
    w = make(type, e["gen"])
    e["again"] = rec(type, w)
    e["eq"] = bool(v == w) and not (v != w) and hash(v) == hash(w)
    j = []
    v.writeJSONValue(j)
    j = json.loads(json.dumps(j))
    if len(j) != 1:
        e["json"] = []
        return
    j = j[0]
    if type == "per":
        e["json"] = [str(x) for x in j]
    elif type == "flt":
        e["json"] = [plain(j)]
    else:
        e["json"] = [str(j)]
    w = Value.createFromType(T[type])
    w.parseJSONValue(j)
    e["jread"] = rec(type, w)
    e["jeq"] = bool(v == w) and not (v != w) and hash(v) == hash(w)


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_RAISE if e["strict"] else ParserContext.PARSER_FIX
        try:
            ok, v = attempt(full, e)
        finally:
            ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_FIX
        if not ok and "v" in e:
            e.update({"gen": e.get("gen", "EXC"), "again": [v], "eq": False, "json": [], "jread": "", "jeq": False, "pend": 0, "plen": 0})
            ok = True
        e["ok"], e["exc"] = (1, "") if ok else (0, v)
        out.append(e)
    return out
