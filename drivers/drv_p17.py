from base import *
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card
from pycalendar.vcard.n import N
from pycalendar.vcard.adr import Adr
from pycalendar.multivalue import MultiValue
from pycalendar.textvalue import TextValue
from pycalendar.urivalue import URIValue
from pycalendar.parameter import Parameter
from pycalendar.parser import ParserContext
from pycalendar.value import Value

MODES = (("colon", "INVALID_COLON_ESCAPE_SEQUENCE"), ("esc", "INVALID_ESCAPE_SEQUENCES"), ("uri", "BACKSLASH_IN_URI_VALUE"), ("rs", "INVALID_REQUEST_STATUS_VALUE"),
         ("adr", "INVALID_ADR_N_VALUES"), ("nopar", "VCARD_2_NO_PARAMETER_VALUES"), ("b64", "VCARD_2_BASE64"))


def s(c):
    return "".join([chr(x) for x in c])


def o(t):
    if isinstance(t, unicode):
        t = t.encode("utf-8")
    return [ord(x) for x in t]


def lists(v):
    return [[o(x)] if isinstance(x, basestring) else ([o(y) for y in x] or [[]]) for x in v]


def line(out):
    return out.replace("\r\n ", "")[:-2]


def unlists(v):
    return tuple([s(x[0]) if len(x) == 1 else tuple([s(y) for y in x]) for x in v])


def pars(p):
    return [{"n": o(a.getName()), "v": [o(v) for v in a.getValues()]} for l in p.getParameters().values() for a in l]


def group(p):
    g = p.getGroup() if hasattr(p, "mGroup") else None
    return (g + "." if g else "") + p.getName()


def step(e):
    op = e["op"]
    if op == "modes":
        for k, n in MODES:
            setattr(ParserContext, n, e[k])
    elif op == "tdec":
        d = s(e["data"])
        if e["how"] == "value":
            v = TextValue()
            try:
                v.parse(d, "ical")
            except ValueError:
                Property.parseText("SUMMARY:" + d)      # the same through a property, for the kind of error
                raise HarnessError("accepted through a property")
            e["got"] = o(v.getValue())
        elif e["how"] == "vprop":
            e["got"] = o(VProperty.parseText("NOTE:" + d).getValue().getValue())
        else:
            e["got"] = o(Property.parseText("SUMMARY:" + d).getValue().getValue())
    elif op == "ldec":
        e["got"] = [o(v.getValue()) for v in (Property.parseText("CATEGORIES:" + s(e["data"])) if e["how"] == "prop" else VProperty.parseText("NICKNAME:" + s(e["data"]))).getValue().getValues()]
    elif op == "odec":
        v = VProperty.parseText("ORG:" + s(e["data"])).getValue().getValue()
        e["got"] = lists((v,) if isinstance(v, basestring) else v)
    elif op == "sdec":
        e["got"] = lists(VProperty.parseText(("N:" if e["max"] == 5 else "ADR:") + s(e["data"])).getValue().getValue().getValue())
    elif op == "rdec":
        e["got"] = [o(x) for x in Property.parseText("REQUEST-STATUS:" + s(e["data"])).getValue().getValue()]
    elif op == "udec":
        e["got"] = o(Property.parseText("URL:" + s(e["data"])).getValue().getValue())
    elif op == "pdec":
        p = (VProperty if e["vcard"] else Property).parseText(s(e["data"]))
        e["got"] = {"name": o(group(p)), "pars": pars(p), "val": o(p.getValue().getValue())}
    elif op == "tenc":
        e["name"] = o("SUMMARY" if e["how"] != "vprop" else "NOTE")
        if e["how"] == "set":
            p = Property("SUMMARY", "")
            p.getValue().setValue(s(e["v"]))
        elif e["how"] == "prop":
            p = Property("SUMMARY", s(e["v"]))
        else:
            p = VProperty(name="NOTE", value=s(e["v"]))
        t = p.getText()
        e["out"] = o(t)
        e["back"] = o((VProperty if e["how"] == "vprop" else Property).parseText(line(t)).getValue().getValue())
    elif op == "lenc":
        vs = [s(x) for x in e["v"]]
        if e["how"] == "vprop":
            e["name"] = o("CATEGORIES")
            p = VProperty(name="CATEGORIES")
            p.setValue(vs)
            t = p.getText()
            b = VProperty.parseText(line(t))
        else:
            e["name"] = o("CATEGORIES")
            p = Property("CATEGORIES")
            p.setValue(vs)
            t = p.getText()
            b = Property.parseText(line(t))
        e["out"] = o(t)
        e["back"] = [o(x.getValue()) for x in b.getValue().getValues()]
    elif op == "oenc":
        e["name"] = o("ORG")
        t = VProperty(name="ORG", value=unlists(e["v"])).getText()
        e["out"] = o(t)
        v = VProperty.parseText(line(t)).getValue().getValue()
        e["back"] = lists((v,) if isinstance(v, basestring) else v)
    elif op == "senc":
        n = "N" if len(e["v"]) == 5 else "ADR"
        e["name"] = o(n)
        t = VProperty(name=n, value=(N if n == "N" else Adr)(*unlists(e["v"]))).getText()
        e["out"] = o(t)
        e["back"] = lists(VProperty.parseText(line(t)).getValue().getValue().getValue())
    elif op == "renc":
        e["name"] = o("REQUEST-STATUS")
        t = Property("REQUEST-STATUS", [s(x) for x in e["v"]]).getText()
        e["out"] = o(t)
        e["back"] = [o(x) for x in Property.parseText(line(t)).getValue().getValue()]
    elif op == "uenc":
        e["name"] = o("URL")
        t = Property("URL", s(e["v"])).getText()
        e["out"] = o(t)
        e["back"] = o(Property.parseText(line(t)).getValue().getValue())
    elif op == "penc":
        e["name"] = o("X-FOO")
        cls = VProperty if e["vcard"] else Property
        p = cls.parseText("X-FOO:" + s(e["val"]))
        for q in e["pars"]:
            a = Parameter(s(q["n"]), s(q["v"][0]))
            for x in q["v"][1:]:
                a.addValue(s(x))
            if e["how"] == "replace":
                p.replaceParameter(a)
            else:
                p.addParameter(a)
        if e["how"] == "dup":
            p = p.duplicate()
        t = p.getText()
        e["out"] = o(t)
        ok, b = attempt(cls.parseText, line(t))
        e["backok"] = int(ok)
        e["back"] = {"name": o(group(b)), "pars": pars(b), "val": o(b.getValue().getValue())} if ok else {}
    else:
        raise HarnessError(op)


def run(sess):
    keep = [(n, getattr(ParserContext, n)) for k, n in MODES]
    out = []
    try:
        for e in sess["events"]:
            e = dict(e)
            ok, r = attempt(step, e)
            e["ok"], e["exc"] = (1, "") if ok else (0, r)
            out.append(e)
    finally:
        for n, v in keep:
            setattr(ParserContext, n, v)
    return out
