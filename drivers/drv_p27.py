from base import *
import json
import xml.etree.cElementTree as XML
from cStringIO import StringIO
from pycalendar import xmlutils
from pycalendar.icalendar import xmldefinitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.outputfilter import OutputFilter
from pycalendar.timezonedb import TimezoneDatabase
from drv_p18 import s, o, Shape, need, prop as jprop
import drv_p28


def mk(f, t):
    x = OutputFilter(t)
    for n, g in f[1]:
        x.addSubComponent(mk(g, s(n)))
    if f[0]:
        x.setAllSubComponents()
    for n, nov in f[3]:
        x.addProperty(s(n), bool(nov))
    if f[2]:
        x.setAllProperties()
    return x


def fprop(p):
    if isinstance(p, list) and len(p) == 2:
        q = jprop(p + ["text", ""])
        return [q[0], q[1], [], []]
    return jprop(p)


def node(j):
    need(isinstance(j, list) and len(j) == 3 and isinstance(j[0], basestring) and isinstance(j[1], list) and isinstance(j[2], list))
    return [o(j[0]), [fprop(p) for p in j[1]], [node(c) for c in j[2]]]


def step(e):
    TimezoneDatabase.getTimezoneDatabase().clear()
    d = s(e["data"])
    a = Calendar.parseText(d)
    full = Calendar.parseText(d).getText()
    f = mk(e["filter"], "VCALENDAR")
    os = StringIO()
    a.generateFiltered(os, f)
    t = os.getvalue()
    e["out"] = o(t)
    e["full"] = int(t == full)
    TimezoneDatabase.getTimezoneDatabase().clear()
    ok, r = attempt(lambda: sorted(Calendar.parseText(t).getText().splitlines()) == sorted(t.splitlines()))
    e["read"] = int(ok and r)
    TimezoneDatabase.getTimezoneDatabase().clear()
    q = []
    a.writeJSONFiltered(q, f)
    e["json"], e["jshape"] = [[], [], []], 0
    try:
        need(len(q) == 1)
        e["json"], e["jshape"] = node(json.loads(json.dumps(q[0]))), 1
    except Shape:
        pass
    root = XML.Element(xmlutils.makeTag(xmldefinitions.iCalendar20_namespace, xmldefinitions.icalendar))
    a.writeXMLFiltered(root, xmldefinitions.iCalendar20_namespace, f)
    e["xml"], e["xshape"] = [[], [], []], 0
    try:
        r = drv_p28.parse(xmlutils.toString(root))
        need(len(list(r)) == 1)
        e["xml"], e["xshape"] = drv_p28.node(list(r)[0]), 1
    except Shape:
        pass
    e["same"] = int(a.getText() == full and a == Calendar.parseText(d))


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
