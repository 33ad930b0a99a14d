from base import *
import json
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase


def s(c):
    return "".join([chr(x) for x in c])


def o(t):
    if isinstance(t, unicode):
        t = t.encode("utf-8")
    return [ord(x) for x in t]


class Shape(Exception):
    pass


def need(c):
    if not c:
        raise Shape()


def js(v):
    return o(json.dumps(v, ensure_ascii=False, sort_keys=True, separators=(",", ":")))


def value(v):
    if isinstance(v, dict):
        return [[o(k), [js(i) for i in (x if isinstance(x, list) else [x])]] for k, x in sorted(v.items())]
    return [[[], [js(v)]]]


def prop(p):
    need(isinstance(p, list) and len(p) >= 4 and isinstance(p[0], basestring) and isinstance(p[1], dict) and isinstance(p[2], basestring))
    ps = []
    for k, v in sorted(p[1].items()):
        v = v if isinstance(v, list) else [v]
        need(all([isinstance(i, basestring) for i in v]))
        ps.append([o(k), [o(i) for i in v]])
    return [o(p[0]), ps, o(p[2]), [value(v) for v in p[3:]]]


def node(j):
    need(isinstance(j, list) and len(j) == 3 and isinstance(j[0], basestring) and isinstance(j[1], list) and isinstance(j[2], list))
    return [o(j[0]), [prop(p) for p in j[1]], [node(c) for c in j[2]]]


def variant(j):
    """the same jCal in other words"""
    ps = []
    for p in j[1]:
        vs = []
        for v in p[3:]:
            if isinstance(v, dict):
                v = dict([(k, x[0] if isinstance(x, list) and len(x) == 1 else x) for k, x in v.items()])
            vs.append(v)
        ps.append([p[0], dict([(k, x if isinstance(x, list) else [x]) for k, x in p[1].items()]), p[2]] + vs)
    ps.reverse()
    cs = [variant(c) for c in j[2]]
    if j[0] not in ("vtimezone",):
        cs.reverse()
    return [j[0], ps, cs]


def step(e):
    TimezoneDatabase.getTimezoneDatabase().clear()
    d = s(e["data"])
    a = Calendar.parseText(d)
    fresh = Calendar.parseText(d)
    j = a.getTextJSON()
    jj = json.loads(j)
    try:
        e["node"], e["shape"] = node(jj), 1
    except Shape:
        e["node"], e["shape"] = [[], [], []], 0
        return
    b = Calendar.parseJSONData(j.encode("utf-8") if isinstance(j, unicode) else j)
    e["eq"] = int(b == a and a == b and b == fresh and fresh == b and not b != fresh)
    e["again"] = int(json.loads(b.getTextJSON()) == jj and json.loads(b.getText(format=Calendar.sFormatJSON)) == jj)
    t = fresh.getText()
    e["text"] = int(b.getText() == t and a.getText() == t)
    c = Calendar.parseJSONData(json.dumps(variant(jj)))
    e["variant"] = int(c == fresh and fresh == c)


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
