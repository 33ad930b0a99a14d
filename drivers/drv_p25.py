from base import *
from drv_p15 import s, o
from pycalendar.datetime import DateTime
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.vcard.adr import Adr
from pycalendar.vcard.card import Card
from pycalendar.vcard.n import N
from pycalendar.vcard.property import Property

NF = ("Last", "First", "Middle", "Prefix", "Suffix")
AF = ("Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country")


def items(x):
    return [o(x)] if isinstance(x, basestring) else [o(i) for i in x]


def seen(card):
    out = []
    for name in ("N", "ADR", "ORG", "NICKNAME", "CATEGORIES"):
        for p in card.getProperties(name):
            v = p.getValue()
            t = type(v).__name__
            if t == "NValue":
                n = v.getValue()
                out.append({"n": o(name), "v": [items(getattr(n, "get" + f)()) for f in NF]})
            elif t == "AdrValue":
                n = v.getValue()
                out.append({"n": o(name), "v": [items(getattr(n, "get" + f)()) for f in AF]})
            elif t == "OrgValue":
                out.append({"n": o(name), "v": [items(v.getValue())]})
            elif t == "MultiValue" and v.getType() == v.VALUETYPE_TEXT:
                out.append({"n": o(name), "v": [[o(i.getValue()) for i in v.getValues()]]})
    return out


def many(d, via):
    if via == 1:
        return [Card.parseText(d)]
    if via == 2:
        import StringIO
        return Card.parseMultipleTextData(StringIO.StringIO(d))
    return Card.parseMultipleData(d, Card.sFormatText)


def rt(e):
    d = s(e["data"])
    cards = many(d, e["via"])
    texts = [c.getText() for c in cards]
    e["outs"] = [o(t) for t in texts]
    e["seen"] = [seen(c) for c in cards]
    b = many("".join(texts), e["via"] if e["via"] == 1 else 0)
    fresh = many(d, e["via"])
    e["again"] = int([c.getText() for c in cards] == texts and [str(c) for c in cards] == texts)
    e["reread"] = int([c.getText() for c in b] == texts)
    d2 = [c.duplicate() for c in cards]
    e["eq"] = int(len(b) == len(cards) and all([x == y and y == x for x, y in zip(cards, b) + zip(fresh, b) + zip(b, d2) + zip(fresh, fresh)]))
    e["ne"] = int(any([x != y for x, y in zip(cards, b) + zip(fresh, b)]))


def two(e):
    a, b = Card.parseText(s(e["data"])), Card.parseText(s(e["data2"]))
    e["eq"] = int(a == b)
    if int(b == a) != e["eq"]:
        e["eq"] = 2
    e["ne"] = int(a != b)
    e["hash"] = int(sorted([hash(p) for q in a.getProperties().values() for p in q]) == sorted([hash(p) for q in b.getProperties().values() for p in q]))


def build(e):
    card = Card(add_defaults=False)
    get = True
    names = []
    for w in e["want"]:
        n = s(w["n"])
        u = n.upper()
        comps = [[s(i) for i in c] for c in w["v"]]
        flat = [c[0] if len(c) == 1 else tuple(c) for c in comps]
        if u in ("N", "ADR"):
            cls, fields = (N, NF) if u == "N" else (Adr, AF)
            v = cls(*flat) if w["how"] == 0 else cls()
            if w["how"] == 1:
                for i in w["order"]:
                    getattr(v, "set" + fields[i])(flat[i])
            elif w["how"] == 2:
                v.setValue(tuple(flat))
            get = get and [getattr(v, "get" + f)() for f in fields] == flat and v == v.duplicate() and not v != v.duplicate() and v != cls("\x01") and not v == None
            get = get and cls.parseText(v.getText()) == v
            if u == "N":
                names.append(o(v.getFullName()))
        elif u == "ORG":
            v = comps[0]
        elif u in ("NICKNAME", "CATEGORIES"):
            v = comps[0]
        elif u == "TZ":
            v = UTCOffsetValue(w["num"])
        elif u == "GEO":
            v = [float(x) for x in comps[0][0].split(";")]
        elif u in ("BDAY", "REV"):
            t = comps[0][0]
            v = DateTime(int(t[0:4]), int(t[4:6]), int(t[6:8])) if len(t) == 8 else DateTime(int(t[0:4]), int(t[4:6]), int(t[6:8]), int(t[9:11]), int(t[11:13]), int(t[13:15]))
        else:
            v = comps[0][0]
        g = s(w["g"])
        if w["how"] == 1:
            p = Property(name=n, value=v)
            p.setGroup(g if g else None)
        else:
            p = Property(g if g else None, n, v)
        get = get and (p.getGroup() or "") == g and p == p.duplicate() and p.getName() == n
        card.addProperty(p)
    e["get"], e["names"] = int(bool(get)), names
    card.finalise()
    e["out"] = o(card.getText())
    e["eq"] = int(Card.parseText(card.getText()) == card)


def new(e):
    e["out"] = o(Card().getText())


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt({"rt": rt, "two": two, "api": build, "new": new}[e["op"]], e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
