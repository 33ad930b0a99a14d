from base import *
from javax.xml.parsers import DocumentBuilderFactory
from java.io import ByteArrayInputStream
from java.lang import String
from org.xml.sax import SAXException
from org.w3c.dom import Node
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from drv_p18 import s, o, Shape, need
NS = "{urn:ietf:params:xml:ns:icalendar-2.0}"


class El(object):
    """an element with the text before its first child and after itself"""
    def __init__(self, d):
        self.tag = "{%s}%s" % (d.getNamespaceURI() or "", d.getLocalName())
        self.text, self.tail, self.kids, self.attrib = "", "", [], {}
        a = d.getAttributes()
        for i in range(a.getLength()):
            if not a.item(i).getName().startswith("xmlns"):
                self.attrib[a.item(i).getName()] = a.item(i).getValue()
        n = d.getFirstChild()
        while n is not None:
            if n.getNodeType() == Node.ELEMENT_NODE:
                self.kids.append(El(n))
            elif n.getNodeType() in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE):
                if self.kids:
                    self.kids[-1].tail += n.getNodeValue()
                else:
                    self.text += n.getNodeValue()
            n = n.getNextSibling()

    def __iter__(self):
        return iter(self.kids)


def parse(x):
    f = DocumentBuilderFactory.newInstance()
    f.setNamespaceAware(True)
    b = f.newDocumentBuilder()
    b.setErrorHandler(None)
    return El(b.parse(ByteArrayInputStream(String(x.decode("utf-8") if isinstance(x, str) else x).getBytes("UTF-8"))).getDocumentElement())


def name(x):
    need(x.tag.startswith(NS))
    return x.tag[len(NS):]


def text(x):
    need(not (x.tail or "").strip() and not x.attrib)
    return o(x.text or "")


def leafless(x):
    need(not (x.text or "").strip() and not (x.tail or "").strip() and not x.attrib)


def value(x):
    k = list(x)
    if not k:
        return [o(name(x)), [[[], text(x)]]]
    leafless(x)
    for c in k:
        need(not list(c))
    return [o(name(x)), [[o(name(c)), text(c)] for c in k]]


def prop(x):
    leafless(x)
    ps, vs = [], []
    for i, k in enumerate(list(x)):
        if name(k) == "parameters":
            need(i == 0 and len(list(k)) > 0)
            leafless(k)
            for p in list(k):
                leafless(p)
                need(len(list(p)) > 0 and not [c for c in list(p) if list(c)])
                ps.append([o(name(p)), [text(c) for c in list(p)]])
        else:
            vs.append(value(k))
    # a repeated parameter element is one parameter with all the values
    names = []
    for n, v in ps:
        if n not in names:
            names.append(n)
    ps = [[n, sum([v for m, v in ps if m == n], [])] for n in names]
    return [o(name(x)), ps, vs]


def node(x):
    leafless(x)
    k = list(x)
    names = [name(c) for c in k]
    need(names in (["properties"], ["properties", "components"], ["components"], []))
    for c in k:
        leafless(c)
    ps = list(k[names.index("properties")]) if "properties" in names else []
    cs = list(k[names.index("components")]) if "components" in names else []
    return [o(name(x)), [prop(p) for p in ps], [node(c) for c in cs]]


def step(e):
    TimezoneDatabase.getTimezoneDatabase().clear()
    d = s(e["data"])
    a = Calendar.parseText(d)
    before = Calendar.parseText(d).getText()
    x = a.getTextXML()
    try:
        r = parse(x)
        need(name(r) == "icalendar" and len(list(r)) == 1)
        leafless(r)
        e["node"], e["shape"] = node(list(r)[0]), 1
    except (Shape, SAXException):
        e["node"], e["shape"] = [[], [], []], 0
    e["same"] = int(a.getText() == before and a.getTextXML() == x)


def run(sess):
    out = []
    for e in sess["events"]:
        e = dict(e)
        ok, r = attempt(step, e)
        e["ok"], e["exc"] = (1, "") if ok else (0, r)
        out.append(e)
    return out
