"""P27: random calendars written through random filters, against the selection defined in P27Trace.tla."""
from checks import icalgen as g


def b(s):
    return list(s.encode("utf-8"))


def filt(rng, cs, everything=False):
    """a filter for components cs of one type, from what they contain"""
    names = sorted({l.replace(";", ":").split(":")[0].upper() for c in cs for l in c[1]})
    kids = {}
    for c in cs:
        for k in c[2]:
            kids.setdefault(k[0], []).append(k)
    allsub = int(rng.random() < .35)
    subs = []
    if everything or not allsub or rng.random() < .2:
        for t in sorted(kids):
            if everything or rng.random() < .65:
                subs.append([b(t), filt(rng, kids[t], everything)])
        if rng.random() < .2:
            subs.append([b("VNOTHERE"), [1, [], 1, []]])
        deep = sorted({q[0] for ks in kids.values() for k in ks for q in k[2]} - set(kids))
        if deep and rng.random() < .5:          # a type that only occurs further down
            subs.append([b(rng.choice(deep)), [1, [], 1, []]])
    allprops = int(everything or rng.random() < .3)
    props = []
    if not allprops or rng.random() < .2:
        for n in names:
            if rng.random() < .5:
                props.append([b(n), int(rng.random() < .3)])
        if rng.random() < .2:
            props.append([b("X-NOT-HERE"), 0])
    if "VERSION" in names and not allprops and rng.random() < .7:
        props = [p for p in props if p[0] != b("VERSION")] + [[b("VERSION"), 0]]
    return [allsub, subs, allprops, props]


def check(run):
    rng = run.rng
    sess = []
    for i in range(run.scale(110, 5000)):
        c = g.calendar(rng, twins=True)
        data = g.octets(rng, c)
        ev = [{"op": "filter", "data": data, "filter": filt(rng, [c], rng.random() < .15)}]
        sess.append({"id": "c%d" % i, "init": {}, "events": ev})
    run.validate("P27Trace", run.drive("p27", sess))
