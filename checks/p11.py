"""P11: expansion of a calendar's events against P11Trace.tla."""
import copy, datetime
from . import recurgen as g
from .p10 import withoff, inzone, off, newrule
TD = datetime.timedelta
WORLDS = ["F", "F", "Z", "O", "O", "DF", "DZ"]


def at(dt, do, tz):
    return withoff(g.dtrec(dt, do, tz))


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.world = rng.choice(WORLDS)
        self.base = datetime.datetime(rng.choice([2020, 2023, 2024]), rng.randint(1, 12), rng.randint(1, 28))
        self.n = 0
        self.days = rng.choice([10, 30, 60])

    def zone(self):
        if self.world in ("F", "DF"):
            return "F"
        if self.world == "O":
            return self.rng.choice(["O3600", "O-18000", "O19800", "Z"])
        return "Z"

    def start(self, do):
        rng = self.rng
        d = self.base + TD(days=rng.randint(-3, self.days))
        if not do:
            d += TD(seconds=rng.choice([0, 0, 3600 * rng.randint(0, 23), 43200, 86340, 900 * rng.randint(0, 95)]))
        return d

    def comp(self, kind, uid=None):
        rng = self.rng
        self.n += 1
        do = 1 if self.world[0] == "D" and rng.random() < .6 else 0
        tz = "F" if do else self.zone()
        s = self.start(do)
        c = {"id": "c%d" % self.n, "uid": uid or "u%d" % self.n, "kind": kind, "stamp": rng.randint(0, 5)}
        if kind == "other":
            c["typ"] = rng.choice(["VTODO", "VJOURNAL"])
        self.times(c, s, do, tz)
        return c

    def times(self, c, s, do, tz):
        rng = self.rng
        c["start"] = at(s, do, tz)
        c["endf"] = rng.choice(["dtend", "dtend", "dur", "none"])
        if c.get("typ") == "VJOURNAL":
            c["endf"] = "none"
        if c["endf"] == "none":
            c["len"] = 86400 if do else 0
        elif do:
            c["len"] = 86400 * rng.choice([1, 1, 2, 3, 10])
        else:
            c["len"] = rng.choice([1800, 3600, 3600, 7200, 86400, 90000, 3 * 86400, 60])
        if c["endf"] == "dtend":
            z = tz if tz in "FZ" or rng.random() < .8 else "Z"
            c["end"] = inzone(s + TD(seconds=c["len"]), do, tz, z)

    def master(self):
        rng = self.rng
        c = self.comp("master")
        s, tz, do = c["start"], c["start"]["tz"], c["start"]["do"]
        c["rules"], c["exrules"], c["rdates"], c["exdates"], c["rpers"], c["expers"] = [], [], [], [], [], []
        kind = rng.random()
        a = g.todt(s)
        if kind < .85:
            f = rng.choice(["DAILY", "DAILY", "WEEKLY", "WEEKLY", "MONTHLY"])
            r = g.rule(rng, s, f, simple=.6, subday=False)
            r["byhour"] = r["bymin"] = r["bysec"] = []
            if f == "DAILY" and rng.random() < .6:
                r["interval"] = rng.choice([1, 2, 3])
            k = rng.random()
            if k < .4:
                r["count"] = rng.choice([1, 2, 3, 5, 10])
            elif k < .6:
                g.bounded(rng, r, s, self.days)
            r["fo"] = 0
            if r["hasuntil"] and not r["until"]["do"] and tz[0] == "O":
                r["until"]["tz"] = "Z"
                r["fo"] = off(tz)
            c["rules"] = [r]
        if rng.random() < .1:
            r = g.rule(rng, s, "WEEKLY", simple=1, subday=False)
            r["fo"] = 0
            c["exrules"] = [r]
        zones = [tz] if tz in "FZ" else [tz, "Z", "O-25200"]

        def near(sec=0):
            return a + TD(days=rng.randint(0, self.days), seconds=sec)
        if not c["rules"] or rng.random() < .35:
            c["rdates"] = [inzone(near(0 if do else rng.choice([0, 0, 3600, -60])), do, tz, rng.choice(zones)) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < .4:
            c["exdates"] = [inzone(near(0 if do else rng.choice([0, 0, 0, 3600])), do, tz, rng.choice(zones)) for _ in range(rng.choice([1, 2, 4]))]
            if rng.random() < .15:
                c["exdates"].append(dict(c["start"]))
        if not do and rng.random() < .3:
            seen = set()
            for _ in range(rng.choice([1, 2])):
                b = near(rng.choice([0, 0, 120, 7200]))
                if b in seen or b == a:
                    continue
                seen.add(b)
                e = b + TD(seconds=rng.choice([60, 3600, 5 * 3600, 86400, 5 * 86400]))
                z = "F" if tz == "F" else "Z"
                c["rpers"].append({"s": inzone(b, 0, tz, z), "e": inzone(e, 0, tz, z), "dur": rng.choice([0, 1])})
        c["rtexts"] = [g.text(r) for r in c["rules"]]
        c["extexts"] = [g.text(r) for r in c["exrules"]]
        return c

    def some_instance(self, m):
        """the local time of a (probable) instance of the master"""
        rng = self.rng
        a = g.todt(m["start"])
        k = rng.random()
        if m["rdates"] and k < .2:
            d = rng.choice(m["rdates"])
            return g.todt(d) + TD(seconds=off(m["start"]["tz"]) - off(d["tz"]))
        if m["rpers"] and k < .4:
            d = rng.choice(m["rpers"])["s"]
            return g.todt(d) + TD(seconds=off(m["start"]["tz"]) - off(d["tz"]))
        if k < .5:
            return a
        step = 1
        if m["rules"]:
            step = {"DAILY": 1, "WEEKLY": 7, "MONTHLY": 30}[m["rules"][0]["freq"]] * m["rules"][0]["interval"]
        return a + TD(days=step * rng.randint(0, max(1, self.days // step)))

    def over(self, m):
        rng = self.rng
        s = m["start"]
        tz, do = s["tz"], s["do"]
        c = {"uid": m["uid"], "kind": "over", "stamp": rng.randint(0, 5)}
        self.n += 1
        c["id"] = "c%d" % self.n
        rid = self.some_instance(m)
        zones = [tz] if tz in "FZ" else [tz, "Z", "O-25200"]
        c["rid"] = inzone(rid, do, tz, rng.choice(zones))
        c["future"] = 0
        ns = rid + (TD(days=rng.choice([0, 0, 1, -1, 20])) if do else TD(seconds=rng.choice([0, 0, 3600, -3600, 86400, -86400 * 3, 86400 * 30])))
        self.times(c, ns, do, tz)
        return c

    def future(self, m):
        """a THISANDFUTURE override that keeps the start"""
        c = self.over(m)
        c["future"] = 1
        s = m["start"]
        rid = g.todt(c["rid"]) + TD(seconds=off(s["tz"]) - off(c["rid"]["tz"]))
        self.times(c, rid, s["do"], s["tz"])
        while c["len"] > m["len"]:
            self.times(c, rid, s["do"], s["tz"])
        return c

    def batch(self, masters):
        rng = self.rng
        l = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.random()
            if k < .3:
                l.append(self.comp("plain"))
            elif k < .7 or not masters:
                m = self.master()
                masters.append(m)
                l.append(m)
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    l.append(self.over(m))
                if rng.random() < .12:
                    l.append(self.future(m))
            elif k < .9:
                l.append(self.over(rng.choice(masters)))
            else:
                c = self.comp("other", uid=rng.choice(masters)["uid"] if False else None)
                c["rtexts"] = ["FREQ=DAILY"]
                l.append(c)
        # one override per occurrence
        seen, res = set(), []
        for c in l:
            if c["kind"] == "over":
                key = (c["uid"], g.todt(c["rid"]) - TD(seconds=c["rid"]["off"]))
                if key in self.rids:
                    continue
                self.rids.add(key)
            res.append(c)
        rng.shuffle(res)
        return res
    rids = None

    def query(self, comps):
        rng = self.rng
        do = self.world[0] == "D"
        z = "F" if self.world in ("F", "DF") else "Z"
        lo = self.base + TD(days=rng.randint(-4, self.days + 5))
        hi = lo + TD(days=rng.choice([1, 1, 2, 7, 30, self.days + 10]))
        if not do:
            lo += TD(seconds=rng.choice([0, 0, 3600 * rng.randint(0, 23), 43200]))
            if rng.random() < .35 and comps:      # at the edges of an event
                c = rng.choice(comps)
                e = g.todt(c["start"]) - TD(seconds=c["start"]["off"]) + TD(seconds=rng.choice([0, c["len"], 1, -1, c["len"] - 1])) + TD(days=rng.choice([0, 0, 1, 7, 2]))
                if rng.random() < .6:
                    lo = e
                    hi = lo + TD(seconds=rng.choice([1, 3600, 86400, 7 * 86400]))
                else:
                    hi = e
                    lo = hi - TD(seconds=rng.choice([1, 3600, 86400, 7 * 86400]))
        return {"op": "query", "lo": at(lo, 0, z), "hi": at(hi, 0, z), "top": rng.choice([0, 1]), "spoil": 1 if rng.random() < .3 else 0}


def case(rng, i):
    x = Gen(rng)
    x.rids = set()
    masters, comps, ev = [], [], []
    b = []
    while not b:
        b = x.batch(masters)
    comps += b
    ev.append({"op": "load", "via": rng.choice(["all", "all", "add"]), "comps": b})
    for _ in range(rng.choice([2, 3, 4, 6])):
        k = rng.random()
        if k < .6:
            ev.append(x.query(comps))
        elif k < .7:
            ev.append({"op": "dup"})
        elif k < .85 and comps:
            c = rng.choice(comps)
            comps.remove(c)
            if c in masters:
                masters.remove(c)
            if c["kind"] == "over":
                x.rids.discard((c["uid"], g.todt(c["rid"]) - TD(seconds=c["rid"]["off"])))
            ev.append({"op": "remove", "rid": c["id"]})
        else:
            b = x.batch(masters)
            via = rng.choice(["add", "one"])
            if via == "one":
                b = b[:1]
            if not b:
                continue
            # drop what could not be loaded
            masters[:] = [m for m in masters if m in comps or m in b]
            comps += b
            ev.append({"op": "load", "via": via, "comps": b})
    ev.append(x.query(comps))
    return {"id": "s%d" % i, "init": {"base": at(x.base, 0, "F")}, "events": ev}


def check(run):
    s = [case(run.rng, i) for i in range(run.scale(1100, 12000))]
    run.validate("P11Trace", run.drive("p11", s))
