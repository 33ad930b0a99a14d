"""P13: the store of a calendar and its lookups against P13Trace.tla; histories from IndexHist.tla."""
RIDS = [-1, 0, 1, 2, 3]
UIDS = ["u1", "u2", "u3"]


class World(object):
    def __init__(self, rng):
        self.rng = rng
        self.cals = [[]]
        self.pool = []
        self.n = 0
        self.ev = []

    def comp(self, typ=None, uid=None, rid=None):
        rng = self.rng
        self.n += 1
        typ = typ or rng.choice(["VEVENT"] * 4 + ["VTODO", "VTODO", "VJOURNAL", "VFREEBUSY", "X-THING"])
        c = {"tag": "t%d" % self.n, "typ": typ, "uid": uid or rng.choice(UIDS), "rid": -1, "start": rng.choice([0, 0, 1]), "cnt": rng.choice([1, 3, 4, 5]), "alarm": rng.choice([0, 0, 1])}
        if typ in ("VEVENT", "VTODO", "VJOURNAL"):
            c["rid"] = rid if rid is not None else rng.choice([-1, -1, 0, 1, 2, 3])
            if c["rid"] >= 0:
                c["start"] = max(0, c["rid"] + rng.choice([0, 0, 1, 2]))
                c["cnt"] = 1
        else:
            c["cnt"] = 1
            if typ == "X-THING":
                c["uid"] = ""
        if rng.random() < .08 and self.n > 1:                    # equal components
            c["tag"] = "t%d" % rng.randint(1, self.n - 1)
        return c

    def add(self, k, comps):
        rng = self.rng
        op = rng.choice(["parse", "parse", "parseone", "add", "add", "add"])
        e = {"op": op, "cal": k + 1, "comps": comps}
        if op == "add":
            e["how"] = rng.choice(["dup", "dupin", "move", "build"])
        self.ev.append(e)
        self.cals[k] += [dict(c) for c in comps]

    def distinct(self, k, i):
        """only components whose tag is theirs alone in this calendar are addressed by tag"""
        t = self.cals[k][i]["tag"]
        return sum(c["tag"] == t for c in self.cals[k]) == 1

    def remove(self, k, i):
        if not self.distinct(k, i) or any(p["tag"] == self.cals[k][i]["tag"] for p in self.pool):
            return
        c = self.cals[k].pop(i)
        self.pool.append(c)
        self.ev.append({"op": "remove", "cal": k + 1, "tag": c["tag"]})

    def readd(self, k):
        c = self.pool.pop(self.rng.randrange(len(self.pool)))
        u = self.rng.choice(["", "", self.rng.choice(UIDS)]) if c["typ"] in ("VEVENT", "VTODO", "VJOURNAL") else ""
        self.ev.append({"op": "readd", "cal": k + 1, "tag": c["tag"], "uid": u})
        self.cals[k].append(dict(c, uid=u or c["uid"]))

    def copyin(self, k):
        src = self.rng.randrange(len(self.cals))
        if not self.cals[src]:
            return
        i = self.rng.randrange(len(self.cals[src]))
        if not self.distinct(src, i):
            return
        c = self.cals[src][i]
        u = self.rng.choice(["", self.rng.choice(UIDS), self.rng.choice(UIDS)]) if c["typ"] in ("VEVENT", "VTODO", "VJOURNAL") else ""
        self.ev.append({"op": "copyin", "cal": k + 1, "src": src + 1, "tag": c["tag"], "uid": u})
        self.cals[k].append(dict(c, uid=u or c["uid"]))

    def look(self, k):
        lo = self.rng.choice([0, 0, 0, 1, 2])
        self.ev.append({"op": "look", "cal": k + 1, "uids": UIDS, "rids": RIDS, "lo": lo, "hi": self.rng.choice([12, 12, 3, 4]), "ok": 1})

    def rename(self, k, a, b):
        self.ev.append({"op": "rename", "cal": k + 1, "old": a, "new": b})
        for c in self.cals[k]:
            if c["uid"] == a:
                c["uid"] = b

    def clear(self, k, typ=None):
        self.ev.append({"op": "cleartype", "cal": k + 1, "typ": typ} if typ else {"op": "clear", "cal": k + 1})
        self.cals[k] = [c for c in self.cals[k] if typ and c["typ"] != typ]

    def rmkey(self, k):
        rng = self.rng
        if not self.cals[k] or len(set(c["tag"] for c in self.cals[k])) != len(self.cals[k]):
            return
        c = rng.choice(self.cals[k])
        u, r = (c["uid"], c["rid"]) if rng.random() < .8 and c["uid"] else (rng.choice(UIDS), rng.choice(RIDS))
        m = [x for x in self.cals[k] if x["typ"] in ("VEVENT", "VTODO", "VJOURNAL") and (x["uid"], x["rid"]) == (u, r)]
        if len(m) > 1 or any(x["typ"] == "VFREEBUSY" and r < 0 and x["uid"] == u for x in self.cals[k]):
            return
        self.ev.append({"op": "rmkey", "cal": k + 1, "uid": u, "rid": r, "left": []})
        self.cals[k] = [x for x in self.cals[k] if x not in m]

    def dup(self, k):
        self.ev.append({"op": "dup", "cal": k + 1})
        self.cals.append([dict(c) for c in self.cals[k]])
        return len(self.cals) - 1


def concretise(rng, i, beh):
    """a behaviour of IndexHist, with a look after most steps"""
    w = World(rng)
    k = 0
    for b in beh:
        op = b["op"]
        if op == "add":
            w.add(k, [w.comp(b["t"], "u%d" % b["u"], b["r"] if b["r"] else -1)])
        elif op == "remove":
            if b["i"] <= len(w.cals[k]):
                w.remove(k, b["i"] - 1)
        elif op == "rename":
            w.rename(k, "u%d" % b["u"], "u%d" % b["v"])
        elif op == "cleartype":
            w.clear(k, b["t"])
        elif op == "clear":
            w.clear(k)
        elif op == "dup":
            o = k
            k = w.dup(k)
            w.look(o)
        if op in ("look", "rename", "remove") or rng.random() < .4:
            w.look(k)
        if w.pool and rng.random() < .15:
            w.readd(k)
    for j in range(len(w.cals)):
        w.look(j)
    return {"id": "h%d" % i, "init": {}, "events": w.ev}


def random_one(rng, i):
    w = World(rng)
    w.add(0, [w.comp() for _ in range(rng.choice([0, 1, 3, 6]))])
    for _ in range(rng.randint(3, 18)):
        k = rng.randrange(len(w.cals))
        x = rng.random()
        q = w.cals[k]
        if x < .3:
            w.add(k, [w.comp() for _ in range(rng.choice([1, 1, 2, 3]))])
        elif x < .45 and q:
            w.remove(k, rng.randrange(len(q)))
        elif x < .55 and w.pool:
            w.readd(k)
        elif x < .65:
            w.copyin(k)
        elif x < .75:
            w.rename(k, rng.choice(UIDS), rng.choice(UIDS))
        elif x < .82:
            w.rmkey(k)
        elif x < .86:
            w.clear(k, rng.choice([None, "VEVENT", "VTODO", "VFREEBUSY", "X-THING"]))
        elif x < .92 and len(w.cals) < 4:
            w.dup(k)
        elif x < .95 and len(w.cals) < 4:
            w.ev.append({"op": "newcal"})
            w.cals.append([])
        w.look(rng.randrange(len(w.cals)) if rng.random() < .3 else k)
    for j in range(len(w.cals)):
        w.look(j)
    return {"id": "r%d" % i, "init": {}, "events": w.ev}


def check(run):
    run.mc("IndexHist.tla", run.scale("IndexHist.cfg", "IndexHist_big.cfg"))
    beh = run.gen("IndexHist.tla", "IndexHist_gen.cfg", run.scale(200, 4000), 22)
    s = [concretise(run.rng, i, b) for i, b in enumerate(beh)] + [random_one(run.rng, i) for i in range(run.scale(300, 6000))]
    run.validate("P13Trace", run.drive("p13", s))
