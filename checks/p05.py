"""P05: answers of freshly loaded timezone definitions against Tz.tla."""
import datetime
from . import tzgen as t


def session(rng, i, n, fresh=1):
    z = t.zone(rng)
    ev = [t.query(rng, z) for _ in range(n)]
    return {"id": "z%d" % i, "init": {"def": z["def"], "text": z["text"], "hi": t.rec(datetime.datetime(z["top"] + 4, 1, 1)), "fresh": fresh}, "events": ev}


def check(run):
    s = [session(run.rng, i, 14) for i in range(run.scale(400, 6000))]
    recs = run.drive("tz", s)
    run.validate("TzTrace", recs)
