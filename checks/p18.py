"""P18: jCal of random calendars against CalForms.tla, read back and compared."""
from checks import icalgen as g


def check(run, drv="p18", spec="P18Trace", n=(130, 6000)):
    rng = run.rng
    sess = []
    for i in range(run.scale(*n)):
        c = g.calendar(rng, faith=rng.random() < .75, twins=True)      # mostly calendars that must come back the same
        sess.append({"id": "c%d" % i, "init": {}, "events": [{"op": "rt", "data": g.octets(rng, c)}]})
    for i in range(run.scale(n[0] // 3, n[1] // 3)):
        sess.append({"id": "d%d" % i, "init": {}, "events": [{"op": "rt", "data": g.octets(rng, g.dense(rng))}]})
    run.validate(spec, run.drive(drv, sess))
