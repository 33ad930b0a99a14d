"""P21: histories of validation with and without repair, on random calendars and cards."""
from . import p20


def check(run):
    run.mc("ValidMC.tla", run.scale("ValidMC.cfg", "ValidMC_big.cfg"))
    s = [p20.session(run.rng, i, 1) for i in range(run.scale(600, 8000))]
    recs = run.drive("p20", s)
    run.validate("P20Trace", recs)
