"""P28: xCal of random calendars against CalForms.tla."""
from checks import p18


def check(run):
    p18.check(run, "p28", "P28Trace", (160, 6000))
