import base
from recurlib import *


def run(sess):
    out = []
    for e in sess["events"]:
        ok, rule = attempt(mkrule, sess["init"]["text"])
        if not ok:
            e = dict(e, ok=0, items=[], kind=1, limited=1, exc=rule)
        else:
            e, _ = expand(rule, mkdt(sess["init"]["start"]), e)
        out.append(e)
    return out
