"""P16: folding and unfolding of content lines against P16Trace.tla (grammar in ICalText.tla, itself checked in TextMC.tla)."""


def uchar(rng, n):
    while True:
        c = {1: lambda: rng.randint(33, 126), 2: lambda: rng.randint(0x80, 0x7ff), 3: lambda: rng.randint(0x800, 0xffff), 4: lambda: rng.randint(0x10000, 0x10ffff)}[n]()
        if not 0xd800 <= c < 0xe000:
            return list(chr(c).encode("utf-8"))


def body(rng, n):
    """n octets or a little more"""
    kind = rng.choice(["ascii", "mix", "2", "3", "4", "spaces", "raw", "conts", "tail"])
    v = []
    while len(v) < n:
        if kind == "ascii":
            v += uchar(rng, 1)
        elif kind == "mix":
            v += uchar(rng, rng.choice([1, 1, 1, 2, 3, 4]))
        elif kind in "234":
            v += uchar(rng, int(kind))
        elif kind == "spaces":
            v += rng.choice([[32], [9], [32, 32], uchar(rng, 1), uchar(rng, 2)])
        elif kind == "raw":         # octets that are no text in any charset
            v += [rng.choice([0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xff, 97, 11, 12, 0x85, 0xa0, 28])]
        elif kind == "conts":
            v += [rng.randint(0x80, 0xbf)]
        else:
            v += uchar(rng, 1) if len(v) < n - 6 else uchar(rng, rng.choice([2, 3, 4]))
    return v


def o(t):
    return [ord(c) for c in t]


def wline(rng, name):
    n = rng.choice([0, 1, 5, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 200, 230, 300, rng.randint(0, 400)])
    par = rng.random()
    if par < .15:
        name += ";X-P=" + "".join(rng.choice("abcdef ghi/") for _ in range(rng.choice([1, 30, 70, 90])) ).strip(" ") + "z"
    elif par < .25:
        v = [x for x in body(rng, rng.choice([30, 66, 80])) if x not in (34, 94) and x >= 32]
        return o(name + ';X-P="') + [97] + v + [59, 34, 58] + body(rng, n)
    return o(name) + [58] + body(rng, n)


def writes(rng):
    ev = []
    for _ in range(rng.randint(3, 6)):
        how = rng.choice(["parse", "parse", "api", "vparse", "cal", "comp", "card"])
        if how in ("parse", "api"):
            l = wline(rng, "X-" + rng.choice(["A", "LONG-NAME", "B" * 40, "B" * 73, "B" * 100]))
            if how == "api" and 59 in l[:l.index(58)]:
                how = "parse"
            e = {"lines": [l], "whole": 1}
        elif how == "vparse":
            e = {"lines": [wline(rng, rng.choice(["item1.", "", "g."]) + "X-A")], "whole": 1}
        else:
            e = {"lines": [wline(rng, "X-L%d" % k) for k in range(rng.choice([1, 2, 4]))], "whole": 0}
        ev.append(dict(e, op="write", how=how))
    return ev


def fold(rng, l, nl, deep):
    """folds the line anywhere"""
    if not l:
        return [[]]
    p = rng.choice([0, .02, .2, 1]) if deep else rng.choice([0, .02])
    out = [[l[0]]]
    for c in l[1:]:
        while rng.random() < p:
            out.append([rng.choice([32, 32, 9])])
            if rng.random() < .7:
                break
        out[-1].append(c)
    if rng.random() < .05:
        out.append([rng.choice([32, 9])])
    return out


def phys(rng, lines, mixed):
    eol = rng.choice([[13, 10], [10]])
    d = []
    for l in lines:
        for q in fold(rng, l, eol, True):
            d += q + (rng.choice([[13, 10], [10]]) if mixed else eol)
    return d, eol


def reads(rng):
    ev = []
    for _ in range(rng.randint(2, 4)):
        how = rng.choice(["sio", "sio", "file", "cal"])
        n = rng.randint(1, 5)
        if how == "cal":
            ls = [o("BEGIN:VCALENDAR"), o("VERSION:2.0"), o("PRODID:x")] + [o("X-L%d:" % (k + 1)) + [x for x in body(rng, rng.choice([0, 1, 10, 80]))] for k in range(n)] + [o("END:VCALENDAR")]
        else:
            ls = []
            for k in range(n):
                x = rng.random()
                l = [] if x < .1 else body(rng, rng.choice([1, 3, 30, 100]))
                ls.append(l)
        d, eol = phys(rng, ls, rng.random() < .3)
        x = rng.random()
        if x < .2 and d[-len(eol):] == eol:
            d = d[:-len(eol)]
        elif x < .3 and d[-1:] == [10]:
            d = d[:-1] + ([13] if d[-2:-1] != [13] else [])
        elif x < .35 and how != "cal":
            d = d + rng.choice([[10], [13, 10], [10, 10], [32], [32, 10]])
        ev.append({"op": "read", "how": how, "data": d})
    return ev


def check(run):
    run.mc("TextMC.tla", "FoldMC.cfg")
    n = run.scale(300, 8000)
    s = [{"id": "w%d" % i, "init": {}, "events": writes(run.rng)} for i in range(n)]
    s += [{"id": "r%d" % i, "init": {}, "events": reads(run.rng)} for i in range(n)]
    run.validate("P16Trace", run.drive("p16", s))
