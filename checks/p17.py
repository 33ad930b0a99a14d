"""P17: escaped values and parameters against P17Trace.tla; the grammar itself is checked exhaustively in TextMC.tla."""
HOT = [44, 59, 92, 92, 10, 13, 58, 34, 94, 39, 110, 78, 32, 61, 114]


def text(rng, n=None, extra=()):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 40, 90]) if n is None else n
    p = rng.choice([.1, .5, .9])
    v = []
    for _ in range(n):
        x = rng.random()
        if x < p:
            v.append(rng.choice(HOT + list(extra)))
        elif x < .95:
            v.append(rng.choice([97, 98, 66, 49, 9, 46, 45]))
        else:
            v += list(chr(rng.choice([0xe9, 0x20ac, 0x1f600])).encode("utf-8"))
    return v


def escaped(rng, extra=(), valid=.8):
    """text with escapes, mostly valid ones"""
    v = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        x = rng.random()
        if x < .45:
            v += [92, rng.choice([92, 92, 110, 78, 44, 59, 114]) if rng.random() < valid else rng.choice([58, 58, 97, 34, 120, 195, 32, 116])]
        elif x < .6 and extra:
            v.append(rng.choice(extra))
        else:
            v.append(rng.choice([97, 98, 58, 34, 110, 61, 32]))
    return v


def pval(rng):
    x = rng.random()
    if x < .1:
        return []
    if x < .2:
        return [32] + text(rng)
    if x < .3:
        return text(rng) + [92]
    v = text(rng)
    while v and needs(v) and rng.random() < .9:        # a known finding: rarely
        v = v[:-1]
    return v


def pname(rng):
    return [ord(c) for c in rng.choice(["X-A", "X-B", "X-C", "CN", "x-low", "LANGUAGE", "X-" + "N" * 30])]


def needs(v):
    """a value that must be quoted and ends in an odd number of backslashes"""
    k = len(v)
    while k and v[k - 1] == 92:
        k -= 1
    return (len(v) - k) % 2 == 1 and (any(c in (58, 59, 44) for c in v) or v[:1] == [32])


def qtext(rng):
    """the inside of a quoted string"""
    return [c for c in text(rng) if c not in (34, 10, 13)]


def utext(rng):
    v = [c for c in text(rng) if c not in (10, 13, 44, 58, 59)]
    while v and v[0] in (32, 34):
        v = v[1:]
    return v


def cl(rng, vcard):
    """a content line, right or wrong"""
    d = [ord(c) for c in rng.choice(["X-FOO", "X-F", "x-foo"] + (["item1.X-FOO"] if vcard else []))]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        d += [59] + pname(rng)
        if vcard and rng.random() < .2:
            if rng.random() < .5:
                d = d + [59] + [ord(c) for c in rng.choice(["BASE64", "base64", "PREF"])]
            continue
        d += [61]
        for j in range(rng.choice([1, 1, 2, 3])):
            if j:
                d += [44]
            if rng.random() < .5:
                q = qtext(rng)
                d += [34] + q + [34]
            else:
                d += utext(rng)
    d += [58]
    v = [c for c in text(rng) if c not in (10, 13)]
    x = rng.random()
    if x < .35:         # damage
        hdr = len(d)
        k = rng.randrange(hdr)
        y = rng.random()
        if y < .4:
            c = d[k]
            if c in (34, 61, 58, 59, 44):
                d = d[:k] + d[k + 1:]
        elif y < .7:
            d = d[:k]
        else:
            d = d[:k] + [rng.choice([34, 59, 58, 61])] + d[k:]
    return d + v


def inscope(d):
    """leading spaces of names and values, and quotes or commas within parameter names, are not judged"""
    hdr = bytes(d)
    import re
    if re.search(rb'[;=,] ', hdr) or hdr[:1] in (b" ", b'"'):
        return False
    # parameter names: between ; and = outside quotes
    for m in re.finditer(rb';([^=:;]*)', hdr):
        if b'"' in m.group(1) or b"," in m.group(1):
            return False
    return True


def one(rng):
    op = rng.choice(["tdec", "tdec", "tenc", "tenc", "ldec", "lenc", "odec", "oenc", "sdec", "senc", "rdec", "renc", "udec", "uenc", "pdec", "pdec", "pdec", "penc", "penc", "penc"])
    e = {"op": op}
    if op == "tdec":
        return dict(e, how=rng.choice(["value", "prop", "prop", "vprop"]), data=escaped(rng, (44, 59)))
    if op == "tenc":
        return dict(e, how=rng.choice(["prop", "set", "vprop"]), v=text(rng))
    if op == "ldec":
        return dict(e, how=rng.choice(["prop", "vprop"]), data=escaped(rng, (44, 44, 59)))
    if op == "lenc":
        return dict(e, how=rng.choice(["prop", "vprop"]), v=[text(rng) for _ in range(rng.choice([1, 2, 2, 3]))])
    if op == "odec":
        return dict(e, data=escaped(rng, (59, 59)))
    if op == "oenc":
        return dict(e, v=[[text(rng)] for _ in range(rng.choice([1, 2, 3]))])
    if op == "sdec":
        d = escaped(rng, (44, 59, 59))
        if rng.random() < .3:
            d += [59] * rng.randint(1, 8)
        return dict(e, max=rng.choice([5, 7]), data=d)
    if op == "senc":
        return dict(e, v=[[text(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(rng.choice([5, 7]))])
    if op == "rdec":
        d = [50, 46, 48] + rng.choice([[59], [59], [59], [92, 59], []]) + escaped(rng, (59,) if rng.random() < .5 else ())
        return dict(e, data=d)
    if op == "renc":
        v = [[50, 46, 48], text(rng)] + ([text(rng) or [97]] if rng.random() < .4 else [])
        return dict(e, v=v)
    if op == "udec":
        return dict(e, data=[104, 58] + escaped(rng, (44, 59)))
    if op == "uenc":
        return dict(e, v=[104, 58] + [c for c in text(rng) if c != 13])
    if op == "pdec":
        vc = int(rng.random() < .4)
        d = cl(rng, vc)
        if not inscope(d):
            return None
        return dict(e, vcard=vc, data=d)
    names = []
    how = rng.choice(["add", "replace", "dup"])
    pars = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = pname(rng)
        if n in names:
            if how == "replace":
                continue
        names.append(n)
        pars.append({"n": n, "v": [pval(rng) for _ in range(rng.choice([1, 1, 2, 3]))]})
    lone = any(needs(v) for q in pars for v in q["v"])
    return dict(e, lonebs=int(lone), vcard=int(rng.random() < .3), how=how, pars=pars, val=[c for c in text(rng) if c not in (10, 13)])


def session(rng, i):
    ev = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .7:
            ev.append({"op": "modes", "colon": rng.randrange(4), "esc": rng.randrange(4), "uri": rng.choice([0, 2, 2]), "rs": rng.randrange(4), "adr": rng.randrange(4), "nopar": rng.randrange(4), "b64": rng.choice([0, 2])})
        for _ in range(rng.randint(2, 8)):
            e = one(rng)
            if e:
                ev.append(e)
    return {"id": "s%d" % i, "init": {}, "events": ev}


def check(run):
    run.mc("TextMC.tla", run.scale("TextMC.cfg", "TextMC_big.cfg"))
    s = [session(run.rng, i) for i in range(run.scale(800, 20000))]
    run.validate("P17Trace", run.drive("p17", s))
