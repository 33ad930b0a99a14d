"""P25: random vCard streams, pairs of cards, cards built through the interface, against VCard.tla."""
from checks import icalgen as g

TEXTP = ["FN", "LABEL", "TEL", "EMAIL", "MAILER", "TITLE", "ROLE", "NOTE", "PRODID", "SORT-STRING", "UID", "NAME", "CLASS"]


def item(rng):
    return g.esc(g.raw(rng, rng.choice([0, 1, 3, 8, 8, 20])))


def structured(rng, n):
    return ";".join(",".join(item(rng) for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))) for _ in range(n))


def params(rng):
    out = g.params(rng)
    if rng.random() < .3:
        out += ";TYPE=" + rng.choice(["home", "work,voice", "pref", "WORK"])
    if rng.random() < .06:
        out += ";" + rng.choice(["HOME", "PREF", "X-FLAG"])
    return out


def dx(rng):
    d = g.date(rng)
    return d if rng.random() < .4 else "%s-%s-%s" % (d[:4], d[4:6], d[6:])


def dtx(rng):
    v = g.dt(rng)
    z = rng.choice(["", "Z", "Z"])
    return v + z if rng.random() < .4 else "%s-%s-%sT%s:%s:%s%s" % (v[:4], v[4:6], v[6:8], v[9:11], v[11:13], v[13:15], rng.choice([z, z, "-0500", "+05:30"]))


def prop(rng):
    x = rng.random()
    gr = rng.choice(["", "", "", "item1.", "Item1.", "g.", "x-1.", "a.b."]) if 1 else ""
    p = params(rng)
    if x < .16:
        l = "N%s:%s" % (p, structured(rng, rng.choice([5, 5, 5, 1, 3, 4])))
    elif x < .32:
        l = "ADR%s:%s" % (p, structured(rng, rng.choice([7, 7, 7, 1, 6])))
    elif x < .42:
        l = "ORG%s:%s" % (p, ";".join(item(rng) for _ in range(rng.choice([1, 1, 2, 3]))))
    elif x < .52:
        l = "%s%s:%s" % (rng.choice(["NICKNAME", "CATEGORIES"]), p, ",".join(item(rng) for _ in range(rng.choice([1, 1, 2, 3]))))
    elif x < .68:
        l = "%s%s:%s" % (rng.choice(TEXTP), p, g.text(rng))
    elif x < .73:
        l = rng.choice(["BDAY%s:" % p + dx(rng), "BDAY%s;VALUE=date:" % p + dx(rng), "BDAY%s;VALUE=date-time:" % p + dtx(rng), "REV%s:" % p + dtx(rng), "REV:" + dx(rng), "BDAY:" + dtx(rng)])
    elif x < .80:
        l = rng.choice(["PHOTO", "PHOTO", "LOGO", "SOUND", "KEY"]) + rng.choice([";ENCODING=b", ";ENCODING=B;TYPE=JPEG", ";BASE64", ";VALUE=uri", ""]) + p
        l += ":" + (g.uri(rng) if "VALUE=uri" in l else g.binary(rng))
        if ";BASE64" in l and rng.random() < .5:
            l = l.replace(":", ":  ", 1) if ':' not in p else l
    elif x < .84:
        l = rng.choice(["TZ%s:" % p + rng.choice(["-05:00", "+05:30", "+01:00", "-00:30", "+11:30:15"]), "TZ;VALUE=text%s:" % p + "-05:00; EST; x", "GEO%s:" % p + g.fl(rng) + ";" + g.fl(rng),
                        "GEO;VALUE=uri:geo:1.5,2.5"])
    elif x < .88:
        l = rng.choice(["URL%s:" % p + g.uri(rng), "SOURCE%s:" % p + g.uri(rng), "AGENT%s:BEGIN:VCARD\\nFN:Joe\\nEND:VCARD\\n" % p, "AGENT;VALUE=uri%s:" % p + g.uri(rng)])
    elif x < .92:
        l = rng.choice(["FN;VALUE=TEXT%s:" % p + g.text(rng), "fn%s:" % p + g.text(rng), "Email:" + g.text(rng), "URL;VALUE=text:" + g.text(rng), "NOTE;VALUE=x-odd:" + g.text(rng),
                        "adr%s:" % p + structured(rng, 7), "nickname:" + item(rng)])
    else:
        l = "%s%s:%s" % (rng.choice(["X-ABUID", "X-odd", "IMPP", "X-AIM"]), p, g.raw(rng).replace("\n", ""))
    return gr + l


def card(rng, n=None):
    ls = ["VERSION:3.0"] if rng.random() < .9 else ["VERSION;X-V=1:3.0"]
    ls += [prop(rng) for _ in range(rng.choice([0, 1, 3, 5]) if n is None else n)]
    rng.shuffle(ls)
    return ["VCARD", ls, []]


def mutate(rng, c):
    c = g.copy(c)
    ls = c[1]
    for _ in range(20):
        x = rng.random()
        i = rng.randrange(len(ls))
        l = ls[i]
        if "VERSION" in l:
            continue
        h = min(j for j in (l.find(":"), l.find(";")) if j > 0)
        if x < .15:
            ls[i] = l[l.index(".") + 1:] if "." in l[:h] else "item9." + l
        elif x < .25 and "." in l[:h]:
            ls[i] = l[:l.index(".")].swapcase() + l[l.index("."):]
        elif x < .35:
            ls.insert(rng.randint(0, len(ls)), prop(rng))
        elif x < .45:
            del ls[i]
        elif x < .5:
            ls.append(l)
        elif x < .6:
            ls[i] = l[:h] + ";X-EXTRA=1" + l[h:]
        elif x < .85 and l[:h].split(".")[-1] in ("N", "ADR", "ORG", "NICKNAME", "CATEGORIES") and '"' not in l and "VALUE" not in l:
            k = l.index(":")
            v = l[k + 1:]
            y = rng.random()
            if y < .3:
                v = ";" + v                     # one place further
            elif y < .5:
                v = v + ";"                     # notation only, but for ORG, unless it was full
            elif y < .7:
                a = v.replace("\\;", "\x00").split(";")
                rng.shuffle(a)
                v = ";".join(a).replace("\x00", "\\;")
            elif y < .85:
                v = v.replace("\\;", "\x00").replace(";", ",", 1).replace("\x00", "\\;")
            else:
                v = v.replace("\\,", "\x00").replace(",", ";", 1).replace("\x00", "\\,")
            ls[i] = l[:k + 1] + v
        elif x < .9 and "\\n" in l and l[:h] in TEXTP and ";" not in l.split(":")[0]:
            ls[i] = l.replace("\\\\", "\x00").replace("\\n", "\\N").replace("\x00", "\\\\")
        elif x < .95 and l[:h] in TEXTP and h == l.index(":"):
            ls[i] = l[:h] + ";VALUE=text" + l[h:]
        else:
            ls[i] = l[:h].swapcase() + l[h:] if "." not in l[:h] else l
        return c
    return c


def broken(rng, cs):
    """the stream as lines, spoilt"""
    ls = []
    for c in cs:
        ls += ["BEGIN:VCARD"] + c[1] + ["END:VCARD"]
    x = rng.random()
    i = rng.randrange(len(ls))
    if x < .2:
        q = [k for k, l in enumerate(ls) if l == "END:VCARD"]
        del ls[rng.choice(q)]
    elif x < .4:
        q = [k for k, l in enumerate(ls) if l == "BEGIN:VCARD"]
        del ls[rng.choice(q)]
    elif x < .5:
        ls.insert(i, rng.choice(["BEGIN:VCARD", "END:VCARD"]))
    elif x < .55:
        ls.insert(i, rng.choice(["BEGIN:VEVENT", "END:VEVENT"]))
    elif x < .65:
        q = [k for k, l in enumerate(ls) if l.startswith("VERSION")]
        k = rng.choice(q)
        ls[k] = rng.choice(["VERSION:2.1", "VERSION:4.0", "X-NO:1", ""])
    elif x < .75:
        ls.insert(i, rng.choice(["junk", ":x", "FN", "garbage line; x"]))
    elif x < .85:
        ls = ls[:i]
    elif x < .95:
        ls.insert(i, "")
    else:
        ls.insert(rng.choice([0, len(ls)]), "FN:outside")
    return ls


def octs(rng, cs):
    return [x for c in cs for x in g.octets(rng, c)]


def o(t):
    return list(t.encode("utf-8"))


def built(rng):
    want = [{"n": o("VERSION"), "g": [], "v": [[o("3.0")]], "how": 0, "num": 0, "order": []}]
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(["N", "N", "ADR", "ADR", "ORG", "NICKNAME", "CATEGORIES", "FN", "NOTE", "UID", "TZ", "GEO", "BDAY", "REV", "X-THING", "TEL"])
        num = 0
        if n in ("N", "ADR"):
            v = [[o(g.raw(rng, rng.choice([0, 1, 5, 20]))) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(5 if n == "N" else 7)]
        elif n in ("ORG", "NICKNAME", "CATEGORIES"):
            v = [[o(g.raw(rng, rng.choice([0, 1, 5, 20]))) for _ in range(rng.choice([1, 2, 3]))]]
        elif n == "TZ":
            num = rng.choice([1, -1]) * (rng.randint(0, 11) * 3600 + rng.choice([0, 30, 15]) * 60 + rng.choice([0, 0, 20])) or 3600
            a = abs(num)
            v = [[o("%s%02d%02d" % ("-" if num < 0 else "+", a // 3600, a // 60 % 60) + ("%02d" % (a % 60) if a % 60 else ""))]]
        elif n == "GEO":
            v = [[o(g.fl(rng) + ";" + g.fl(rng))]]
        elif n == "BDAY":
            v = [[o(g.date(rng))]]
        elif n == "REV":
            v = [[o(g.dt(rng))]]
        else:
            v = [[o(g.raw(rng))]] if n != "X-THING" else [[o(g.raw(rng).replace("\n", ""))]]
        k = len(v)
        want.append({"n": o(n), "g": o(rng.choice(["", "", "item1", "G"])), "v": v, "how": rng.choice([0, 1, 2]), "num": num, "order": rng.sample(range(k), k)})
    return {"op": "api", "want": want}


def check(run):
    rng = run.rng
    sess = [{"id": "new", "init": {}, "events": [{"op": "new"}]}]
    for i in range(run.scale(90, 3000)):
        cs = [card(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        ev = [{"op": "rt", "via": 1 if len(cs) == 1 and rng.random() < .5 else rng.choice([0, 2]), "data": octs(rng, cs)}]
        eol = rng.choice(["\r\n", "\n"])
        ev.append({"op": "rt", "via": rng.choice([0, 2]), "data": list((eol.join(broken(rng, [card(rng, 1) for _ in range(rng.choice([1, 2, 3]))])) + eol).encode("utf-8"))})
        c = card(rng, rng.choice([1, 2, 3]))
        m = mutate(rng, c)
        ev.append({"op": "two", "data": octs(rng, [c]), "data2": octs(rng, [m])})
        ev.append(built(rng))
        sess.append({"id": "v%d" % i, "init": {}, "events": ev})
    run.validate("P25Trace", run.drive("p25", sess))
