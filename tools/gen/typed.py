"""Scripts over typed primitives: kinds, numbers, date-times, Base64 text."""
from .util import *
from . import codec
TYPES = ["Verfer","Signer","Diger","Saider","Cigar","Salter","Seqner","Number","Dater","Bexter","Pather","Prefixer","Siger"]
OWN = {"Verfer":["B","D","1AAA","1AAB","1AAI","1AAJ"],"Signer":["A","J","Q"],"Diger":["E","F","G","H","I","0D","0E","0F","0G"],
       "Cigar":["0B","0C","0I"],"Salter":["0A"],"Seqner":["0A"],"Number":["M","0H","N","0A"],"Dater":["1AAG"],
       "Bexter":["4A","5A","6A","7AAA","8AAA","9AAA"],"Siger":["A","B","C","D","E","F","2A","2B","2C","2D","2E","2F"]}
OWN["Saider"] = OWN["Diger"]; OWN["Pather"] = OWN["Bexter"]; OWN["Prefixer"] = OWN["Verfer"] + OWN["Diger"]

def kinds(r, n):
    for t in TYPES:
        for c in [None] + list(codec.FIX) + list(codec.VAR) + ["2A", "3A", "", "é", "-A", "4", "7AAC"]:
            for k in (codec.rawsize(c) if c in codec.FIX else 9, 32, 64, 128):
                yield {"op": "t.raw", "type": t, "code": [] if c is None else [T(c)], "raw": L(rb(r, k))}
    for _ in range(n):
        t = r.choice(TYPES)
        x = r.random()
        if t == "Siger":
            s = codec.indexer(r, r.choice(OWN[t]) if x < .6 else None) if x < .85 else codec.matter(r)
        else:
            s = codec.matter(r, r.choice(OWN[t])) if x < .5 else codec.matter(r) if x < .9 else codec.indexer(r)
        if r.random() < .15: s = codec.damage(r, s)
        if r.random() < .1: s += codec.matter(r)
        code = []
        if r.random() < .4:
            code = [T(r.choice(OWN[t] + list(codec.FIX) + ["4A", "7AAA", "", "é", "2A"]))]
        if r.random() < .3:
            yield {"op": "t.par", "type": t, "via": "qb2", "in": L(codec.tob2(s)), "code": code}
        else:
            yield {"op": "t.par", "type": t, "via": r.choice(["qb64", "qb64b"]), "in": T(s), "code": code}

def numval(r):
    b = r.choice([r.randrange(1, 17), 2, 4, 8, 16]) * 8
    return r.choice([r.randrange(2 ** b), 2 ** b - 1, 2 ** (b - 1), max(0, 2 ** (b - 8) - 1), 2 ** (b - 8), r.randrange(300), 2 ** r.randrange(128)])

def numbers(r, n):
    yield {"op": "n.none"}
    yield {"op": "s.none"}
    for s in ["", "0", "00", " 1", "1 ", "-1", "g", "0x1", "1_0", "é", "１", "f" * 32, "f" * 33, "0" * 40 + "f", "1" + "0" * 32, "ＦＦ", "+", "+1", "-0", ".", "1.0", "1e3", "F", "aB"]:
        yield {"op": "n.numh", "in": T(s)}
        yield {"op": "s.snh", "in": T(s)}
    for c in ["M", "0H", "N", "0A", "", "A", "B", "E", "4A", "é", "MM", "0B", "R"]:
        for k in (0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32):
            yield {"op": "n.raw", "code": [T(c)], "raw": L(r.randbytes(k))}
            yield {"op": "s.raw", "code": [T(c)], "raw": L(r.randbytes(k))}
    for k in range(20):
        yield {"op": "n.raw", "code": [], "raw": L(r.randbytes(k))}
        yield {"op": "s.raw", "code": [], "raw": L(r.randbytes(k))}
    for _ in range(n):
        v = numval(r)
        m = r.randrange(6)
        if m == 0: yield {"op": "n.num", "num": N(v)}
        elif m == 1: yield {"op": "s.sn", "num": N(v)}
        elif m == 2:
            h = "%x" % v
            if r.random() < .3: h = h.upper()
            if r.random() < .3: h = "0" * r.randrange(1, 40) + h
            if r.random() < .2: h = codec.damage(r, h)
            yield {"op": r.choice(["n.numh", "s.snh"]), "in": T(h)}
        else:
            op = r.choice(["n.par", "s.par"])
            c = r.choice(["M", "0H", "N", "0A", "0A"]) if r.random() < .95 else None
            t = codec.matter(r, c)
            if r.random() < .3: t = codec.damage(r, t)
            if m == 3: yield {"op": op, "via": "qb2", "in": L(codec.tob2(t))}
            else: yield {"op": op, "via": r.choice(["qb64", "qb64b"]), "in": T(t)}

def stamp(r):
    y = r.choice([r.randrange(1, 10000), r.randrange(1900, 2100), 2000, 1900, 2024])
    p = r.random() < .85
    mo = r.randrange(1, 13) if p else r.randrange(0, 20)
    d = r.randrange(1, 29) if p and r.random() < .7 else r.randrange(0, 34)
    h = r.randrange(24) if p else r.randrange(0, 30)
    return "%04d-%02d-%02dT%02d:%02d:%02d.%06d%s%02d:%02d" % (y, mo, d, h, r.randrange(60), r.randrange(60), r.choice([0, 999999, r.randrange(10**6)]),
        r.choice("+-"), r.randrange(24) if p else r.randrange(26), r.randrange(60))

def brink(r):
    """a date-time with one or two fields at or just past the end of their range"""
    f = {"y": r.choice([1, 4, 1900, 2000, 2023, 2024, 9999]), "mo": r.randrange(1, 13), "d": r.randrange(1, 29), "h": r.randrange(24), "mi": r.randrange(60),
         "s": r.randrange(60), "us": r.randrange(10**6), "oh": r.randrange(24), "om": r.randrange(60)}
    edge = {"y": [0, 9999], "mo": [0, 1, 2, 12, 13, 99], "d": [0, 1, 28, 29, 30, 31, 32, 99], "h": [0, 23, 24, 25, 99], "mi": [0, 59, 60, 99],
            "s": [0, 59, 60, 61, 99], "us": [0, 999999], "oh": [0, 23, 24, 99], "om": [0, 59, 60, 99]}
    for k in r.sample(sorted(edge), r.choice([1, 1, 2])): f[k] = r.choice(edge[k])
    if r.random() < .3: f["s"] = 60
    if r.random() < .1: f["y"] = 0
    return "%(y)04d-%(mo)02d-%(d)02dT%(h)02d:%(mi)02d:%(s)02d.%(us)06d" % f + r.choice("+-") + "%(oh)02d:%(om)02d" % f

def dates(r, n):
    for _ in range(n // 3): yield {"op": "d.dts", "in": T(brink(r))}
    for s in ["", "2020-08-22T17:50:09.988921Z", "2020-08-22T17:50:09.9889210Z00:00", "2020-08-22T17:50:09+00:00", "2020-08-22t17:50:09.988921+01:00",
              "2020-08-22 17:50:09.988921+01:00", "2020c08c22T17:50:09.988921+01:00", "2020-08-22T17c50c09d988921p01c00", "A" * 32, "2020-08-22T17:50:09,988921+01:00",
              "+020-08-22T17:50:09.988921+01:00", "2020-08-22T17:50:09.98892\u0661+01:00", "2020-08-22T17:50:09.988921+01:00 ", " 2020-08-22T17:50:09.988921+01:00",
              "2020-08-22T17:50:09.988921+0100A", "2020-08-22T17:50:60.988921+01:00", "0000-08-22T17:50:09.988921+01:00", "2020-08-22T17:50:09.988921-00:00"]:
        yield {"op": "d.dts", "in": T(s)}
    for _ in range(n):
        s = stamp(r)
        m = r.randrange(4)
        if m == 0: yield {"op": "d.dts", "in": T(s)}
        elif m == 1: yield {"op": "d.dts", "in": T(codec.damage(r, s) if r.random() < .7 else s)}
        else:
            t = "1AAG" + s.replace(":", "c").replace(".", "d").replace("+", "p") if r.random() < .6 else codec.matter(r, "1AAG" if r.random() < .9 else None)
            if r.random() < .2: t = codec.damage(r, t)
            if m == 2: yield {"op": "d.par", "via": "qb2", "in": L(codec.tob2(t))}
            else: yield {"op": "d.par", "via": r.choice(["qb64", "qb64b"]), "in": T(t)}

def texts(r, n):
    for k in (16379, 16380, 16381, 16382, 16383, 16384, 16385, 16388):
        yield {"op": "b.bext", "in": T("B" + "".join(r.choice(B64) for _ in range(k - 1)))}
    for a in range(128):
        for l in (1, 2, 3, 4, 5):
            yield {"op": "b.bext", "in": T((chr(a) + "zyxw")[:l])}
    for _ in range(n):
        m = r.randrange(4)
        if m < 2:
            s = "".join(r.choice(B64) for _ in range(r.choice([r.randrange(12), r.randrange(200)])))
            if r.random() < .15: s = "A" * r.randrange(6) + s
            if r.random() < .15: s = codec.damage(r, s)
            yield {"op": "b.bext", "in": T(s)}
        else:
            t = codec.matter(r, r.choice(OWN["Bexter"]) if r.random() < .9 else None)
            if r.random() < .2: t = codec.damage(r, t)
            if m == 2: yield {"op": "b.par", "via": "qb2", "in": L(codec.tob2(t))}
            else: yield {"op": "b.par", "via": r.choice(["qb64", "qb64b"]), "in": T(t)}
