"""Scripts over qualified material."""
from .util import *

# generator's own knowledge of the tables (only to aim the inputs; the specification decides)
FIX = {"A":44,"B":44,"C":44,"D":44,"E":44,"F":44,"G":44,"H":44,"I":44,"J":44,"O":44,"Q":44,"K":76,"L":76,"M":4,"N":12,"P":124,
       "0A":24,"0B":88,"0C":88,"0D":88,"0E":88,"0F":88,"0G":88,"0I":88,"0H":8,"1AAA":48,"1AAB":48,"1AAI":48,"1AAJ":48,
       "1AAC":80,"1AAD":80,"1AAE":56,"1AAF":8,"1AAG":36,"1AAH":100,"2AAA":8,"3AAA":8}
LS = {"2AAA":1,"3AAA":2}
VAR = {"4A":0,"5A":1,"6A":2,"4B":0,"5B":1,"6B":2,"7AAA":0,"8AAA":1,"9AAA":2,"7AAB":0,"8AAB":1,"9AAB":2}
ICODES = {"A":(1,0,88),"B":(1,0,88),"C":(1,0,88),"D":(1,0,88),"E":(1,0,88),"F":(1,0,88),"0A":(2,1,156),"0B":(2,1,156),
          "2A":(4,2,92),"2B":(4,2,92),"2C":(4,2,92),"2D":(4,2,92),"2E":(4,2,92),"2F":(4,2,92),"3A":(6,3,160),"3B":(6,3,160)}
CCODES = {**{c:2 for c in ["-A","-B","-C","-D","-E","-F","-G","-H","-I","-J","-K","-L","-V"]}, "-0V":5, "--AAA":3}

def rawsize(c):
    hs = len(c)
    return (FIX[c] - hs) * 3 // 4 - LS.get(c, 0)

def layout(front, ls, raw):
    """front characters, zero pad, lead bytes, raw -> text"""
    pad = len(front) % 4
    body = b64(bytes(pad) + bytes(ls) + raw)
    assert "=" not in body
    return front + body[pad:]

def matter(r, code=None, n=None):
    c = code or r.choice(list(FIX) + list(VAR) * 2)
    if c in FIX:
        return layout(c, LS.get(c, 0), rb(r, rawsize(c)))
    ls = VAR[c]
    if n is None:
        n = r.choice([0, 1, 2, 3, 5, 63, 64, 65]) if r.random() < .5 else r.randrange(1, 30)
    raw = rb(r, max(0, 3 * n - ls))
    if 3 * n < ls: ls = 3 * n
    return layout(c + b64int(n, 2 if len(c) == 2 else 4), ls, raw)

def fixtext(code, raw):
    return layout(code, LS.get(code, 0), raw)
def vartext(kind, raw):
    """variable length material of kind A or B in its smallest code"""
    ls = (3 - len(raw) % 3) % 3
    n = (len(raw) + ls) // 3
    return layout("456"[ls] + kind + b64int(n, 2) if n < 4096 else "789"[ls] + "AA" + kind + b64int(n, 4), ls, raw)

def indexer(r, code=None):
    c = code or r.choice(list(ICODES))
    ss, os, fs = ICODES[c]
    ms = ss - os
    cur = c[-1] in "BDF" if len(c) == 1 or c[0] in "2" else c in ("0B", "3B")
    i = r.choice([0, 1, 2, 63, 64 ** ms - 1, r.randrange(64 ** ms)])
    o = 0 if cur else r.choice([0, i, r.randrange(64 ** os) if os else 0])
    front = c + b64int(i, ms) + (b64int(o, os) if os else "")
    return layout(front, 0, rb(r, (fs - len(c) - ss) * 3 // 4))

def counter(r, code=None):
    c = code or r.choice(list(CCODES))
    return c + b64int(r.randrange(64 ** CCODES[c]), CCODES[c])

def damage(r, t):
    """text with something wrong, or at least different"""
    m = r.randrange(9)
    i = r.randrange(len(t) + 1)
    if m == 0: return t[:i]
    if m == 1: return t[:i] + r.choice(STRANGE) + t[i+1:]
    if m == 2: return t[:i] + r.choice(STRANGE) + t[i:]
    if m == 3: return t[:i] + r.choice(B64) + t[i+1:]
    if m == 4: return t[:i] + t[i+1:]
    if m == 5: return t + r.choice(STRANGE + [matter(r)])
    if m == 6:
        k = min(len(t), r.choice([1, 2, 3, 4, 5]))       # damage near the front
        j = r.randrange(k) if k else 0
        return t[:j] + r.choice(B64) + t[j+1:]
    if m == 7: return r.choice(STRANGE) + t
    return "".join(r.choice(B64) for _ in range(r.choice([1, 2, 3, 4, 5, 8, 44, 88, 100, 130])))

def damage_bin(r, b):
    m = r.randrange(7)
    i = r.randrange(len(b) + 1)
    if m == 0: return b[:i]
    if m == 1 and i < len(b): return b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i+1:]
    if m == 2: return b[:i] + r.randbytes(1) + b[i:]
    if m == 3: return b + r.randbytes(r.randrange(5))
    if m == 4: return r.randbytes(r.choice([1, 2, 3, 4, 33, 66, 69, 100]))
    j = min(r.randrange(6), max(0, len(b) - 1))
    return b[:j] + r.randbytes(1) + b[j+1:]

def tob2(t):
    t = t[:len(t) - len(t) % 4]
    try:
        return unb64(t)
    except Exception:
        return t.encode()

def parse_ops(op, r, t):
    """one text offered on every route"""
    yield {"op": op, "via": "qb64", "in": T(t)}
    yield {"op": op, "via": "qb64b", "in": T(t)}

def notutf8(r, b):
    i = r.randrange(len(b) + 1)
    return b[:i] + r.choice([b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\xaf"]) + b[i:]

def around(r, op, make, n):
    for _ in range(n // 3):
        t = make(r)
        if r.random() < .8:
            t = damage(r, t)
        yield {"op": op, "via": "qb64", "in": T(t)}
        b = t.encode()
        if r.random() < .2:
            b = notutf8(r, b)
        yield {"op": op, "via": "qb64b", "in": L(b)}
        t2 = make(r)
        b = tob2(t2)
        if r.random() < .8:
            b = damage_bin(r, b)
        yield {"op": op, "via": "qb2", "in": L(b)}

def fronts(r):
    """every one and two character front followed by enough material"""
    tail = "A" * 130
    tail2 = "".join(r.choice(B64) for _ in range(130))
    for a in B64:
        for t in (tail, tail2):
            yield a + t
        for b in B64:
            yield a + b + tail
        for c in r.sample(B64, 6):
            yield a + "AA" + c + tail
            yield a + "A" + c + "A" + tail

def matter_text(r, n):
    for t in fronts(r):
        yield {"op": "m.par", "via": "qb64", "in": T(t)}
        yield {"op": "m.par", "via": "qb2", "in": L(unb64(t + "A" * (-len(t) % 4)))}
    for a in range(256):
        yield {"op": "m.par", "via": "qb2", "in": [a]}
        yield {"op": "m.par", "via": "qb2", "in": [a] + [0] * 120}
        yield {"op": "m.par", "via": "qb64b", "in": [a]}
    yield from around(r, "m.par", matter, n)

def bigs():
    return [12284, 12285, 12286, 12287, 12288, 12289, 12290]

def matter_raw(r, n):
    for c in list(VAR):
        for k in bigs():
            yield {"op": "m.raw", "code": T(c), "raw": L(rb(r, k))}
    # more than sixteen bits of quadlets
    for k in (196605, 196607, 196609): yield {"op": "m.raw", "code": T(r.choice(["4A", "4B"])), "raw": L(r.randbytes(k))}
    for c in ["", "4", "4C", "7AAC", "-A", "0J", "a", "é", "AA", "A ", "4AAA", "7AAAA", "1AAK", "AAAA", "7BBA", "4€"]:
        for k in (0, 1, 2, 3, 32, 64):
            yield {"op": "m.raw", "code": T(c), "raw": L(rb(r, k))}
    for _ in range(n):
        c = r.choice(list(FIX) + list(VAR) * 2)
        k = rawsize(c) + r.choice([0, 0, 0, 0, -1, 1, 7]) if c in FIX else r.choice([r.randrange(12), r.randrange(300)])
        yield {"op": "m.raw", "code": T(c), "raw": L(rb(r, max(0, k)))}

def matter_life(r, n):
    yield {"op": "m.par", "via": "qb64", "in": T(matter(r, r.choice(["7AAA", "8AAA", "9AAB"]), 65537))}
    yield {"op": "m.par", "via": "qb2", "in": L(unb64(matter(r, r.choice(["7AAB", "8AAB", "9AAA"]), 65536)))}
    for c, ks in (("4A", (4095, 4094)), ("4B", (4095,)), ("6A", (4095,)), ("7AAA", (4096, 4095, 70)), ("8AAB", (4096,)), ("9AAA", (4097,))):
        for k in ks:
            t = matter(r, c, k)
            yield {"op": "m.par", "via": "qb64", "in": T(t)}
            yield {"op": "m.par", "via": "qb2", "in": L(unb64(t))}
    for _ in range(n // 3):
        t = matter(r)
        yield {"op": "m.par", "via": "qb64", "in": T(t)}
        yield {"op": "m.par", "via": "qb64b", "in": T(t + r.choice(["", "", "A", matter(r), "{\"v\":1}"]))}
        yield {"op": "m.par", "via": "qb2", "in": L(unb64(t) + r.choice([b"", b"", b"\0", r.randbytes(5)]))}

def refills(r, n, which="m"):
    """one primitive filled with one thing after another"""
    def fill():
        t = matter(r) if which == "m" else indexer(r)
        x = r.random()
        if x < .55:
            if r.random() < .2: t = damage(r, t)
            return {"op": which + "h.fill", "via": "qb64", "in": T(t + (r.choice(["", "A", matter(r)]) if r.random() < .2 else ""))}
        b = tob2(t)
        if r.random() < .2: b = damage_bin(r, b)
        return {"op": which + "h.fill", "via": "qb2", "in": L(b + (r.randbytes(3) if r.random() < .2 else b""))}
    def put():
        if which == "i":
            c = r.choice(list(ICODES))
            ss, os, fs = ICODES[c]
            i = r.randrange(64 ** (ss - os))
            return {"op": "ih.set", "code": T(c), "raw": L(rb(r, (fs - len(c) - ss) * 3 // 4)), "index": N(i), "ondex": N(r.choice([i, i, 0, r.randrange(64)]))}
        if r.random() < .5:
            c = r.choice(list(FIX))
            return {"op": "mh.set", "code": T(c), "raw": L(rb(r, rawsize(c))), "size": N(0)}
        raw = r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 6, 30, 31, 32]))
        ls = (3 - len(raw) % 3) % 3
        return {"op": "mh.set", "code": T(r.choice([["4A", "4B"], ["5A", "5B"], ["6A", "6B"]][ls])), "raw": L(raw), "size": N((len(raw) + ls) // 3)}
    for _ in range(n):
        yield {"op": "mh.open", "new": True}
        for _ in range(r.randrange(3, 9)):
            yield fill() if r.random() < .8 else put()
def irefills(r, n): yield from refills(r, n, "i")

def matter_any(r, n):
    for _ in range(n):
        c = r.choice(list(FIX) + list(VAR))
        t = [matter(r) for _ in range(3)]
        if r.random() < .2: t[r.randrange(3)] = damage(r, r.choice(t))
        k = rawsize(c) if c in FIX else r.randrange(20)
        yield {"op": "m.any", "code": O(T(c)) if r.random() < .6 else [], "raw": O(L(rb(r, k))) if r.random() < .3 else [],
               "qb64b": O(T(t[0])) if r.random() < .4 else [], "qb64": O(T(t[1])) if r.random() < .4 else [],
               "qb2": O(L(tob2(t[2]))) if r.random() < .5 else []}

def indexer_raw(r, n):
    codes = list(ICODES)
    for _ in range(n):
        c = r.choice(codes) if r.random() < .98 else r.choice(["", "a", "0", "5A", "G", "2G", "3C", "é", "AA", "1A", "-A"])
        ss, os, fs = ICODES.get(c, (1, 0, 88))
        ms = ss - os
        i = r.choice([0, 1, 5, 62, 63, 64, 65, 4094, 4095, 4096, 64 ** ms - 1, 64 ** ms, 262143, 262144, 2 ** 31 - 1, r.randrange(64 ** ms)])
        o = r.choice([None, i, i, 0, 1, i + 1, 63, 64, 4095, 4096, r.randrange(64 ** max(os, 1)), 2 ** 31 - 1])
        if o is not None: o = min(o, 2 ** 31 - 1)
        k = (fs - len(c) - ss) * 3 // 4 + r.choice([0, 0, 0, 0, -1, 1, 5])
        yield {"op": "i.raw", "code": T(c), "raw": L(rb(r, max(0, k))), "index": N(i), "ondex": [] if o is None else [N(o)]}

def indexer_text(r, n):
    for t in fronts(r):
        if t[2] != "A" or t[3] != "A" or r.random() < .3:
            yield {"op": "i.par", "via": "qb64", "in": T(t + "A" * 40)}
            yield {"op": "i.par", "via": "qb2", "in": L(unb64(t + "A" * (40 + (-len(t) % 4))))}
    for a in range(256):
        yield {"op": "i.par", "via": "qb2", "in": [a]}
        yield {"op": "i.par", "via": "qb64b", "in": [a]}
    yield from around(r, "i.par", indexer, n)

def counter_text(r, n):
    for a in B64:
        for b in B64:
            yield {"op": "c.par", "via": "qb64", "in": T(a + b + "AAAAAAAA")}
            if a == "-":
                yield {"op": "c.par", "via": "qb64", "in": T(a + b)}
                for c in B64:
                    yield {"op": "c.par", "via": "qb2", "in": L(unb64(a + b + c + "AAAAA"))}
        yield {"op": "c.par", "via": "qb64", "in": T(a)}
    for a in range(256):
        yield {"op": "c.par", "via": "qb2", "in": [a]}
        yield {"op": "c.par", "via": "qb2", "in": [0xf8, a]}
        yield {"op": "c.par", "via": "qb2", "in": [0xf8, a, 1, 2, 3, 4]}
        yield {"op": "c.par", "via": "qb64b", "in": [45, a, 65, 65, 65, 65]}
    yield from around(r, "c.par", counter, n)

def counter_new(r, n):
    codes = list(CCODES)
    for c in codes:
        m = 64 ** CCODES[c]
        for v in (0, 1, 63, 64, m - 1, m, m + 1, 2 ** 31 - 1, 4294967295):
            yield {"op": "c.new", "code": T(c), "count": N(v)}
    # every count of two digits
    for v in range(4096): yield {"op": "c.new", "code": T(r.choice(codes)), "count": N(v)}
    for _ in range(n):
        c = r.choice(codes) if r.random() < .95 else r.choice(["", "-", "-M", "-a", "--", "--AAB", "-0", "-0W", "é", "-é", "A", "-AA"])
        m = 64 ** CCODES.get(c, 2)
        v = r.choice([r.randrange(m), r.randrange(70), m - 1, m])
        x = r.randrange(5)
        if x == 4:
            e = {"op": "c.any", "count": [], "b64": [], "code": [], "qb64b": [], "qb64": [], "qb2": []}
            if r.random() < .6: e["code"] = [T(c)]
            if r.random() < .4: e["count"] = [N(v)]
            if r.random() < .6:
                d = "A" * r.choice([0, 0, 0, 1, 5, 9]) + b64int(v, CCODES.get(c, 2)) if r.random() < .6 else b64int(r.getrandbits(r.randrange(1, 70)), r.randrange(12))
                e["b64"] = [T(damage(r, d) if r.random() < .15 else d)]
            for k in r.sample(["qb64b", "qb64", "qb2"], r.choice([0, 1, 1, 2, 3])):
                t = counter(r)
                if r.random() < .15: t = damage(r, t)
                e[k] = [L(tob2(t)) if k == "qb2" else T(t)]
            yield e
        elif x < 2:
            yield {"op": "c.new", "code": T(c), "count": N(v)}
        elif x == 2:
            l = r.choice([1, 2, 3, 4, 5])
            yield {"op": "c.b64new", "code": T(c), "b64": O(T(b64int(v % 64 ** l, l))) if r.random() < .9 else []}
        else:
            v = min(v, m - 1)
            l = max(CCODES.get(c, 2), r.choice([2, 3, 4, 5]))
            yield {"op": "c.b64", "code": T(c), "count": N(v), "len": l}

def semver(r, n):
    for a in range(64):
        yield {"op": "v.str", "in": T(f"{a}.{63-a}.{(a*7)%64}")}
    for a in range(256):
        for p in ([a, 0, 0], [0, a, 1], [2, 3, a], [63, 63, a], [a, a, a]):
            yield {"op": "v.parts", "in": p}
    for _ in range(n):
        if r.random() < .4:
            yield {"op": "v.parts", "in": [r.choice([r.randrange(64), r.randrange(256)]) for _ in range(3)]}
        else:
            ps = [r.choice(["", "0", "63", "64", str(r.randrange(64)), str(r.randrange(64)), str(r.randrange(64)), "00", "007", "0063", "256", "4294967296", "18446744073709551616",
                            "a", " 1", "1 ", "-1", "1e1", "é", "0x1", "１"]) for _ in range(r.choice([1, 2, 3, 3, 3, 3, 4, 5]))]
            yield {"op": "v.str", "in": T(".".join(ps))}
