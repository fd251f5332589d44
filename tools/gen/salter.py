"""Scripts over salts and the keys stretched from them."""
from .util import *
from . import codec, docs
TIERS = ["min", "low", "med", "high"]
PATHS = ["", "0", "1", "a", "f", "10", "1f", "01", "signify:controller00", "é", "\0", "path/with/slashes", "x" * 64, "x" * 65, "x" * 127, "x" * 128, "x" * 129, "y" * 300, "A", " "]
def path(r): return r.choice(PATHS) if r.random() < .7 else "".join(r.choice(docs.CH) for _ in range(r.randrange(12)))
def opt(r, v, p=.3): return [] if r.random() < p else [v]
def common(r, tier="min"):
    """arguments that end up at that tier"""
    m = r.randrange(4)
    if tier == "min" and m < 2: return {"own": opt(r, T(r.choice(TIERS + ["", "x"]))), "at": opt(r, T(r.choice(TIERS + ["none"]))), "temp": [True]}
    if tier == "low" and m == 2: return {"own": [], "at": [], "temp": opt(r, False)}
    if m == 3: return {"own": [T(tier)], "at": [], "temp": opt(r, False)}
    return {"own": opt(r, T(r.choice(TIERS + ["x"]))), "at": [T(tier)], "temp": opt(r, False)}
def code(r): return [] if r.random() < .3 else [T(r.choice(["A", "A", "J", "Q"]))] if r.random() < .93 else [T(r.choice(["E", "0A", "B", "", "4A", "zz", "é", "D", "0B"]))]
def tr(r): return [] if r.random() < .4 else [r.random() < .5]
STARTS = [0, 1, 9, 10, 15, 16, 17, 255, 256, 4095, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
def ask(r, pre, tier="min", most=5):
    c = common(r, tier)
    x = r.random()
    if x < .3: return {"op": pre + "stretch", "size": [] if r.random() < .5 else [N(r.choice([0, 1, 2, 3, 4, 5, 16, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 300, 1024]))], "path": opt(r, T(path(r))), **c}
    if x < .65: return {"op": pre + "signer", "path": opt(r, T(path(r))), "code": code(r), "tr": tr(r), **c}
    return {"op": pre + "signers", "path": opt(r, T(path(r))), "code": code(r), "tr": tr(r), "start": opt(r, N(r.choice(STARTS)) if r.random() < .6 else N(r.randrange(40))), "count": opt(r, N(r.randrange(most)), .15), **c}
def salts(r): return r.choice([bytes(16), b"\xff" * 16, b"0123456789abcdef"]) if r.random() < .3 else r.randbytes(16)

def asks(r, n):
    # a tier asked for by a name that is none
    for t in ["", " ", "low ", "LOW", "Low", "none", "l", "lowest", "0", "hi", "é", "low\0"]:
        for own in ([], [T("min")], [T("low")], [T("x")]):
            for temp in ([], [False], [True]):
                a = {"salt": L(bytes(16)), "path": [T("p")], "own": own, "at": [T(t)], "temp": temp}
                yield {"op": "sl.stretch", "size": [N(16)], **a}
                if own != [T("x")]: yield {"op": "sl.signer", "code": [], "tr": [], **a}
    for t in TIERS + ["", "min", "LOW", "é"]:
        for via in ("none", "raw"): yield {"op": "sl.make", "via": via, "in": L(b"0123456789abcdef"), "code": [], "own": [T(t)]}
        if t not in ("low", "med", "high"):
            yield {"op": "sl.stretch", "salt": L(bytes(16)), "size": [], "path": [], "own": [T(t)], "at": [], "temp": []}
            yield {"op": "sl.signers", "salt": L(bytes(16)), "path": [], "code": [], "tr": [], "start": [], "count": [N(0)], "own": [T(t)], "at": [], "temp": []}
    for via in ("none", "raw"):
        for c in list(codec.FIX) + ["4A", "", "é"]: yield {"op": "sl.make", "via": via, "in": L(bytes(40)), "code": [T(c)], "own": []}
    for k in range(0, 20): yield {"op": "sl.make", "via": "raw", "in": L(bytes(range(k))), "code": [], "own": []}
    for _ in range(n):
        if r.random() < .2:
            t = codec.matter(r, "0A") if r.random() < .8 else codec.matter(r)
            if r.random() < .1: t = codec.damage(r, t)
            via = r.choice(["qb64", "qb64b", "qb2", "raw"])
            i = L(codec.tob2(t)) if via == "qb2" else L(salts(r)) if via == "raw" else T(t)
            yield {"op": "sl.make", "via": via, "in": i, "code": [], "own": opt(r, T(r.choice(TIERS)))}
        else: yield {"salt": L(salts(r)), **ask(r, "sl.")}

def near(r, a):
    """a request that differs from an earlier one in one argument, or only in where its arguments part"""
    b = dict(a)
    path = bytes(b["path"][0]).decode() if b["path"] else ""
    x = r.random()
    if b["op"].endswith("stretch") and x < .6:
        size = str(int.from_bytes(bytes(b["size"][0]), "big")) if b["size"] else "32"
        if path and path[-1] in "123456789" and r.random() < .5: path, size = path[:-1], path[-1] + size
        elif len(size) > 1 and int(size[1:]) > 3 and size[1] != "0": path, size = path + size[0], size[1:]
        else: size = r.choice(["16", "28", "128"])
        return {**b, "path": [T(path)], "size": [N(int(size) % 4096)]}
    k = r.choice([k for k in ("path", "code", "tr") if k in b])
    b[k] = [T(path + r.choice("01a"))] if k == "path" else [T(r.choice(["A", "J", "Q"]))] if k == "code" else [r.random() < .5]
    return b

def sessions(r, n):
    """one salter asked many things, some more than once"""
    for _ in range(n):
        yield {"op": "so.open", "new": True, "salt": L(salts(r)), "own": opt(r, T(r.choice(TIERS)))}
        said = []
        for _ in range(r.randrange(2, 8)):
            a = ask(r, "so.", "min", 4)
            # the salter's own tier is decided at the opening
            a.pop("own")
            if a["temp"] != [True]: a["at"] = [T("min")]
            said.append(a)
            yield a
            if r.random() < .4: yield r.choice(said)
            if r.random() < .4:
                said.append(near(r, r.choice(said)))
                yield said[-1]

def costly(r, n):
    """the tiers meant to last: one call each is enough to tell their costs"""
    s = lambda: {"salt": L(r.randbytes(16))}
    for t, k in (("low", n), ("med", max(2, n // 6)), ("high", 1)):
        for i in range(k):
            a = ask(r, "sl.", t, 2)
            if t == "high" or i == 0: a = {"op": "sl.stretch", "size": [], "path": [T("p")], "own": [], "at": [T(t)], "temp": []}
            if t == "low" and i == 1: a = {"op": "sl.signer", "path": [T("p")], "code": [], "tr": [], "own": [], "at": [], "temp": []}
            yield {**s(), **a}
