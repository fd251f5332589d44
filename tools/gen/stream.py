"""Streams of items."""
from .util import *
from . import codec
GROUP = {"-A":"i","-B":"i","-C":"mm","-E":"mm","-G":"mm","-D":"mmmi","-F":"mmmc","-H":"mc","-J":"mc","-K":"mc","-I":"mmm"}
def item(r, k):
    if k == "m": return codec.matter(r)
    if k == "i": return codec.indexer(r)
    c = r.choice(list(codec.CCODES))
    return c + codec.b64int(r.choice([0, 1, 2, 3, 64, r.randrange(64 ** codec.CCODES[c])]), codec.CCODES[c])
def grouped(r, depth=0):
    c = r.choice(list(GROUP) + ["-V", "-0V", "--AAA"])
    if c not in GROUP:
        return c + codec.b64int(r.randrange(100), codec.CCODES[c])
    n = r.choice([0, 1, 1, 2, 3])
    t = c + codec.b64int(n, 2)
    for _ in range(n):
        for g in GROUP[c]:
            if g == "m": t += codec.matter(r)
            elif g == "i": t += codec.indexer(r)
            elif depth < 2: t += grouped(r, depth + 1)
            else: t += "-AAA"
    return t
def walks(r, n):
    for _ in range(n):
        if r.random() < .6:
            kinds = [r.choice("mmic") for _ in range(r.choice([1, 2, 3, 5, 9]))]
            t = "".join(item(r, k) for k in kinds)
            if r.random() < .15: t += r.choice(["A", "=", "AAAA", "{", codec.matter(r)])
            op = {"op": "st.walk", "kinds": kinds}
        else:
            t = "".join(grouped(r) if r.random() < .7 else codec.matter(r) for _ in range(r.choice([1, 2, 3, 4])))
            op = {"op": "st.auto", "kinds": []}
        hurt = r.random() < .25
        if r.random() < .45:
            b = codec.tob2(t)
            yield {**op, "via": "qb2", "in": L(codec.damage_bin(r, b) if hurt else b)}
        else:
            yield {**op, "via": r.choice(["qb64", "qb64b"]), "in": T(codec.damage(r, t) if hurt else t)}
def sessions(r, n):
    for _ in range(n):
        yield {"op": "st.open", "new": True, "dom": r.choice(["text", "bin"])}
        live = 0
        for _ in range(r.randrange(3, 25)):
            x = r.random()
            if x < .5:
                k = r.choice("mmic")
                t = item(r, k)
                good = r.random() > .1
                if not good: t = codec.damage(r, t)
                yield {"op": "st.add", "kind": k, "text": T(t)}
                live += 1
            elif x < .8: yield {"op": "st.pop"}
            else: yield {"op": "st.conv"}
