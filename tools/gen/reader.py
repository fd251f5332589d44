"""What arrives in pieces: beginnings of material, wholes, things that are neither; readers."""
from .util import *
from . import codec, stream
KINDS = {"Verfer": ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"], "Signer": ["A", "J", "Q"], "Diger": ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"],
         "Saider": ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"], "Cigar": ["0B", "0C", "0I"], "Salter": ["0A"], "Seqner": ["0A"], "Number": ["M", "0H", "N", "0A"],
         "Dater": ["1AAG"], "Bexter": ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"], "Pather": ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"],
         "Prefixer": ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"], "Siger": ["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"]}

def one(r, kind):
    if kind == "m": return codec.matter(r)
    if kind == "i": return codec.indexer(r)
    if kind == "c": return codec.counter(r)
    if kind == "Siger": return codec.indexer(r, r.choice(KINDS[kind]))
    c = r.choice(KINDS[kind])
    if kind == "Dater": return "1AAG2020-08-22T17c50c09d988921p00c00"
    return codec.matter(r, c)
def anykind(r): return r.choice("mmmiic") if r.random() < .6 else r.choice(list(KINDS))
def via(r): return r.choice(["qb64", "qb64b", "qb2"])
def L_(v, t): return L(codec.tob2(t)) if v == "qb2" else T(t)

def looks(r, n):
    # every code, cut at every place near its front and at some behind
    for kind, cs in (("m", list(codec.FIX) + list(codec.VAR)), ("i", list(codec.ICODES)), ("c", list(codec.CCODES))):
        for c in cs:
            t = {"m": codec.matter, "i": codec.indexer, "c": codec.counter}[kind](r, c)
            b = codec.tob2(t)
            for k in sorted(set(list(range(0, min(12, len(t)))) + [len(t) - 4, len(t) - 1, len(t)])):
                if 0 <= k <= len(t):
                    yield {"op": "rd.look", "kind": kind, "via": r.choice(["qb64", "qb64b"]), "in": T(t[:k])}
            for k in sorted(set(list(range(0, min(9, len(b)))) + [len(b) - 3, len(b) - 1, len(b)])):
                if 0 <= k <= len(b): yield {"op": "rd.look", "kind": kind, "via": "qb2", "in": L(b[:k])}
    for kind in KINDS:
        for v in ("qb64", "qb64b", "qb2"):
            for _ in range(4):
                x = L_(v, one(r, kind))
                for k in (0, 1, 2, 3, len(x) - 1, len(x), r.randrange(len(x))): yield {"op": "rd.look", "kind": kind, "via": v, "in": x[:k]}
    # variable length material that states less than its lead bytes take
    for c in codec.VAR:
        for k in (0, 1, 2):
            t = c + codec.b64int(k, 2 if len(c) == 2 else 4) + "A" * (4 * k)
            for w in (t, t + "AAAA", t[:-1]):
                for v in ("qb64", "qb64b"): yield {"op": "rd.look", "kind": "m", "via": v, "in": T(w)}
                yield {"op": "rd.look", "kind": "m", "via": "qb2", "in": L(codec.tob2(w))}
    for _ in range(n):
        kind = anykind(r)
        v = via(r)
        t = one(r, kind if r.random() < .93 else anykind(r))
        x = r.random()
        if x < .3: y = L_(v, t); y = y[:r.randrange(len(y) + 1)]
        elif x < .45: y = L_(v, t + one(r, anykind(r))); y = y[:r.randrange(len(y) + 1)]
        elif x < .7:
            y = L_(v, t)
            d = codec.damage_bin(r, bytes(y)) if v == "qb2" else codec.damage(r, t).encode()
            y = L(d)
            if r.random() < .6: y = y[:r.randrange(len(y) + 1)]
        elif x < .85:
            # wrong, and cut at the end of what it states or just before
            y = L_(v, t)
            k = r.randrange(min(len(y), 8))
            y[k] = r.choice(B64).encode()[0] if v != "qb2" else y[k] ^ (1 << r.randrange(8))
            y = y[:len(y) - r.choice([0, 0, 1, 2, 3, 4, r.randrange(len(y))])]
        else: y = L_(v, t) + L_(v, one(r, anykind(r)))[:r.randrange(6)]
        if v == "qb64" and not bytes(y).isascii():
            try: bytes(y).decode()
            except UnicodeDecodeError: v = "qb64b"
        yield {"op": "rd.look", "kind": kind, "via": v, "in": y}

def pieces(r, x):
    m = r.random()
    if m < .15: return [x[i:i + 1] for i in range(len(x))]
    out = []
    while x:
        k = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 24, 43, 44, 45, 87, 88, 89, 200]) if m < .8 else r.randrange(1, 30)
        out.append(x[:k]); x = x[k:]
    return out
def readers(r, n):
    for _ in range(n):
        auto = r.random() < .4
        if auto:
            kinds = []
            t = "".join(stream.grouped(r) if r.random() < .7 else codec.matter(r) for _ in range(r.choice([1, 2, 3])))
        else:
            kinds = [anykind(r) for _ in range(r.choice([1, 2, 3, 5]))]
            t = "".join(one(r, k) for k in kinds)
        if len(t) > 1500: continue
        v = via(r)
        yield {"op": "rd.open", "new": True, "via": v, "auto": auto, "kinds": kinds}
        x = bytes(L_(v, t))
        if r.random() < .3:
            if v == "qb2": x = codec.damage_bin(r, x)
            else: x = codec.damage(r, t).encode()
            # a text in which a character is cut in two cannot be given as text
            if v == "qb64" and not x.isascii(): continue
        for p in pieces(r, x): yield {"op": "rd.feed", "in": L(p)}
