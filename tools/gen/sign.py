"""Digests and signatures."""
from .util import *
from . import codec
DIGS = ["E","F","G","H","I","0D","0E","0F","0G"]
LENS = list(range(0, 20)) + [31,32,33,47,48,55,56,63,64,65,71,72,73,103,104,111,112,119,127,128,129,135,136,137,143,144,145,191,192,193,255,256,257,271,272,273,511,512,513,1023,1024,1025,1087,1088,2047,2048,2049,3071,3073,4095,4096,4097]
BLAKE3 = [5120, 6143, 7169, 8192, 8193]
def msg(r, k):
    m = r.randrange(4)
    if m == 0: return bytes(k)
    if m == 1: return b"\xff" * k
    return r.randbytes(k)
def hashes(r, n):
    for c in DIGS:
        for k in LENS + (BLAKE3 if c in ("E", "0D") else []):
            yield {"op": "h.ser", "code": [T(c)], "ser": L(msg(r, k))}
        # and past every buffer
        for k in (8193, 65535, 65536, 65537, 70001): yield {"op": "h.ser", "code": [T(c)], "ser": L(r.randbytes(k))}
    for k in (0, 1, 64, 100):
        yield {"op": "h.ser", "code": [], "ser": L(msg(r, k))}
    for c in list(codec.FIX) + list(codec.VAR) + ["", "e", "0", "EE", "é", "0d"]:
        yield {"op": "h.ser", "code": [T(c)], "ser": L(b"abc")}
    for _ in range(n):
        x = r.random()
        if x < .5:
            yield {"op": "h.ser", "code": [T(r.choice(DIGS))], "ser": L(msg(r, r.randrange(400)))}
        else:
            yield {"op": "h.any", "ser": O(L(msg(r, r.randrange(40)))) if r.random() < .6 else [], "code": O(T(r.choice(DIGS if r.random() < .8 else list(codec.FIX)))) if r.random() < .6 else [],
                   "raw": O(L(rb(r, r.choice([31, 32, 33, 63, 64, 65])))) if r.random() < .3 else [],
                   "qb64b": O(T(anydig(r))) if r.random() < .2 else [], "qb64": O(T(anydig(r))) if r.random() < .2 else [], "qb2": O(L(codec.tob2(anydig(r)))) if r.random() < .2 else []}
def anydig(r):
    t = codec.matter(r, r.choice(DIGS) if r.random() < .8 else None)
    return codec.damage(r, t) if r.random() < .15 else t

import hashlib
def realdig(code, m):
    """digests this interpreter can compute (aims the comparisons; the specification decides)"""
    h = {"F": lambda: hashlib.blake2b(m, digest_size=32).digest(), "G": lambda: hashlib.blake2s(m).digest(), "H": lambda: hashlib.sha3_256(m).digest(),
         "I": lambda: hashlib.sha256(m).digest(), "0E": lambda: hashlib.blake2b(m).digest(), "0F": lambda: hashlib.sha3_512(m).digest(), "0G": lambda: hashlib.sha512(m).digest()}[code]()
    return codec.layout(code, 0, h)
def compares(r, n):
    cs = ["F", "G", "H", "I", "0E", "0F", "0G"]
    for c in cs:
        # long messages that differ in their last byte, or in length
        for k in (4097, 16385, 65537):
            m = r.randbytes(k)
            for w in (m, m[:-1] + bytes([m[-1] ^ 1]), m[:-1], m + b"\0"): yield {"op": "h.ver", "dig": T(realdig(c, m)), "ser": L(w)}
        yield {"op": "h.cmp", "a": T(realdig(c, m)), "b": T(realdig(r.choice(cs), m[:-1])), "ser": L(m), "form": r.choice(["dig", "diger"])}
        yield {"op": "h.cmp", "a": T(realdig(c, m)), "b": T(realdig(r.choice(cs), m)), "ser": L(m), "form": r.choice(["dig", "diger"])}
    for _ in range(n):
        m = msg(r, r.choice([0, 1, 3, 20, 64, 130]))
        o = m + b"x" if r.random() < .5 else m[:-1] if m else b"y"
        a = realdig(r.choice(cs), m if r.random() < .75 else o)
        b = realdig(r.choice(cs), m if r.random() < .75 else o)
        if r.random() < .15: b = a
        if r.random() < .2:
            # one bit of a digest of this very message
            c = r.choice(cs)
            x = bytearray(codec.unb64("A" * (len(c) % 4) + realdig(c, m)[len(c):])[len(c) % 4:])
            x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            t = codec.layout(c, 0, bytes(x))
            yield {"op": "h.ver", "dig": T(t), "ser": L(m)}
            if r.random() < .5: b = t
            else: a = t
        if r.random() < .2:
            b = b[:-r.randrange(2, 5)]
            b += "".join(r.choice(B64) for _ in range(-len(b) % 4))
        if r.random() < .05: b = codec.matter(r)
        if r.random() < .03: b = codec.damage(r, b)
        if len(b) > 88: b = b[:88]
        # what follows the digest in the given bytes
        if r.random() < .04: b = (a if r.random() < .7 else b) + r.choice(["A", "AAAA", "=", "\0", a, "é"])
        if r.random() < .3: yield {"op": "h.ver", "dig": T(a), "ser": L(m)}
        yield {"op": "h.cmp", "a": T(a), "b": T(b), "ser": L(m), "form": r.choice(["dig", "diger"])}

SEED = ["A", "J", "Q"]
ORDER = {"J": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, "Q": 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551}
def seed(r, c):
    x = r.random()
    if x < .85: return r.randbytes(32)
    if x < .9: return bytes(31) + bytes([r.choice([1, 2, 255])])
    if c in ORDER:
        v = r.choice([0, ORDER[c] - 1, ORDER[c], ORDER[c] + 1, 2 ** 256 - 1])
        return v.to_bytes(32, "big")
    return r.choice([bytes(32), b"\xff" * 32])
def pub_of_other(r, pool):
    return r.choice(pool)
def signers(r, n):
    for c in SEED:
        for tr in ([], [True], [False]):
            yield {"op": "g.gen", "code": [T(c)], "tr": tr}
    for tr in ([], [True], [False]):
        yield {"op": "g.gen", "code": [], "tr": tr}
    for c in list(codec.FIX) + ["4A", "", "é", "a"]:
        yield {"op": "g.gen", "code": [T(c)], "tr": []}
    for _ in range(n):
        c = r.choice(SEED)
        s = seed(r, c)
        tr = r.choice([[], [True], [False]])
        via = r.choice(["raw", "qb64", "qb64b", "qb2"])
        t = codec.layout(c, 0, s)
        if r.random() < .05: t = codec.damage(r, t)
        if via == "raw":
            yield {"op": "g.new", "via": "raw", "code": T(c), "seed": L(s if r.random() < .9 else s[:r.randrange(33)]), "tr": tr}
        else:
            yield {"op": "g.new", "via": via, "in": L(codec.tob2(t)) if via == "qb2" else T(t), "tr": tr}
# public keys of other signers, of every suite (made with an independent implementation)
KEYS = ["DFs8BBx86uytIM0D2BhsE5rrqVIT8ef8mflpNceHo4XH", "BFs8BBx86uytIM0D2BhsE5rrqVIT8ef8mflpNceHo4XH",
        "1AABAg299p5IMvuw71HW_TlbzGq5cVOQ7bRbeDuhheF-DPYk", "1AAAAg299p5IMvuw71HW_TlbzGq5cVOQ7bRbeDuhheF-DPYk",
        "1AAJA3cK_P2CDlh-_EMFPvyqTPI1POkw-dr14DANx5JEXDCZ", "1AAIA3cK_P2CDlh-_EMFPvyqTPI1POkw-dr14DANx5JEXDCZ",
        "1AAJAg299p5IMvuw71HW_TlbzGq5cVOQ7bRbeDuhheF-DPYk", "1AABA3cK_P2CDlh-_EMFPvyqTPI1POkw-dr14DANx5JEXDCZ",
        "DAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "1AAJAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"]
L25519 = 2 ** 252 + 27742317777372353535851937790883648493
def mirrored(r, c):
    o = ORDER[c].to_bytes(32, "big") if c in ORDER else L25519.to_bytes(32, "little")
    return {"op": "g.chk", "code": T(c), "seed": L(r.randbytes(32)), "tr": r.random() < .5, "msg": L(r.randbytes(r.randrange(40))), "what": "mirror", "order": L(o), "add": c == "A", "at": [0, 0], "indexed": r.random() < .5}
def signatures(r, n):
    for c in SEED:
        for k in [0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000, 4000]:
            m = msg(r, k)
            s = L(r.randbytes(32))
            yield {"op": "g.sign", "code": T(c), "seed": s, "tr": True, "msg": L(m)}
            yield {"op": "g.chk", "code": T(c), "seed": s, "tr": False, "msg": L(m), "what": "none", "indexed": k % 2 == 0}
        for k in [8193, 65537]:
            m = r.randbytes(k)
            s = L(r.randbytes(32))
            yield {"op": "g.sign", "code": T(c), "seed": s, "tr": True, "msg": L(m)}
            for at in (k - 1, k // 2 + 5): yield {"op": "g.chk", "code": T(c), "seed": s, "tr": True, "msg": L(m), "what": "msg", "at": [at, r.randrange(8)], "indexed": at % 2 == 0}
        # every byte of the signature, and every byte of a short message
        s = L(r.randbytes(32))
        for i in range(64):
            yield {"op": "g.chk", "code": T(c), "seed": s, "tr": True, "msg": L(b"a message"), "what": "sig", "at": [i, r.randrange(8)], "indexed": False}
        for i in range(9):
            yield {"op": "g.chk", "code": T(c), "seed": s, "tr": True, "msg": L(b"a message"), "what": "msg", "at": [i, r.randrange(8)], "indexed": False}
        for i in range(6):
            yield mirrored(r, c)
        for key in KEYS:
            yield {"op": "g.chk", "code": T(c), "seed": s, "tr": True, "msg": L(b"a message"), "what": "key", "key": T(key), "at": [0, 0], "indexed": False}
    for _ in range(n):
        c = r.choice(SEED)
        m = msg(r, r.choice([0, 1, 5, 32, 64, 100, 300]))
        s = L(r.randbytes(32))
        x = r.random()
        if x < .3:
            yield {"op": "g.sign", "code": T(c), "seed": L(seed(r, c)), "tr": r.random() < .5, "msg": L(m)}
        elif x < .37: yield mirrored(r, c)
        else:
            w = r.choice(["none", "msg", "sig", "sig", "swap", "key"])
            yield {"op": "g.chk", "code": T(c), "seed": s, "tr": r.random() < .5, "msg": L(m), "what": w,
                   "at": [r.randrange(64), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])], "key": T(r.choice(KEYS)), "indexed": r.random() < .5}
def indexed(r, n):
    # every position of one character and the next ones
    for c in SEED:
        for i in range(67):
            for only, o in ((True, []), (False, []), (r.random() < .5, [N((i + r.choice([1, 63, 64])) % 4096)])):
                yield {"op": "g.idx", "code": T(c), "seed": L(r.randbytes(32)), "tr": r.random() < .5, "msg": L(msg(r, r.randrange(50) if i < 60 else 1 << (i - 55))), "only": only, "index": N(i), "ondex": o}
    for _ in range(n):
        c = r.choice(SEED)
        i = r.choice([r.randrange(64), r.randrange(4096), 63, 64, 4095, 4096, r.randrange(5000), 262143, 2**31 - 1])
        o = r.choice([[], [N(i)], [N(r.choice([r.randrange(64), r.randrange(4096), 63, 64, 0, i + 1, 4095, 4096]))]])
        if o == [N(2**31)]: o = []
        yield {"op": "g.idx", "code": T(c), "seed": L(r.randbytes(32)), "tr": r.random() < .5, "msg": L(msg(r, r.randrange(50))), "only": r.random() < .5, "index": N(i), "ondex": o}
