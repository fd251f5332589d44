"""Scripts over version strings, self-addressing identifiers and framed events."""
from .util import *
from . import codec, docs
import json as _j, hashlib

DC = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"]
DL = {"E": 32, "F": 32, "G": 32, "H": 32, "I": 32, "0D": 64, "0E": 64, "0F": 64, "0G": 64}
def dig(r, c=None):
    c = c or r.choice(DC)
    return codec.fixtext(c, r.randbytes(DL[c]))
def vs(ident="KERI", maj="1", min="0", kind="JSON", size=0): return f"{ident}{maj}{min}{kind}{size:06x}_"
def anyvs(r):
    x = r.random()
    if x < .5: return vs(r.choice(["KERI", "ACDC"]), size=r.choice([0, 1, 15, 16, 255, 256, 65535, 65536, 2 ** 24 - 1, r.randrange(2 ** 24)]))
    s = vs(r.choice(["KERI", "ACDC", "keri", "KERX", "SCAD", "AAAA"]), r.choice("0123456789abcdef"), r.choice("0123456789abcdef"), r.choice(["JSON", "CBOR", "MGPK", "CESR", "json", "XXXX"]), r.randrange(2 ** 24))
    if x < .7: return s
    i = r.randrange(len(s))
    return r.choice([s[:i] + s[i + 1:], s[:i] + r.choice("_ gGzZ0aAF-é€{\"") + s[i + 1:], s + "_", s + "x", " " + s, s.upper(), s.lower(), s[:i], s + s, s.replace("_", "-"), "", "_"])

def versions(r, n):
    for s in ["", "KERI10JSON000000_", "KERI10JSON00000_", "KERI10JSON0000000_", "KERI10JSONffffff_", "KERI10JSONFFFFFF_", "KERIffJSON000000_", "KERIFFJSON000000_", "KERI10CBOR000000_", "KERI10MGPK000000_", "ACDC10JSON00011a_", "KERI10JSON00001g_",
              "KERI10JSON000000", "keri10json000000_", "KERI10JSON000000_ ", "KÉRI10JSON00000_", "éééééééé_", "KERI1JSON0000000_", "\n", "KERI10JSON000000\n", "00000000000000000"]:
        yield {"op": "v.de", "in": T(s)}
    for i in range(17):
        for c in "_0gGéZz~\n":
            yield {"op": "v.de", "in": T("KERI10JSON00011a_"[:i] + c + "KERI10JSON00011a_"[i + 1:])}
    for ident in ["KERI", "ACDC", "keri", "", "KERIX", "KER", "éééé", "SCAD"]:
        for kind in [None, "JSON", "CBOR", "MGPK", "json", "", "JSONX", "CESR"]:
            yield {"op": "v.mk", "ident": [T(ident)], "version": [], "kind": [] if kind is None else [T(kind)], "size": [[1]]}
    for a in (0, 1, 9, 10, 15, 16, 17, 255):
        for b in (0, 1, 10, 15, 16, 255):
            yield {"op": "v.mk", "ident": [], "version": [[a, b]], "kind": [], "size": [N(258)]}
    for s in [0, 1, 15, 16, 255, 256, 4095, 4096, 2 ** 20 - 1, 2 ** 20, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 31, 2 ** 32 - 1]:
        yield {"op": "v.mk", "ident": [], "version": [], "kind": [], "size": [N(s)]}
    yield {"op": "v.mk", "ident": [], "version": [], "kind": [], "size": []}
    for _ in range(n):
        if r.random() < .6: yield {"op": "v.de", "in": T(anyvs(r))}
        else:
            o = lambda v, p=.4: [] if r.random() < p else [v]
            yield {"op": "v.mk", "ident": o(T(r.choice(["KERI", "ACDC"]))), "version": o([r.choice([1, 1, r.randrange(256)]), r.choice([0, 0, r.randrange(256)])]),
                   "kind": o(T("JSON")), "size": o(N(r.choice([r.randrange(2 ** 24), r.randrange(2 ** 32)])), .1)}

def fields(r, v=True, d=True, label="d", vident=None):
    """an event-like document: list of (label, tree)"""
    f = []
    if v: f.append(("v", r.choice([vs(vident or r.choice(["KERI", "ACDC"]), size=r.randrange(2 ** 24)) if r.random() < .9 else anyvs(r)])))
    if d: f.append((label, r.choice(["", "", dig(r), "x", docs.string(r)]) if r.random() < .95 else docs.tree(r, 1)))
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])): f.append((docs.string(r) or "k", docs.tree(r, r.choice([0, 1, 2, 3]))))
    if r.random() < .1: f.append(("x", "y" * r.choice([100, 200, 230, 3000, 4090])))
    if r.random() < .35: r.shuffle(f)
    seen, o = set(), []
    for k, x in f:
        if k not in seen or k == label or k == "v":
            if k not in seen: o.append((k, x)); seen.add(k)
    return o
def dump(r, f, plain=True): return T(docs.text(r, ("o", f), plain))

def sizes(r, n):
    pad = lambda m: {"op": "v.size", "kind": [], "doc": T(_j.dumps({"v": vs(), "x": "y" * m}, separators=(",", ":")))}
    for m in list(range(0, 40)) + list(range(215, 235)) + list(range(4050, 4075)): yield pad(m)
    # multi-byte text: the size counts bytes
    for s in ["é", "€", "😀", "\u0301", "\n", "\x00", "\""]: yield {"op": "v.size", "kind": [], "doc": T(_j.dumps({"v": vs(), "x": s * 40}, ensure_ascii=False, separators=(",", ":")))}
    for x in [None, True, 1, 1.5, "", "KERI", [], {}, "KERI10JSON000000_x"]: yield {"op": "v.size", "kind": [], "doc": T(_j.dumps({"v": x, "d": "x"}))}
    for t in ["null", "1", "\"KERI10JSON000000_\"", "[]", "{}", "[\"v\"]", "{\"w\":\"KERI10JSON000000_\"}", "{\"V\":\"KERI10JSON000000_\"}"]: yield {"op": "v.size", "kind": [], "doc": T(t)}
    for q in ["JSON", "CBOR", "MGPK", "", "json"]: yield {"op": "v.size", "kind": [T(q)], "doc": T('{"v":"KERI10JSON000000_","d":""}')}
    for a in "02f":
        yield {"op": "v.size", "kind": [], "doc": T('{"v":"KERI%s0JSON000000_","d":""}' % a)}
        yield {"op": "v.size", "kind": [], "doc": T('{"v":"KERI1%sJSON000000_","d":""}' % a)}
    for w in ["ACDC10JSON000001_", "KERI10JSON0000ff_"]:
        for t in ['{"w":"%s","v":"KERI10JSON000000_"}', '{"%s":1,"v":"KERI10JSON000000_"}', '{"v":"KERI10JSON000000_","w":"%s"}', '{"abcdefghij":1,"v":"KERI10JSON000000_","w":"%s"}', '{"ab":1,"v":"KERI10JSON000000_%s"}', '["%s"]']:
            yield {"op": "v.size", "kind": [], "doc": T(t % w)}
    for k in range(0, 20): yield {"op": "v.size", "kind": [], "doc": T('{"%s":1,"v":"KERI10JSON000000_"}' % ("a" * k))}
    for _ in range(n):
        yield {"op": "v.size", "kind": [] if r.random() < .9 else [T(r.choice(["JSON", "CBOR", "x"]))], "doc": dump(r, fields(r))}

def event(r, ident="KERI", code=None, bad=False):
    """bytes of a framed document"""
    f = [("v", vs(ident)), ("d", dig(r, code or "E"))]
    for _ in range(r.choice([0, 1, 2, 4])): f.append((docs.string(r) or "k", docs.tree(r, r.choice([0, 1, 2]))))
    f = list(dict(reversed(f)).items()); f.reverse()
    f = [(k, x) for i, (k, x) in enumerate(f)]
    f.sort(key=lambda kx: {"v": 0, "d": 1}.get(kx[0], 2))
    b = docs.text(r, ("o", f), not bad and r.random() < .7).encode()
    i = b.find(b"10JSON000000_")
    return b[:i] + b"10JSON%06x_" % len(b) + b[i + 13:] if i >= 0 else b

TAILS = [b"", b" ", b"x", b"{}", b"-AABAAAA", b"\xff\xfe\x00", b"\xc3", b"\"", b"}", b"\x00" * 40, b"KERI10JSON0000ff_", b'{"v":"KERI10JSON0000ff_"}', "é€😀".encode()]
def buffers(r, n):
    for _ in range(n):
        a = r.choice(["serder", "serder", "creder"])
        ident = {"serder": "KERI", "creder": "ACDC"}[a] if r.random() < .9 else r.choice(["KERI", "ACDC"])
        code = r.choice(DC) if r.random() < .3 else "E"
        b = event(r, ident, code, r.random() < .2)
        x = r.random()
        if x < .5: b += r.choice(TAILS) + (r.randbytes(r.randrange(20)) if r.random() < .3 else b"")
        elif x < .62: b = b[:r.randrange(len(b))]
        elif x < .72:
            i = b.find(b"JSON") + 4
            s = len(b) + r.choice([-1, 1, 2, -2, 10, -len(b), 100000, 1])
            b = b[:i] + b"%06x" % max(0, s) + b[i + 6:] + r.choice([b"", b" ", b"}" * 3, b"x" * 12])
        elif x < .86:
            i = r.randrange(min(len(b), 90))
            b = b[:i] + bytes([r.choice([48, 49, 95, 34, 123, 125, 65, 97, 0, 255, r.randrange(256)])]) + b[i + r.randrange(2):]
        elif x < .9: b = r.choice([b"", b"{", b" " * 5, b"\n"]) + b
        op = r.choice(["sr.raw", "sr.raw", "sr.raw", "v.sniff"])
        if op == "v.sniff": yield {"op": op, "in": L(b)}
        else: yield {"op": op, "as": a, "in": L(b), "code": [] if code == "E" and r.random() < .8 else [T(code if r.random() < .9 else r.choice(DC + ["B", "", "x"]))]}
    # larger ones: cut, exact and followed by more
    for a, m in (("serder", 900), ("creder", 3900), ("serder", 4096), ("serder", 16400), ("creder", 65500), ("serder", 66000)):
        f = [("v", vs("KERI" if a == "serder" else "ACDC")), ("d", dig(r, "E")), ("q", ["%x" % i for i in range(300)]), ("x", "y" * m)]
        b = bytes(dump(r, f, False))
        i = b.find(b"10JSON000000_")
        b = b[:i] + b"10JSON%06x_" % len(b) + b[i + 13:]
        for z in (b, b + b"-AAB", b + b, b[:-1], b[:-1] + b" "): yield {"op": "sr.raw", "as": a, "in": L(z), "code": []}
    base = b'{"v":"KERI10JSON000000_","d":"'
    for k in range(0, 40): yield {"op": "v.sniff", "in": L(b"KERI10JSON000000_"[:min(k, 17)] + b"z" * max(0, k - 17))}
    for k in range(0, 20): yield {"op": "v.sniff", "in": L(b" " * k + b"KERI10JSON0000ff_" + b"z" * 20)}

def frames(r, n):
    # sizes past two bytes
    for m in (65400, 65436, 65437, 65460, 66000, 131072):
        f = [("v", vs()), ("d", dig(r, "E")), ("x", "y" * m)]
        yield {"op": "sr.life", "as": "serder", "doc": dump(r, f), "code": [], "tail": L(b"-AAB")}
    for _ in range(n):
        a = r.choice(["serder", "serder", "creder"])
        ident = {"serder": "KERI", "creder": "ACDC"}[a] if r.random() < .92 else r.choice(["KERI", "ACDC"])
        code = r.choice(DC) if r.random() < .3 else "E"
        f = fields(r, r.random() < .97, False, vident=ident)
        if r.random() < .97: f.insert(min(len(f), r.choice([0, 1, 1, 1, 2])), ("d", dig(r, code) if r.random() < .93 else r.choice(["", "x", dig(r), docs.tree(r, 0)])))
        o = {"doc": dump(r, f), "as": a, "code": [] if code == "E" and r.random() < .8 else [T(code if r.random() < .95 else r.choice(DC + ["B", "x"]))]}
        if r.random() < .6: yield {"op": "sr.life", **o, "tail": L(r.choice(TAILS) + r.randbytes(r.randrange(4)))}
        else: yield {"op": "sr.ked", **o, "kind": [] if r.random() < .8 else [T(r.choice(["JSON", "JSON", "CBOR", "MGPK", "x"]))]}

def opts(r, f, label="d"):
    o = {"kind": [] if r.random() < .9 else [T(r.choice(["JSON", "JSON", "CBOR", "x", ""]))],
         "label": [T(label)] if label != "d" or r.random() < .3 else [],
         "ignore": [] if r.random() < .75 else [[T(r.choice([k for k, _ in f] + ["zz"])) for _ in range(r.randrange(3))]]}
    return o
def saids(r, n):
    for t in ["null", "[]", "1", "\"d\"", "{}", '{"D":""}', '{"d":""}', '{"d":null}', '{"d":{}}', '{"v":"","d":""}', '{"v":1,"d":""}', '{"d":"","v":"KERI10JSON000000_"}']:
        for c in ["E", "0G", "B", "", "é"]:
            yield {"op": "sd.said", "doc": T(t), "code": [T(c)], "kind": [], "label": [], "ignore": []}
            yield {"op": "sd.new", "doc": T(t), "code": [T(c)], "kind": [], "label": [], "ignore": []}
        yield {"op": "sd.new", "doc": T(t), "code": [], "kind": [], "label": [], "ignore": []}
        yield {"op": "sd.ver", "doc": T(t), "id": T(dig(r)), "prefixed": [True], "versioned": [], "kind": [], "label": [], "ignore": []}
    # many labels left out at once
    for k in (3, 4, 5, 6, 8, 12):
        f = [("v", vs()), ("d", "")] + [("f%d" % i, docs.tree(r, 1)) for i in range(12)]
        g = [T("f%d" % i) for i in r.sample(range(12), k)]
        for h in (g, g[::-1], g[:-1], g[1:], [T("zz")] * 4 + g, g + g):
            for op in ("sd.said", "sd.new"): yield {"op": op, "doc": dump(r, f), "code": [], "kind": [], "label": [], "ignore": [h]}
    for _ in range(n):
        label = r.choice(["d", "d", "d", "i", "id", "$id", "é", ""])
        f = fields(r, r.random() < .5, r.random() < .96, label)
        o = opts(r, f, label)
        c = r.choice(DC)
        code = [] if r.random() < .25 else [T(c if r.random() < .96 else r.choice(["B", "D", "0B", "", "A", "zz", "0A"]))]
        b = lambda p=.4: [] if r.random() < p else [r.random() < .5]
        x = r.random()
        if x < .5: yield {"op": "sd.said", "doc": dump(r, f, r.random() < .8), "code": code, **o}
        elif x < .85: yield {"op": "sd.new", "doc": dump(r, f), "code": code, **o}
        else: yield {"op": "sd.ver", "doc": dump(r, f), "id": T(r.choice([dig(r), codec.damage(r, dig(r)), codec.matter(r)])), "prefixed": b(), "versioned": b(), **o}

def edits(r, n):
    """a document under edit: identifier made, then single changes, some undone"""
    # large documents, changed near their end or in the middle
    for j, c in enumerate(DC):
        m = (1000, 4000, 8100, 16300, 32700, 65400, 65530, 3000, 9000)[j % 9]
        k = (20, 65, 130, 260, 64, 100, 128, 256, 33)[j % 9]
        q = ["%x" % (i * i) for i in range(k)]
        f = [("v", vs()), ("d", ""), ("s", "y" * m), ("q", q), ("t", "x" * 70)]
        yield {"op": "ds.open", "new": True, "doc": dump(r, f, False)}
        yield {"op": "ds.said", "code": [T(c)], "kind": [], "label": [], "ignore": []}
        ver = {"op": "ds.ver", "prefixed": [True], "versioned": [], "label": [], "ignore": [], "alt": [], "recode": []}
        yield ver
        for at, was, w in (("t", "x" * 70, "x" * 69 + "y"), ("s", "y" * m, "y" * (m - 1) + "z"), ("s", "y" * m, "y" * (m // 2) + "z" + "y" * (m - m // 2 - 1)), ("q", q, q[:-1] + [q[-1][:-1] + "g"]), ("q", q, q[:k // 2] + ["g" * len(q[k // 2])] + q[k // 2 + 1:])):
            yield {"op": "ds.set", "at": T(at), "val": T(docs.text(r, w, True))}
            yield ver
            yield {"op": "ds.set", "at": T(at), "val": T(docs.text(r, was, True))}
            yield ver
    for _ in range(n):
        label = r.choice(["d", "d", "d", "i", "$id"])
        f = fields(r, r.random() < .5, True, label)
        # other identifiers beside it
        if r.random() < .5:
            o = r.choice([l for l in ("d", "i", "$id") if l != label])
            f = [x for x in f if x[0] != o]
            f.insert(r.randrange(len(f) + 1), (o, dig(r)))
        f = [(k, vs(r.choice(["KERI", "ACDC"]), size=r.randrange(999)) if k == "v" else x) for k, x in f]
        o = {"label": [T(label)] if label != "d" else [], "ignore": [] if r.random() < .8 else [[T(r.choice(f)[0])]]}
        if o["ignore"] and bytes(o["ignore"][0][0]).decode() in ("v", label): o["ignore"] = []
        c = r.choice(DC)
        b = lambda: [] if r.random() < .3 else [r.random() < .6]
        def ver():
            x = r.random()
            return {"op": "ds.ver", "prefixed": b(), "versioned": b(), "label": o["label"], "ignore": o["ignore"],
                    "alt": [[r.randrange(64), r.randrange(8)]] if x < .2 else [], "recode": [T(r.choice(DC))] if x > .92 else []}
        said = lambda c: {"op": "ds.said", "code": [T(c)] if r.random() < .9 else [], **o}
        yield {"op": "ds.open", "new": True, "doc": dump(r, f)}
        yield {"op": "ds.ver", "prefixed": [], "versioned": [], **{"label": o["label"], "ignore": o["ignore"]}}
        yield said(c)
        yield {**ver(), "alt": [[r.randrange(64), r.randrange(8)]]} if r.random() < .4 else ver()
        for _ in range(r.randrange(1, 7)):
            x = r.random()
            k, v = r.choice(f)
            if x < .45:
                w = docs.tree(r, r.choice([0, 0, 1]))
                if k == "v": w = r.choice([vs("KERI", size=r.randrange(999)), vs("ACDC", size=5), anyvs(r), ""])
                if k == label: w = r.choice([dig(r), dig(r, c), "", "#" * 44, None])
                if k == label and r.random() < .7:
                    yield {"op": "ds.set", "at": T(k), "val": T(docs.text(r, w, True))}
                    yield {**ver(), "alt": [], "recode": [], "prefixed": [True]}
                    yield {**ver(), "alt": [], "recode": [], "prefixed": [False]}
                    continue
                if isinstance(v, str) and k not in ("v", label) and r.random() < .5: w = v + r.choice(["", " ", "x", "\u0301", "\x00"])
                yield {"op": "ds.set", "at": T(k), "val": T(docs.text(r, w, True))}
                yield ver()
                if r.random() < .5 and k not in ("v", label):
                    yield {"op": "ds.set", "at": T(k), "val": T(docs.text(r, v, True))}
                    yield ver()
            elif x < .6:
                yield {"op": "ds.del", "at": T(k)}
                yield ver()
                if k not in ("v", label) and r.random() < .6:
                    # back, but at the end
                    yield {"op": "ds.set", "at": T(k), "val": T(docs.text(r, v, True))}
                    yield ver()
            elif x < .75:
                yield {"op": "ds.set", "at": T(docs.string(r) or "new"), "val": T(docs.text(r, docs.tree(r, 1), True))}
                yield ver()
            elif x < .85: yield ver()
            else:
                yield said(r.choice(DC))
                yield ver()
