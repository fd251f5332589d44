"""Anything at all, to every entry point: only a value or an error may come back."""
import json as _j
from .util import *
from . import codec, typed, stream, sign, threshold, docs, sad, event, salter, kel, wasm

EV = T('{"v":"KERI10JSON000000_","t":"icp","d":"' + codec.fixtext("E", bytes(32)) + '","i":"","s":"0","kt":"1","k":["' + codec.fixtext("D", bytes(32)) + '"],"nt":"1","n":["' + codec.fixtext("E", bytes(32)) + '"],"bt":"0","b":[],"c":[],"a":[{"x":[1,"y"]}]}')
def quoted(w):
    try: return T(_j.dumps(bytes(w).decode("utf-8"), ensure_ascii=False))
    except UnicodeDecodeError: return None
def isutf8(w): return quoted(w) is not None
def put(label, w):
    """the event with a field saying this"""
    d = _j.loads(bytes(EV).decode())
    d[label] = _j.loads(bytes(w).decode())
    return T(_j.dumps(d, ensure_ascii=False))
SEED0 = [7] * 32
def everywhere(x):
    """every entry point that reads text or bytes, given these"""
    w = x["w"]
    u = isutf8(w)
    vias = ["qb64", "qb64b", "qb2"] if u else ["qb64b", "qb2"]
    for v in vias:
        for op in ("m.par", "i.par", "c.par", "n.par", "s.par", "d.par", "b.par", "pa.par"): yield {"op": op, "via": v, "in": w}
        for t in typed.TYPES: yield {"op": "t.par", "type": t, "via": v, "in": w, "code": []}
        for t in typed.TYPES: yield {"op": "t.any", "type": t, **wasm.BLANK, v: [w], "code": [T("E")]}
        yield {"op": "g.new", "via": v, "in": w, "tr": []}
        yield {"op": "sl.make", "via": v, "in": w, "code": [], "own": []}
    for c in ("A", "0B", "E", "4A", "1AAG", "M", "0A", "2AAA", ""):
        yield {"op": "m.raw", "code": T(c), "raw": w}
    for c in ("A", "0A", "2A", "3B", "0z", "4z"): yield {"op": "i.raw", "code": T(c), "raw": w, "index": N(1), "ondex": []}
    for t in typed.TYPES: yield {"op": "t.raw", "type": t, "code": [], "raw": w}
    yield {"op": "th.new", "form": "limen", "limen": w, "doc": []}
    yield {"op": "v.sniff", "in": w}
    yield {"op": "v.sniff", "in": T('{"v":"KERI10JSON') + w + T('000000_"}')}
    for a in ("serder", "creder"): yield {"op": "sr.raw", "as": a, "in": T('{"v":"KERI10JSON000012_","d":') + w, "code": []}
    yield {"op": "j.parse", "in": w}
    yield {"op": "g.ver", "key": T(codec.fixtext("D", bytes(32))), "sig": w, "msg": []}
    for k in sign.KEYS[2:]: yield {"op": "g.ver", "key": T(k), "sig": w, "msg": w}
    if not u: return
    q = quoted(w)
    for op in ("n.numh", "s.snh", "d.dts", "b.bext", "pa.bext", "v.str", "v.de"): yield {"op": op, "in": w}
    for form in ("bext", "qb64"):
        yield {"op": "pa.res", "form": form, "path": w, "doc": EV}
        yield {"op": "pa.tail", "form": form, "path": w, "doc": EV}
    yield {"op": "pa.res", "form": "bext", "path": T("-a-0-") + w, "doc": EV}
    yield {"op": "pa.rel", "a": w, "b": T("-a")}
    yield {"op": "pa.rel", "a": T("-a-b"), "b": w}
    yield {"op": "pa.list", "doc": T("[") + q + T("]")}
    for f in ("sith", "thold"):
        yield {"op": "th.new", "form": f, "doc": q, "limen": []}
        yield {"op": "th.new", "form": f, "doc": T("[") + q + T(",\"1\"]"), "limen": []}
    yield {"op": "th.new", "form": "sith", "doc": T("[[") + q + T("]]"), "limen": []}
    for c in (w,):
        yield {"op": "m.raw", "code": c, "raw": SEED0}
        yield {"op": "i.raw", "code": c, "raw": SEED0 * 2, "index": N(1), "ondex": [N(1)]}
        yield {"op": "c.new", "code": c, "count": N(1)}
        yield {"op": "c.any", "code": [T("-A")], "b64": [w], "count": [], "qb64b": [], "qb64": [], "qb2": []}
        for t in typed.TYPES: yield {"op": "t.raw", "type": t, "code": [c], "raw": SEED0}
        yield {"op": "g.gen", "code": [c], "tr": []}
        yield {"op": "h.ser", "code": [c], "ser": w}
        yield {"op": "sd.said", "doc": EV, "code": [c], "kind": [], "label": [], "ignore": []}
        yield {"op": "sd.new", "doc": EV, "code": [], "kind": [c], "label": [], "ignore": [[c]]}
        yield {"op": "sd.said", "doc": EV, "code": [], "kind": [], "label": [c], "ignore": []}
        yield {"op": "px.new", "doc": EV, "code": [c], "allows": []}
        yield {"op": "px.new", "doc": EV, "code": [], "allows": [[c]]}
        yield {"op": "v.mk", "ident": [c], "version": [], "kind": [], "size": []}
        yield {"op": "v.mk", "ident": [], "version": [], "kind": [c], "size": []}
        yield {"op": "v.size", "doc": EV, "kind": [c]}
        yield {"op": "sl.stretch", "salt": [1] * 16, "own": [], "at": [c], "temp": [True], "path": [w], "size": []}
        yield {"op": "sl.signer", "salt": [1] * 16, "own": [T("min")], "at": [], "temp": [], "path": [w], "code": [c], "tr": []}
    yield {"op": "h.ver", "dig": w, "ser": w}
    for f in ("dig", "diger"): yield {"op": "h.cmp", "form": f, "a": T(codec.fixtext("E", bytes(32))), "b": w, "ser": w}
    yield {"op": "h.cmp", "form": "dig", "a": w, "b": w, "ser": w}
    yield {"op": "g.ver", "key": w, "sig": [], "msg": []}
    for i in (w,):
        yield {"op": "px.ver", "id": i, "doc": EV, "prefixed": [True]}
        yield {"op": "sd.ver", "id": i, "doc": EV, "code": [], "kind": [], "label": [], "ignore": [], "prefixed": [], "versioned": []}
    for f in ("v", "d", "i", "t", "s", "kt", "nt", "f", "k", "n", "b"):
        for y in ((q,) if f in "vdits" else (q, T("[") + q + T("]"))):
            d = put(f, y)
            yield {"op": "ev.says", "as": "serder", "raw": [], "doc": d, "code": [], "size": []}
            if f in "vdik":
                yield {"op": "px.new", "doc": d, "code": [], "allows": []}
                yield {"op": "px.ver", "id": T(codec.fixtext("E", bytes(32))), "doc": d, "prefixed": []}
                yield {"op": "sd.said", "doc": d, "code": [], "kind": [], "label": [], "ignore": []}
    yield {"op": "v.size", "doc": put("v", q), "kind": []}
    yield {"op": "w.val", "in": w}
def through(x):
    """the same through the bindings"""
    for e in everywhere(x):
        yield from wasm.bound(e)

# ------------------------------------------------------------------- mutants
CORPUS = [codec.matter_text, codec.matter_raw, codec.matter_life, codec.matter_any, codec.indexer_raw, codec.indexer_text, codec.counter_text, codec.counter_new, codec.semver,
          typed.kinds, typed.numbers, typed.dates, typed.texts, stream.walks, sign.hashes, sign.compares, sign.signers, sign.signatures, sign.indexed,
          threshold.forms, threshold.lists, sad.versions, sad.sizes, sad.buffers, sad.frames, sad.saids, docs.parses, docs.values,
          event.prefixes, event.names, event.reaches, event.says, salter.asks, wasm.anys]
BYTES = {"raw", "qb64b", "qb2", "ser", "msg", "sig", "seed", "salt", "tail", "limen"}
NUMS = {"num", "index", "ondex", "start", "size", "count"}
DOCS = {"doc"}
FIXED = {"op", "real", "type", "via", "form", "as", "what", "kind_", "len", "n", "tr", "temp", "prefixed", "versioned", "only", "indexed", "own", "at", "new", "version"}
EDGE = [0, 1, 2, 63, 64, 255, 256, 4095, 4096, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 127, 2 ** 128 - 1]
SPICE = ["", "\0", " ", "A", "-", "_", "=", "é", "€", "😀", "\U0010ffff", "[", "]", "{}", "[]", "[[]]", "null", "1/0", "0/0", "-1/2", "1/-2", "4294967296/4294967297", "1/", "/1", "/", ",", "&", "s", "c", "a", "1s2c1s2", "-A", "--", "---",
         "0A", "1AAG", "4A", "5A", "6A", "4B", "7AAA", "9AAB", "0z", "1z", "4z", "2A", "3B", "-0V", "--AAA", "KERI10JSON000000_", "KERI10JSONffffff_", "ACDC10JSON000001_", "KERI10CBOR000000_", "KERIffJSON000000_", "KERI10JSON00000g_",
         "2020-08-22T17:50:09.988921+00:00", "0000-00-00T00:00:00.000000+00:00", "9999-12-31T23:59:60.999999-23:59", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
         "340282366920938463463374607431768211456", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "-0", "+1", "1e309", "00", "0x1", "icp", "dip", "min", "high ", "#", "##", "v", "d", "i"]
def spice(r):
    m = r.random()
    if m < .6: return r.choice(SPICE)
    if m < .75: return codec.matter(r)
    if m < .8: return codec.indexer(r)
    if m < .85: return codec.counter(r)
    if m < .95: return docs.string(r)
    return r.choice(SPICE) * r.choice([2, 3, 64, 300])
def hurttext(r, b):
    """still UTF-8"""
    s = bytes(b).decode("utf-8")
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randrange(len(s) + 1)
        m = r.randrange(7)
        if m == 0: s = s[:i]
        elif m == 1: s = s[i:]
        elif m == 2: s = s[:i] + spice(r) + s[i:]
        elif m == 3: s = s[:i] + s[i + 1:]
        elif m == 4: s = s[:i] + r.choice(["é", "€", "😀", "\0", "=", "_", "-", "A", "9", "\u0301"]) + s[i + 1:]
        elif m == 5: s = s + s[i:]
        else: s = spice(r)
    return T(s)[:20000]
def hurtbytes(r, b):
    b = bytes(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randrange(len(b) + 1)
        m = r.randrange(6)
        if m == 0: b = b[:i]
        elif m == 1: b = b[i:]
        elif m == 2: b = b[:i] + r.choice([b"\xff", b"\x00", b"\xc3", b"\xf8\x00\x00", b"\xd0\x00\x10", bytes(32), T_(spice(r))]) + b[i:]
        elif m == 3 and i < len(b): b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        elif m == 4 and i < len(b): b = b[:i] + bytes([r.choice([0, 255, 0x7f, 0x80, 0xc3, r.randrange(256)])]) + b[i + 1:]
        else: b = r.choice([b"", b"\xff" * r.randrange(90), bytes(r.randrange(90)), r.randbytes(r.randrange(90))])
    return L(b[:20000])
def T_(s): return s.encode("utf-8")
def plain(v):
    """a tree as docs.text wants it, from Python's own"""
    if isinstance(v, dict): return ("o", [(k, plain(x)) for k, x in v.items()])
    if isinstance(v, list): return [plain(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, str): return v
    return v
def hurtdoc(r, b):
    try: v = _j.loads(bytes(b).decode("utf-8"))
    except Exception: return b
    def nasty():
        m = r.randrange(9)
        if m < 4: return spice(r)
        if m == 4: return r.choice([0, -1, 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 1.5, -0.0, 1e308, 5e-324])
        if m == 5: return r.choice([None, True, False, [], {}, [[]], [{}], {"": ""}, [None], ""])
        if m == 6: return [spice(r) for _ in range(r.randrange(5))]
        if m == 7: return [[spice(r) for _ in range(r.randrange(3))] for _ in range(r.randrange(4))]
        return {spice(r): spice(r), "d": spice(r), "v": spice(r)}
    def walk(v):
        if isinstance(v, dict) and v and r.random() < .85:
            k = r.choice(list(v))
            m = r.random()
            if m < .12: return {a: b for a, b in v.items() if a != k}
            if m < .2: return {**v, spice(r): nasty()}
            if m < .24: return dict(sorted(v.items(), key=lambda _: r.random()))
            return {a: walk(b) if a == k else b for a, b in v.items()}
        if isinstance(v, list) and v and r.random() < .7:
            i = r.randrange(len(v))
            m = r.random()
            if m < .12: return v[:i] + v[i + 1:]
            if m < .24: return v[:i] + [nasty()] + v[i:]
            if m < .3: return v * r.choice([2, 3, 50])
            return [walk(x) if j == i else x for j, x in enumerate(v)]
        if isinstance(v, str) and v and r.random() < .5: return bytes(hurttext(r, T(v))).decode()
        return nasty()
    for _ in range(r.choice([1, 1, 2, 3])): v = walk(v)
    return T(_j.dumps(v, ensure_ascii=False, separators=(",", ":")))[:30000]
def flat(v): return isinstance(v, list) and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 for x in v)
def bytesfield(e, k):
    if k in BYTES: return True
    if k == "in": return e.get("via") in ("qb64b", "qb2", "raw") or e["op"] in ("v.sniff", "sr.raw", "j.parse", "st.walk", "st.auto", "v.parts", "j.deep")
    return False
def mutant(r, e, optional):
    e = dict(e)
    # how many signers and how long a seed is the caller's own choice
    keys = [k for k in e if k not in FIXED and isinstance(e[k], list) and not (e["op"].startswith("sl.") and k in ("size", "count"))]
    if not keys: return None
    for k in r.sample(keys, min(len(keys), r.choice([1, 1, 2, 3]))):
        v = e[k]
        wrapped = k in optional.get(e["op"], ())
        if wrapped and (not v or r.random() < .06):
            if v: e[k] = []; continue
            if k in NUMS: e[k] = [N(r.choice(EDGE))]
            elif k in ("ignore", "allows"): e[k] = [[T(spice(r)) for _ in range(r.randrange(4))]]
            elif k == "key": e[k] = [T(r.choice(sign.KEYS))]
            elif k in DOCS: continue
            elif bytesfield(e, k): e[k] = [hurtbytes(r, bytes(32))]
            else: e[k] = [T(spice(r))]
            continue
        x = v[0] if wrapped else v
        if k in NUMS: y = N(min(2 ** 128 - 1, max(0, r.choice(EDGE) + r.choice([-1, 0, 0, 1]))))
        elif k == "idx": continue
        elif not flat(x): continue
        elif k in DOCS: y = hurtdoc(r, x)
        elif bytesfield(e, k): y = hurtbytes(r, x)
        elif k == "key" and e["op"] == "t.key": continue
        elif not isutf8(x): y = hurtbytes(r, x)
        else: y = hurttext(r, x)
        e[k] = [y] if wrapped else y
    return e
def framed(r, pool):
    """a hurt event that still states its size"""
    a = r.choice(["serder", "serder", "creder"])
    d = bytes(hurtdoc(r, T(docs.text(None, ("o", event.somevent(r) if a == "serder" else event.somecred(r)), True))))
    i = d.find(b"10JSON000000_")
    b = d[:i] + b"10JSON%06x_" % len(d) + d[i + 13:] if i >= 0 else d
    if r.random() < .15: b = bytes(hurtbytes(r, b))
    if r.random() < .5: return {"op": "sr.raw", "as": a, "in": L(b), "code": []}
    return {"op": "ev.says", "as": a, "raw": [L(b)], "doc": [], "code": [], "size": [] if r.random() < .5 else [N(r.randrange(2000))]}
def mutants(bindings):
    def make(r, n):
        pool = {}
        for g in CORPUS:
            for e in g(r, 120):
                if e.get("new") or e["op"].startswith("st.") or e["op"] in ("j.from", "j.lit", "v.parts"): continue
                pool.setdefault((e["op"], e.get("type")), []).append(e)
        # which arguments are optional: those seen wrapped
        optional = {}
        for (op, _), es in pool.items():
            for e in es:
                for k, v in e.items():
                    if isinstance(v, list) and v and isinstance(v[0], (list, bool)) and k != "idx": optional.setdefault(op, set()).add(k)
                    if k in ("ignore", "allows"): optional.setdefault(op, set()).add(k)
        ops = sorted(pool, key=str)
        k = 0
        while k < n:
            e = framed(r, pool) if r.random() < .04 else mutant(r, r.choice(pool[r.choice(ops)]), optional)
            if e is None: continue
            # the costly tiers are not asked for
            if e["op"].startswith("sl.") and e["op"] != "sl.make": e["temp"] = [True]
            if bindings:
                b = wasm.bound(e)
                if not b: continue
                e = b[0]
            k += 1
            yield e
    return make
