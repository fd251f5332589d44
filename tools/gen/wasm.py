"""General constructors, and every core script again through the bindings."""
import itertools
from .util import *
from . import codec, typed, sign, threshold, docs, sad, event, salter
TYPES = [t for t in typed.TYPES if t != "Pather"]
BLANK = {"code": [], "raw": [], "qb64b": [], "qb64": [], "qb2": [], "num": [], "txt": [], "ser": [], "tier": [], "tr": [], "index": [], "ondex": [], "key": []}

def material(r, t):
    own = r.random() < .85
    if t == "Siger":
        s = codec.indexer(r, r.choice(typed.OWN[t]) if own else None)
    else:
        s = codec.matter(r, r.choice(typed.OWN[t]) if own else None)
    return codec.damage(r, s) if r.random() < .12 else s
def anyraw(r, t):
    c = r.choice(typed.OWN[t])
    k = 64 if t == "Siger" else codec.rawsize(c) if c in codec.FIX else r.randrange(40)
    return c, rb(r, r.choice([k, k, k, k + 1, max(0, k - 1)]))
def hexnum(r):
    h = "%x" % typed.numval(r)
    return h.upper() if r.random() < .3 else "0" * r.randrange(9) + h if r.random() < .3 else codec.damage(r, h) if r.random() < .2 else h
def anything(r, t):
    """any combination of the arguments of the general constructor"""
    e = {"op": "t.any", "type": t, **BLANK}
    m = r.choice([0, 1, 1, 1, 2, 2, 3])          # how many kinds of material
    kinds = r.sample(["raw", "qb64b", "qb64", "qb2"], m)
    for k in kinds:
        if k == "raw":
            c, b = anyraw(r, t)
            e["raw"] = [L(b)]
            if r.random() < (.9 if m == 1 else 1): e["code"] = [T(c if r.random() < .9 else r.choice(list(codec.FIX)))]
        else:
            s = material(r, t)
            e[k] = [L(codec.tob2(s)) if k == "qb2" else T(s)]
    if not kinds and t in ("Number", "Seqner", "Dater", "Bexter", "Pather") and r.random() < .2:
        e["code"] = [T(r.choice(typed.OWN[t] + ["B", "0A", "4B", "7AAA", "", "é"]))]
    if kinds and "raw" not in kinds and r.random() < .3:
        e["code"] = [T(r.choice(typed.OWN[t] + ["B", "0A", "", "é"]))]
    if t in ("Number", "Seqner"):
        if r.random() < .5: e["num"] = [N(typed.numval(r))]
        if r.random() < .5:
            h = hexnum(r)
            if not h.startswith("+"): e["txt"] = [T(h)]
    if t == "Dater" and r.random() < .6:
        s = typed.stamp(r)
        if not s.startswith("0000"): e["txt"] = [T(s)]
    if t in ("Bexter", "Pather") and not kinds and r.random() < .9: e["txt"] = [T("".join(r.choice(B64) for _ in range(r.randrange(30))))]
    if t == "Diger" and r.random() < .6:
        e["ser"] = [L(r.randbytes(r.randrange(40)))]
        if not kinds and r.random() < .5: e["code"] = [T(r.choice(sign.DIGS))]
    if t == "Salter" and r.random() < .6: e["tier"] = [T(r.choice(salter.TIERS))]
    if t == "Signer":
        e["tr"] = r.choice([[], [True], [False]])
        if not kinds and r.random() < .7: e["code"] = [T(r.choice(["A", "J", "Q"]))]
    if t == "Siger":
        if r.random() < .7: e["index"] = [N(r.choice([0, 1, 63, 64, 4095, 4096, r.randrange(5000)]))]
        if r.random() < .5: e["ondex"] = [e["index"][0] if e["index"] and r.random() < .6 else N(r.choice([0, 1, 63, 64, 4095, 4096]))]
    if t in ("Siger", "Cigar") and r.random() < .5: e["key"] = [T(r.choice(sign.KEYS))]
    if e["raw"] and not e["code"] and t == "Signer" and m > 1: e["code"] = [T("A")]
    return e
def keyed(r):
    t = r.choice(["Siger", "Cigar"])
    e = {"op": "t.key", "type": t, **BLANK, "key": T(r.choice(sign.KEYS)), "via": r.choice(["raw", "qb64", "qb64b", "qb2"])}
    if e["via"] == "raw":
        c, b = anyraw(r, t)
        e["in"] = L(b)
        if r.random() < .9: e["code"] = [T(c)]
        if t == "Siger" and r.random() < .8:
            i = r.choice([0, 1, 62, 63, 64, 4094, 4095, 4096, r.randrange(4096)])
            e["index"] = [N(i)]
            if r.random() < .5: e["ondex"] = [N(r.choice([i, i, 0, 63, 64, r.randrange(4096)]))]
    else:
        s = material(r, t)
        e["in"] = L(codec.tob2(s)) if e["via"] == "qb2" else T(s)
    return e
def anys(r, n):
    for t in typed.TYPES:
        yield {"op": "t.any", "type": t, **BLANK}
    for _ in range(n):
        yield keyed(r) if r.random() < .12 else anything(r, r.choice(typed.TYPES))

# ------------------------------------------------- what is made from documents
def some(r, make, n, *ops): return [e for e in make(r, n) if e["op"] in ops]
def pick(r, e, *ks):
    """a few of the arguments given"""
    return {**e, **{k: [] for k in ks if r.random() < .6}}
def events(r, n):
    raws, docs_ = some(r, sad.buffers, 60 + n // 4, "sr.raw"), some(r, sad.frames, 60 + n // 4, "sr.life", "sr.ked")
    yield {"op": "sr.any", "as": "serder", "code": [], "raw": [], "kind": [], "doc": [], "from": [], "fcode": []}
    for _ in range(n):
        who = r.choice(raws + docs_)
        same = [x for x in (raws, docs_) for x in [[y for y in x if y["as"] == who["as"] and y["code"] == who["code"]] or x]] if r.random() < .85 else (raws, docs_)
        a, b, c = r.choice(same[0]), r.choice(same[1]), r.choice(same[1])
        e = pick(r, {"op": "sr.any", "as": who["as"], "code": who["code"], "raw": [a["in"]], "kind": b.get("kind", []) if r.random() < .5 else [], "doc": [b["doc"]], "from": [c["doc"]], "fcode": c["code"]}, "raw", "doc", "from")
        if e["raw"]: e["kind"] = []
        yield e
def materials(r, t, p):
    e = {"raw": [], "qb64b": [], "qb64": [], "qb2": []}
    for k in e:
        if r.random() < p:
            if k == "raw": e[k] = [L(anyraw(r, t)[1])]
            else:
                s = material(r, t)
                e[k] = [L(codec.tob2(s)) if k == "qb2" else T(s)]
    return e
def saiders(r, n):
    pool = [e for e in some(r, sad.saids, 60 + n // 3, "sd.new") if not e["ignore"]]
    yield {"op": "sd.any", "doc": [], "label": [], "kind": [], "code": [], **materials(r, "Saider", 0)}
    for _ in range(n):
        d = r.choice(pool)
        m = materials(r, "Saider", .35)
        e = {"op": "sd.any", "doc": [d["doc"]] if r.random() < .6 else [], "label": d["label"], "kind": d["kind"], "code": d["code"], **m}
        if e["raw"] and r.random() < .7: e["code"], e["raw"] = (lambda c, b: ([T(c)], [L(b)]))(*anyraw(r, "Saider"))
        yield e
def prefixers(r, n):
    pool = some(r, event.prefixes, 60 + n // 3, "px.new", "px.life")
    yield {"op": "px.any", "doc": [], "code": [], **materials(r, "Prefixer", 0)}
    for _ in range(n):
        d = r.choice(pool)
        m = materials(r, "Prefixer", r.choice([0, .3]))
        e = {"op": "px.any", "doc": [d["doc"]] if r.random() < .8 else [], "code": d["code"], **m}
        if e["raw"] and r.random() < .7: e["code"], e["raw"] = (lambda c, b: ([T(c)], [L(b)]))(*anyraw(r, "Prefixer"))
        yield e
def thresholds(r, n):
    yield {"op": "th.any", "thold": [], "limen": [], "sith": []}
    pool = some(r, threshold.forms, 100 + n, "th.new")
    for _ in range(n):
        e = {"op": "th.any", "thold": [], "limen": [], "sith": []}
        for m in r.sample(pool, r.choice([1, 2, 2, 3, 3])):
            e[m["form"]] = [m["limen" if m["form"] == "limen" else "doc"]]
        yield e

OPS = {"sr.any", "sd.any", "px.any", "th.any", "t.raw", "t.par", "t.any", "t.key", "n.num", "n.numh", "n.none", "n.raw", "n.par", "s.sn", "s.snh", "s.none", "s.raw", "s.par", "d.dts", "d.raw", "d.par",
       "b.bext", "b.raw", "b.par", "h.ser", "h.any", "h.ver", "h.cmp", "g.new", "g.gen", "g.sign", "g.ver", "g.idx", "th.new", "th.sat", "th.many",
       "px.new", "px.ver", "sd.said", "sd.new", "sd.ver", "sr.raw", "sr.ked", "ev.says", "sl.make", "sl.stretch", "sl.signer", "sl.signers"}
def bound(e):
    """the same call through its binding, if there is one: [] or [call]"""
    if e["op"] not in OPS or e.get("new"): return []
    if e.get("type") == "Pather" or e.get("as") == "creder": return []
    if e.get("ignore") or e.get("allows"): return []          # JavaScript arrays
    return [{**e, "op": "w.call", "real": e["op"]}]

def through(*makes):
    """bindings over the scripts of the core"""
    def make(r, n):
        for m, share in makes:
            k = max(1, int(n * share))
            # a few scripts start with a fixed sweep: take evenly from the whole
            calls = [b for e in m(r, k) for b in bound(e)]
            if len(calls) > k: calls = r.sample(calls, k)
            yield from calls
    return make

def boundary(r, n):
    yield {"op": "w.codes"}
    for k in range(128):
        for v in (2 ** k, 2 ** k - 1, 2 ** 128 - 2 ** k, (2 ** 64 - 1) << (k // 2)):
            yield {"op": "w.num", "num": N(v)}
    yield {"op": "w.num", "num": N(2 ** 128 - 1)}
    for _ in range(n):
        yield {"op": "w.num", "num": N(r.getrandbits(r.randrange(129)))}
    for e in docs.parses(r, n):
        # (C15's finding is not the bindings')
        if e["op"] == "j.parse" and utf8(e["in"]) and "0.43295284981322557" not in bytes(e["in"]).decode(): yield {"op": "w.val", "in": e["in"]}
def utf8(b):
    try:
        bytes(b).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False
