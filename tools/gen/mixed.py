"""Rounds of like calls, to be made alongside one another and again in another order."""
from .util import *
from . import codec, typed, stream, sign, threshold, docs, sad, event, salter, wasm
MAKES = [codec.matter_raw, codec.matter_life, codec.matter_text, codec.indexer_raw, codec.indexer_text, codec.counter_text, codec.counter_new, codec.semver,
         typed.kinds, typed.numbers, typed.dates, typed.texts, wasm.anys, sign.hashes, sign.compares, sign.signers, sign.signatures, sign.indexed,
         threshold.forms, threshold.lists, wasm.thresholds, docs.parses, docs.values, sad.versions, sad.sizes, sad.buffers, sad.frames, sad.saids, wasm.saiders,
         event.prefixes, event.names, event.reaches, event.says, wasm.prefixers, wasm.events, salter.asks, stream.walks]
def shape(e): return (e["op"],) + tuple(sorted((k, v if isinstance(v, str) else "none" if k in ("doc", "raw", "limen") and v == [] else "") for k, v in e.items()))
def costly(e): return e["op"].startswith("sl.") and e.get("temp") != [True] and any(x and bytes(x[0]).decode() in ("med", "high") for x in (e.get("own"), e.get("at")))
def pools(r):
    """calls by operation and form"""
    p = {}
    for m in MAKES:
        for e in r.sample(c, 400) if len(c := list(m(r, 250))) > 400 else c:
            if not costly(e): p.setdefault(shape(e), []).append(e)
    return p
def crossed(r, x, y):
    """x, with some of what y has in other places"""
    # what stretching costs is not dealt anew
    d = [k for k in x if k != "op" and x[k] != y[k] and not (x["op"].startswith("sl.") and k in ("at", "temp", "own", "count"))]
    if len(d) < 2 or x["op"] in ("j.lit", "c.b64"): return r.choice([x, y])
    take = set(r.sample(d, r.randrange(1, len(d))))
    return {k: (y if k in take else x)[k] for k in x}
def rounds(r, n):
    p = pools(r)
    by = {}
    for s, l in p.items(): by.setdefault(s[0], []).append(l)
    ops = sorted(by)
    for i in range(n):
        l = r.choice(by[ops[i % len(ops)]])
        x, y = r.choice(l), r.choice(l)
        # often of the same algorithm, table entry or form
        same = [e for e in l if e is not x and e.get(k) == x[k]] if (k := next((k for k in ("code", "via", "form", "kind") if k in x), None)) and r.random() < .5 else []
        if same: y = r.choice(same)
        q = [x, y, crossed(r, x, y), crossed(r, y, x)]
        yield from (r.sample(q, 4) if r.random() < .5 else q)

def related(r, ops):
    """the same calls, some followed by one that has part of what an earlier one had, and by themselves again"""
    last = {}
    for e in ops:
        yield e
        s = shape(e)
        y = last.get(s)
        if y and r.random() < .12 and not costly(e):
            yield y
            x = crossed(r, e, y)
            if x is not e and x is not y: yield x
            yield e
        if r.random() < .5: last[s] = e
