"""Histories of credentials: issued, presented, chained, disclosed and revoked, honestly or not."""
from .util import *
from . import kel, sad

PATHS = [[], ["d"], ["1"], ["a"], ["a", "d"], ["a", "i"], ["i"], ["ri"], ["s"], ["e"], ["e", "d"], ["e", "e1"], ["e", "e1", "n"], ["e", "e2", "n"], ["p"], ["zz"], ["0"], ["4", "d"], ["a", "n"], ["e", "e1", "s"]]
class World:
    def __init__(self, r):
        self.r, self.ops, self.made = r, [], []
        n = r.randrange(3, 8)
        self.suites = [r.choice(kel.SUITES) for _ in range(n)]
        self.schemas = r.randrange(1, 4)
        self.ops.append({"op": "kc.open", "new": True, "schemas": self.schemas, "seeds": [{"code": T(c), "seed": L(bytes([r.randrange(1, 128)]) + r.randbytes(31))} for c in self.suites]})
        self.free = list(range(1, n + 1))
        r.shuffle(self.free)
        self.issuers, self.regs, self.held, self.sent = [], [], [], []
    def key(self): return self.free.pop() if self.free and self.r.random() < .85 else self.r.randrange(1, len(self.suites) + 1)
    def make(self, **c):
        d = {"t": "", "by": 0, "reg": 0, "cred": 0, "prior": 0, "says": 0, "schema": 0, "form": "obj", "to": 0, "edges": [], "code": "E", "bad": "", "keys": [], "kt": '"1"'}
        d.update(c)
        self.ops.append({"op": "kc.make", **{k: T(v) if k in ("code", "kt") else v for k, v in d.items()}})
        self.made.append(d)
        return len(self.made)
    def of(self, *ts):
        """an event of one of these kinds"""
        c = [i + 1 for i, d in enumerate(self.made) if d["t"] in ts]
        return self.r.choice(c) if c else 0
    def send(self, ev, sigs, hurt=None):
        self.ops.append({"op": "kc.send", "ev": ev, "sigs": sigs, "hurt": O(hurt)})
        if hurt is None: self.sent.append(self.ops[-1])
    def present(self, ev, groups, hurt=None):
        self.ops.append({"op": "kc.present", "ev": ev, "groups": groups, "hurt": O(hurt)})
        if hurt is None: self.sent.append(self.ops[-1])

def esigs(w, who, ev, extra=True):
    r = w.r
    ps = set(who["need"])
    if extra and r.random() < .3: ps |= {r.randrange(len(who["keys"]))}
    return [{"key": who["keys"][i], "index": i, "over": ev} for i in sorted(ps)]
def spoil(w, who, sigs, ev):
    r = w.r
    s = [dict(x) for x in sigs]
    x = r.randrange(7)
    if not s: return s
    g = r.choice(s)
    if x == 0: s.remove(g)
    elif x == 1: g["key"] = r.randrange(1, len(w.suites) + 1)
    elif x == 2: g["over"] = r.randrange(1, len(w.made) + 1)
    elif x == 3: g["index"] = r.choice([g["index"] + 1, 0, 63, 64, 4095])
    elif x == 4: s = [{**g, "index": i} for i in range(len(who["keys"]))]
    elif x == 5: s = [dict(g) for _ in s]
    else:
        o = r.choice(w.issuers or [who])
        s = [{"key": k, "index": i, "over": ev} for i, k in enumerate(o["keys"])]
    return s
def attempt(w, c, who, also):
    """an event of a registry or issuer: perhaps wrong or damaged first, then as it should be"""
    r = w.r
    if r.random() < .2:
        b = dict(c)
        for l in r.sample(also, 1):
            b[l] = {"by": w.of("icp"), "reg": w.of("vcp", "vcp", "icp"), "cred": w.of("cred", "iss", "icp"), "prior": w.of("iss", "rev", "cred"), "says": (b.get("says", 0) + 1) % 9}[l] or b.get(l, 0)
        e = w.make(**b)
        w.send(e, esigs(w, who, e))
        if w.made[e - 1]["t"] == "iss" and False: return e
    e = w.make(**c)
    s = esigs(w, who, e)
    x = r.random()
    if x < .2: w.send(e, spoil(w, who, s, e))
    elif x < .3: w.send(e, s, kel.hurt(r))
    w.send(e, s)
    return e
def issuer(w):
    r = w.r
    keys = [w.key() for _ in range(r.choice([1, 1, 2, 3]))]
    kt, need = kel.thr(r, len(keys))
    who = {"keys": keys, "kt": kt, "need": need}
    who["ev"] = attempt(w, dict(t="icp", keys=keys, kt=kt), who, ["says"])
    w.issuers.append(who)
    return who
def registry(w, who):
    reg = {"ev": attempt(w, dict(t="vcp", by=who["ev"], says=w.r.randrange(9)), who, ["by", "says"]), "who": who}
    w.regs.append(reg)
    return reg
def groups(w, who, ev, over=None):
    """enough signatures over the whole, or its identifier"""
    r = w.r
    over = over or ev
    path = r.choice([[], ["d"]])
    root, rest = r.choice([([], path), (path, [])])
    sigs = [{**g, "part": r.choice([["d"], ["1"]]) if path else [], "over": over} for g in esigs(w, who, ev)]
    return [{"root": root, "paths": [{"path": rest, "by": who["ev"], "sigs": sigs}]}]
def others(w, who, ev, gs):
    """groups that add nothing, before, behind or between"""
    r = w.r
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        o = r.choice(w.issuers)
        p = r.choice(PATHS)
        q = {"path": p, "by": o["ev"], "sigs": [{"key": k, "index": i, "over": ev, "part": r.choice([p, [], ["d"]])} for i, k in enumerate(o["keys"])]}
        if r.random() < .5: gs = gs + [{"root": [], "paths": [q]}]
        elif r.random() < .5: gs = [{"root": [], "paths": [q]}] + gs
        else:
            g = dict(r.choice(gs))
            gs = [{**x, "paths": [{**q, "path": r.choice([[], p])}] + x["paths"]} if x == g else x for x in gs]
    return gs
def spoil_groups(w, who, ev, gs):
    r = w.r
    gs = [{**g, "paths": [{**q, "sigs": [dict(a) for a in q["sigs"]]} for q in g["paths"]]} for g in gs]
    g = r.choice(gs)
    q = r.choice(g["paths"])
    x = r.randrange(11)
    if x >= 9:                  # what is named already, named once more below it
        q["path"] = (g["root"] or q["path"] or ["d"]) + r.choice([[], q["path"]])
        if not g["root"]: g["root"] = r.choice([["d"], q["path"][:1]])
    elif x == 0:
        k = r.choice(["root", "path"])
        if k == "root": g["root"] = r.choice(PATHS)
        else: q["path"] = r.choice(PATHS)
    elif x == 1: q["by"] = w.of("icp")
    elif x == 2: q["by"] = r.randrange(1, len(w.made) + 1)
    elif x == 3:
        for a in q["sigs"]: a["part"] = r.choice(PATHS)
    elif x == 4:
        o = r.randrange(1, len(w.made) + 1)
        p = r.choice(PATHS)
        for a in q["sigs"]: a["over"], a["part"] = o, p
    elif x == 5: gs = []
    elif x == 6:                # what is needed, in two halves
        if len(q["sigs"]) > 1: g["paths"] = [{**q, "sigs": q["sigs"][:1]}, {**q, "sigs": q["sigs"][1:]}]
        else: q["sigs"] = []
    else: q["sigs"] = [{**a, "part": a.get("part", [])} for a in spoil(w, who, q["sigs"], ev)]
    return gs
def credential(w, reg=None, edges=(), schema=None, **also):
    r = w.r
    reg = reg or r.choice(w.regs)
    c = dict(t="cred", by=reg["who"]["ev"], reg=reg["ev"], schema=schema or r.randrange(1, w.schemas + 1), form=r.choice(["obj", "obj", "said"]), to=r.choice([0, w.of("icp"), w.of("icp")]), says=r.randrange(9),
             edges=list(edges), code=r.choice(sad.DC) if r.random() < .2 else "E")
    c.update(also)
    return c, reg
def wrong(w, c):
    r = w.r
    c = dict(c)
    x = r.randrange(9)
    if x == 0: c["bad"] = "subject"
    elif x == 1: c["bad"] = "edges"
    elif x == 2: c["bad"] = "said"
    elif x == 3: c["by"] = w.of("icp")
    elif x == 4: c["reg"] = w.of("vcp", "icp")
    elif x == 5: c["schema"] = w.schemas + 1
    elif x == 6 and c["edges"]: c["edges"] = [{**z, "s": z["s"] % (w.schemas + 1) + 1} for z in c["edges"]]
    elif x == 7: c["edges"] = c["edges"] + [{"n": r.randrange(1, len(w.made) + 1), "s": r.randrange(1, w.schemas + 1)}] if len(c["edges"]) < 4 else c["edges"]
    else: c["says"] = (c["says"] + 1) % 9
    return c
def life(w, c, reg):
    """made, issued and presented"""
    r = w.r
    who = reg["who"]
    if r.random() < .35:
        b = wrong(w, c)
        e = w.make(**b)
        if r.random() < .8: w.send(*(lambda i: (i, esigs(w, who, i)))(w.make(t="iss", reg=reg["ev"], cred=e, says=r.randrange(9))))
        o = next((i for i in w.issuers if i["ev"] == b["by"]), who)
        w.present(e, groups(w, r.choice([who, o]), e))
    e = w.make(**c)
    gs = groups(w, who, e)
    if r.random() < .2: w.present(e, gs)                  # before anyone said it was issued
    iss = attempt(w, dict(t="iss", reg=reg["ev"], cred=e, says=r.randrange(9)), who, ["reg", "cred", "says"])
    for _ in range(r.choice([0, 1, 1, 2])):
        if r.random() < .7: w.present(e, spoil_groups(w, who, e, gs))
        else: w.present(e, gs, kel.hurt(r))
    w.present(e, others(w, who, e, gs))
    h = {"ev": e, "iss": iss, "reg": reg, "c": c}
    w.held.append(h)
    return h
def revoke(w, h):
    r = w.r
    return attempt(w, dict(t="rev", reg=h["reg"]["ev"], cred=h["ev"], prior=h["iss"], says=r.randrange(9)), h["reg"]["who"], ["reg", "cred", "prior"])
def show(w, h):
    r = w.r
    of = h["ev"]
    x = r.random()
    if x < .2: of = w.of("cred")
    elif x < .45: of = w.make(**{**h["c"], **r.choice([{"form": "obj"}, {"says": (h["c"]["says"] + 1) % 9}, {"bad": "subject"}, {"bad": "said"}, {"to": w.of("icp")}, {"to": 0}, {"form": "obj", "bad": "subject"}])})
    w.ops.append({"op": "kc.show", "ev": h["ev"], "of": of, "hurt": O(kel.hurt(r) if r.random() < .15 else None)})

def histories(r, n):
    for _ in range(n):
        w = World(r)
        for _ in range(r.randrange(1, 4)): registry(w, issuer(w))
        if r.random() < .3: registry(w, r.choice(w.issuers))
        for _ in range(r.randrange(2, 6)):
            x = r.random()
            if x < .4 or not w.held: life(w, *credential(w))
            elif x < .7:
                # resting on others
                reg = r.choice(w.regs)
                fit = [h for h in w.held if h["c"]["form"] == "said" or h["c"]["to"] in (0, reg["who"]["ev"])] if r.random() < .85 else w.held
                pick = r.sample(fit, min(len(fit), r.choice([1, 1, 2, 3])))
                life(w, *credential(w, reg, [{"n": h["ev"], "s": h["c"]["schema"]} for h in pick]))
            elif x < .8: show(w, r.choice(w.held))
            elif x < .95:
                h = r.choice(w.held)
                revoke(w, h)
                if r.random() < .5: attempt(w, dict(t="iss", reg=h["reg"]["ev"], cred=h["ev"], says=r.randrange(9)), h["reg"]["who"], ["reg", "says"])   # no way back
                if r.random() < .5: w.present(h["ev"], groups(w, h["reg"]["who"], h["ev"]))
            else: w.ops.append({**r.choice(w.sent)})
        if r.random() < .4: show(w, r.choice(w.held))
        w.ops.append({"op": "kc.all"})
        yield from w.ops
