"""Histories of witnessed and delegated identifiers followed by one validator."""
from .util import *
from . import kel, sad

class World:
    def __init__(self, r, big=False):
        self.r, self.ops, self.made = r, [], []
        n = r.randrange(8, 15) + (16 if big else 0)
        self.suites = [r.choice(kel.SUITES) for _ in range(n)]
        self.ops.append({"op": "kw.open", "new": True, "seeds": [{"code": T(c), "seed": L(bytes([r.randrange(1, 128)]) + r.randbytes(31))} for c in self.suites]})
        k = list(range(1, n + 1))
        r.shuffle(k)
        cut = 18 if big else 5
        self.witnesses, self.free = k[:cut if big else r.randrange(2, 6)], k[cut:]
        self.ids = []
    def take(self, n):
        r = self.r
        return [self.free.pop() if self.free and r.random() < .8 else r.randrange(1, len(self.suites) + 1) for _ in range(n)]
    def make(self, **c):
        d = {"t": "icp", "code": "E", "i": 0, "sn": 0, "prior": 0, "keys": [], "fix": False, "kt": '"1"', "next": [], "nt": '"1"', "wits": [], "cut": [], "add": [], "toad": 0, "di": 0, "seals": []}
        d.update(c)
        self.ops.append({"op": "kw.make", **{k: T(v) if k in ("code", "kt", "nt") else v for k, v in d.items()}})
        self.made.append(d)
        return len(self.made)
    def send(self, ev, sigs, rcts=(), points=(), hurt=None):
        self.ops.append({"op": "kw.send", "ev": ev, "sigs": sigs, "rcts": [{"named": x["key"], **x} for x in rcts], "points": list(points), "order": self.r.choice([[1, 2, 3], [1, 3, 2], [3, 2, 1], [2, 1, 3], [3, 1, 2], [2, 3, 1]]), "hurt": O(hurt)})

def receipts(w, wits, toad, ev, extra=True):
    """enough of them, or more"""
    r = w.r
    n = toad if r.random() < .6 or not extra else r.randrange(toad, len(wits) + 1)
    out = []
    for p in r.sample(range(len(wits)), n):
        c = r.random() < .5
        out.append({"key": wits[p], "at": r.choice([0, p]) if c else p, "couple": c, "over": ev})
        if r.random() < .15:                    # said twice, in the other manner
            out.append({"key": wits[p], "at": p, "couple": not c, "over": ev})
    if r.random() < .15:                        # one that adds nothing
        out.append({"key": r.choice(w.witnesses), "at": r.randrange(4), "couple": r.random() < .5, "over": r.randrange(1, len(w.made) + 1)})
    r.shuffle(out)
    return out
def spoil(w, rcts, wits, ev):
    r = w.r
    s = [dict(x) for x in rcts]
    if not s: return s
    g = s[r.randrange(len(s))]
    x = r.randrange(10)
    if x == 0: s.remove(g)
    elif x == 7:                                # one stands for all, or for one that is missing
        s = [g] + [{**g, "at": i, "couple": False} for i in range(len(wits)) if r.random() < .8]
    elif x == 8: s = [g] + [{**g, "couple": True, "named": k} for k in wits if r.random() < .8]
    elif x == 9:
        h = s[r.randrange(len(s))]
        if h is not g: s.remove(h)
        s.append({**g, "at": h["at"], "couple": h["couple"], "named": h["key"]})
    elif x == 1: g["over"] = r.randrange(1, len(w.made) + 1)
    elif x == 2: g["key"] = r.randrange(1, len(w.suites) + 1)
    elif x == 3: g["at"] = r.choice([g["at"] + 1, len(wits), 0, 63, 64, 4095]); g["couple"] = False
    elif x == 4: g["key"] = s[0]["key"]; g["at"] = s[0]["at"]
    elif x == 5: s = [dict(g) for _ in s]
    else: s = []
    return s
class Id:
    """an identifier as its owner sees it"""
    def __init__(self, w, boss=None):
        r = w.r
        self.w, self.boss = w, boss
        self.wits = r.sample(w.witnesses, r.choice([0, 0, 1, 2, 3, len(w.witnesses)]) % (len(w.witnesses) + 1))
        self.toad = r.randrange(1, len(self.wits) + 1) if self.wits else 0
        self.keys, self.next = w.take(r.choice([1, 1, 2])), w.take(r.choice([1, 1, 2]))
        self.kt, self.need = kel.thr(r, len(self.keys))
        self.nt, self.nneed = kel.thr(r, len(self.next))
        self.last, self.sn, self.first = 0, -1, 0
    def inception(self):
        w, r = self.w, self.w.r
        code = r.choice(sad.DC) if r.random() < .25 else "E"
        if len(self.keys) == 1 and not self.boss and r.random() < .2: code = kel.BASIC[w.suites[self.keys[0] - 1]][0]
        return dict(t="dip" if self.boss else "icp", code=code, keys=self.keys, kt=self.kt, next=self.next, nt=self.nt, wits=self.wits, toad=self.toad, di=self.boss.first if self.boss else 0)
    def following(self, kind, seals=()):
        w, r = self.w, self.w.r
        c = dict(t=kind, i=self.first, sn=self.sn + 1, prior=self.last, seals=list(seals))
        if kind == "ixn": return c, {}
        keys = list(self.next) + (w.take(1) if r.random() < .2 else [])
        kt, need = kel.thr(r, len(keys))
        nx = w.take(r.choice([1, 1, 2]))
        nt, nneed = kel.thr(r, len(nx))
        cut = r.sample(self.wits, r.randrange(len(self.wits) + 1)) if r.random() < .6 else []
        rest = [x for x in w.witnesses if x not in self.wits]
        add = r.sample(rest, r.randrange(len(rest) + 1)) if r.random() < .6 else []
        wits = [x for x in self.wits if x not in cut] + add
        toad = r.randrange(1, len(wits) + 1) if wits else 0
        c.update(keys=keys, kt=kt, next=nx, nt=nt, cut=cut, add=add, toad=toad)
        return c, dict(keys=keys, kt=kt, need=need, next=nx, nt=nt, nneed=nneed, wits=wits, toad=toad)
    def sigs(self, then, ev):
        """by enough keys, exposing enough of those committed to"""
        keys = then.get("keys", self.keys)
        pos = set(then.get("need", self.need))
        out = []
        if then:
            for o in self.nneed:
                i = keys.index(self.next[o])
                pos.discard(i)
                out.append(kel.sig(self.next[o], i, ev, None if o == i else o))
        return out + [kel.sig(keys[i], i, ev) for i in sorted(pos)]
    def done(self, ev, then):
        for k, v in then.items(): setattr(self, k, v)
        self.last, self.sn = ev, self.sn + 1
        if not self.first: self.first = ev
def wrong(w, c, me):
    """an event that says something it should not"""
    r = w.r
    c = dict(c)
    x = r.randrange(9)
    inc = c["t"] in ("icp", "dip")
    if x == 0: c["toad"] = c.get("toad", 0) + r.choice([1, 2, 16])
    elif x == 1: c["toad"] = 0
    elif x == 2 and inc and c.get("wits"): c["wits"] = c["wits"] + [r.choice(c["wits"])]
    elif x == 3 and not inc: c["cut"] = [r.choice(w.witnesses)] + c.get("cut", [])
    elif x == 4 and not inc: c["add"] = [r.choice(w.witnesses)] + c.get("add", [])
    elif x == 5 and c["t"] in ("rot", "drt"): c["t"] = {"rot": "drt", "drt": "rot"}[c["t"]]
    elif x == 6 and c["t"] == "dip": c["di"] = r.choice([0] + [i + 1 for i in range(len(w.made))])
    elif x == 7 and not inc: c["prior"] = r.randrange(1, len(w.made) + 1)
    elif c["t"] == "ixn": c["sn"] += r.choice([1, -1]) if c["sn"] else 1
    else: c["toad"] = c.get("toad", 0) + 1
    return c

def histories(r, n):
    for _ in range(n):
        big = r.random() < .06                      # numbers of two digits
        w = World(r, big)
        ids = [Id(w)]
        if big:
            ids[0].wits = list(w.witnesses)
            ids[0].toad = r.choice([10, 15, 16, 17, 18])
        for _ in range(r.randrange(0, 3)): ids.append(Id(w, r.choice(ids) if r.random() < .75 else None))
        waiting, sent = list(ids), []
        def step(me, kind=None, seals=()):
            """make and send the next event of an identifier, honestly or not so at first"""
            inc = not me.first
            c, then = (me.inception(), {}) if inc else me.following(kind, seals)
            if inc: c["seals"] = list(seals)
            honest = r.random() < .5
            if not honest and r.random() < .5:
                x = wrong(w, c, me)
                e = w.make(**x)
                wits = x.get("wits", []) if inc else [y for y in me.wits if y not in x.get("cut", [])] + x.get("add", [])
                w.send(e, me.sigs(then, e) if not inc else [kel.sig(me.keys[i], i, e) for i in me.need], receipts(w, wits, min(len(wits), x.get("toad", me.toad)), e), [j + 1 for j in range(len(w.made)) if r.random() < .2])
            ev = w.make(**c)
            wits, toad = then.get("wits", me.wits), then.get("toad", me.toad)
            sigs = [kel.sig(me.keys[i], i, ev) for i in me.need] if inc else me.sigs(then, ev)
            rc = receipts(w, wits, toad, ev)
            points = []
            if c["t"] in ("dip", "drt"):
                if r.random() < .3: w.send(ev, sigs, rc, [r.randrange(1, len(w.made) + 1)] if r.random() < .5 else [])     # too early
                if me.boss.first:
                    # the delegator approves it, or something else
                    wr = [ev] if r.random() < .85 else [r.randrange(1, len(w.made) + 1)]
                    if r.random() < .2: wr.append(r.randrange(1, len(w.made) + 1))
                    r.shuffle(wr)
                    b = me.boss
                    p = step(b, "ixn" if r.random() < .7 else ("drt" if b.boss else "rot"), wr)
                    points = [p]
                    if r.random() < .2: points.insert(r.randrange(2), r.randrange(1, len(w.made) + 1))
            elif r.random() < .1: points = [r.randrange(1, len(w.made) + 1)]
            if not honest:
                x = r.random()
                if x < .35: w.send(ev, sigs, spoil(w, rc, wits, ev), points)
                elif x < .5: w.send(ev, kel.spoil_sigs(type("H", (), {"r": r, "suites": w.suites, "made": w.made}), sigs, ev, {"keys": me.keys}, {"keys": then.get("keys", me.keys)}), rc, points)
                elif x < .7 and points: w.send(ev, sigs, rc, [r.randrange(1, len(w.made) + 1)])
                else: w.send(ev, sigs, rc, points, kel.hurt(r))
            w.send(ev, sigs, rc, points)
            # what the owner believes: it may turn out otherwise
            me.done(ev, then)
            sent.append((ev, sigs, rc, points))
            return ev
        for me in ids:
            if me.boss and not me.boss.first: continue
            step(me)
            if big and me is ids[0] and r.random() < .7:
                me.wits and step(me, "rot")
                for _ in range(r.choice([9, 15, 16])):
                    c, then = me.following("ixn")
                    ev = w.make(**c)
                    rc = receipts(w, me.wits, me.toad, ev, False)
                    w.send(ev, me.sigs(then, ev), rc)
                    me.done(ev, then)
        for _ in range(r.randrange(2, 6)):
            me = r.choice([i for i in ids if i.first])
            step(me, r.choice(["ixn", "rot", "rot"]) if not me.boss else r.choice(["ixn", "drt", "drt", "rot"]))
            if r.random() < .15: w.send(*r.choice(sent))
        w.ops.append({"op": "kw.all"})
        yield from w.ops
