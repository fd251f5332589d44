"""Histories of key events: honest ones, and what may befall them."""
from .util import *
from . import sad
import json as _j

SUITES = ["A", "A", "J", "Q"]
BASIC = {"A": ("D", "B"), "J": ("1AAB", "1AAA"), "Q": ("1AAJ", "1AAI")}

def thr(r, n):
    """(threshold text, positions that make it)"""
    if n == 0: return r.choice(['"0"', '"1"']), []
    x = r.random()
    if x < .55:
        m = r.randrange(1, n + 1)
        return r.choice([f'"{m:x}"', f'"{m:x}"', str(m)]), sorted(r.sample(range(n), m))
    if x < .8:
        d = r.randrange(1, n + 1)
        return _j.dumps([f"1/{d}" if d > 1 else "1"] * n, separators=(",", ":")), sorted(r.sample(range(n), d))
    # several clauses
    cut = r.randrange(1, n) if n > 1 else 1
    cs, need, at = [], [], 0
    for k in ([cut, n - cut] if n > 1 else [1]):
        d = r.randrange(1, k + 1)
        cs.append([f"1/{d}" if d > 1 else "1"] * k)
        need += r.sample(range(at, at + k), d)
        at += k
    return _j.dumps(cs, separators=(",", ":")), sorted(need)

class History:
    def __init__(self, r, nseeds=None):
        self.r, self.ops = r, []
        n = nseeds or r.randrange(3, 8)
        self.suites = [r.choice(SUITES) for _ in range(n)]
        self.ops.append({"op": "kl.open", "new": True, "seeds": [{"code": T(c), "seed": L(bytes([r.randrange(1, 128)]) + r.randbytes(31))} for c in self.suites]})
        self.made = []
        self.free = list(range(1, n + 1))
        r.shuffle(self.free)
        self.head = 0
    def take(self, k):
        r = self.r
        t = []
        for _ in range(k):
            t.append(self.free.pop() if self.free and r.random() < .9 else r.randrange(1, len(self.suites) + 1))
        return t
    def make(self, **c):
        d = {"t": "icp", "code": "E", "i": 0, "sn": 0, "prior": 0, "keys": [], "fix": False, "kt": '"1"', "next": [], "nt": '"0"', "tag": 0}
        d.update(c)
        self.ops.append({"op": "kl.make", **{k: T(v) if k in ("code", "kt", "nt") else v for k, v in d.items()}})
        s = self.suites
        if d["t"] in ("icp", "dip") and d["i"] == 0 and d["code"] not in sad.DC:
            one = len(d["keys"]) == 1 and d["code"] == BASIC[s[d["keys"][0] - 1]][1 if d["fix"] else 0]
            if not one or (d["fix"] and (d["next"] or d["tag"])): return None
        self.made.append(d)
        return len(self.made)
    def send(self, ev, sigs, hurt=None):
        self.ops.append({"op": "kl.send", "ev": ev, "sigs": sigs, "hurt": O(hurt)})
    def any(self):
        return self.r.choice([i + 1 for i, c in enumerate(self.made) if c])
    def all(self):
        self.ops.append({"op": "kl.all"})

def sig(key, index, over, ondex=None, only=False):
    return {"key": key, "index": index, "ondex": O(ondex), "only": only, "over": over}

def rotation(h, now):
    """keys, commitment and the signatures that carry a rotation out of the state now"""
    r = h.r
    nx = now["next"]
    keys = list(nx)
    if r.random() < .3:                                     # others added, or moved about
        keys += h.take(r.randrange(1, 3))
        if r.random() < .5: r.shuffle(keys)
    elif r.random() < .2 and len(keys) > 1 and len(now["nneed"]) < len(keys):     # a part exposed only
        keys = [nx[i] for i in now["nneed"]]
    return keys

def signing(h, now, keys, need, ev, rot):
    r = h.r
    pos = set(need)
    out = []
    if rot:
        for o in now["nneed"]:
            k = now["next"][o]
            i = keys.index(k) if k in keys else None
            if i is None: continue
            pos.discard(i)
            out.append(sig(k, i, ev, None if o == i and r.random() < .6 else o))
    for i in sorted(pos):
        out.append(sig(keys[i], i, ev, only=r.random() < .5))
    if r.random() < .3: r.shuffle(out)
    return out

def state0(): return {"keys": [], "need": [], "next": [], "nneed": [], "sn": -1, "last": 0, "pre": 0}

def inception(h, **force):
    r = h.r
    x = r.random()
    if x < .25:
        k = h.take(1)
        fix = r.random() < .25
        code = BASIC[h.suites[k[0] - 1]][1 if fix else 0]
        nx = [] if fix else h.take(r.choice([0, 1, 1, 2]))
        kt, need = r.choice(['"1"', "1", '["1"]']), [0]
    else:
        k = h.take(r.choice([1, 1, 2, 2, 3]))
        fix = r.random() < .06
        code = r.choice(sad.DC) if r.random() < .3 else "E"
        nx = h.take(r.choice([0, 1, 1, 1, 1, 2, 2, 2, 3]))
        kt, need = thr(r, len(k))
    nt, nneed = thr(r, len(nx))
    c = {"t": r.choice(["icp", "icp", "dip"]), "code": code, "keys": k, "fix": fix, "kt": kt, "next": nx, "nt": nt, "tag": r.choice([0, 0, 5])}
    if fix and code not in sad.DC: c["tag"] = 0
    c.update(force)
    return c, {"keys": k, "need": need, "next": nx, "nneed": nneed, "sn": 0, "last": 0, "pre": 0}

def following(h, now, kind=None):
    r = h.r
    kind = kind or r.choice(["ixn", "ixn", "rot", "rot", "drt"])
    c = {"t": kind, "i": now["pre"], "sn": now["sn"] + 1, "prior": now["last"], "tag": r.choice([0, 1, 2, 7])}
    if kind == "ixn": return c, {**now, "sn": now["sn"] + 1}
    keys = rotation(h, now)
    kt, need = thr(r, len(keys))
    nx = h.take(r.choice([0, 1, 1, 2, 2, 3])) if r.random() < .95 else []
    nt, nneed = thr(r, len(nx))
    c.update(keys=keys, kt=kt, next=nx, nt=nt, fix=r.random() < .04)
    return c, {"keys": keys, "need": need, "next": nx, "nneed": nneed, "sn": now["sn"] + 1, "last": 0, "pre": now["pre"]}

def spoil_sigs(h, sigs, ev, now, then):
    """signatures that should not do"""
    r = h.r
    s = [dict(x) for x in sigs]
    x = r.randrange(11)
    n = len(h.suites)
    if x == 0: s = s[:-1]                                              # one short
    elif x == 1 and s: s = s[:-1] + [dict(s[0])]                       # one counted twice
    elif x == 2 and s: s[-1]["key"] = r.randrange(1, n + 1)            # another's key
    elif x == 3 and s: s[-1]["over"] = r.randrange(1, len(h.made) + 1) # of something else
    elif x == 4 and s: s[-1]["index"] = r.choice([0, 1, 2, 3, 63, 64, 4095])
    elif x == 5 and s: s[-1]["ondex"] = [r.choice([0, 1, 2, 3, 64])]; s[-1]["only"] = False
    elif x == 6 and s: s[-1]["only"] = True; s[-1]["ondex"] = []
    elif x == 7: s = []
    elif x == 10 and s:                                                # one stands for all
        g = r.choice(s)
        s = [g] + [{**g, "index": i, "ondex": [], "only": False} for i in range(len(then["keys"])) if i != g["index"]]
    elif x == 8 and now["keys"]: s = [sig(k, i, ev) for i, k in enumerate(now["keys"])]     # the keys before
    else: s = [{**y, "index": (y["index"] + 1) % max(1, len(then["keys"]))} for y in s]
    return s

def spoil_event(h, c, now):
    r = h.r
    c = dict(c)
    x = r.randrange(9)
    if c["t"] in ("icp", "dip"):
        c[("sn", "tag", "fix")[x % 3]] = (1, 9, True)[x % 3]
        return c
    if x == 0: c["sn"] += r.choice([1, -1, 16, 2])
    elif x == 1: c["sn"] = 0
    elif x == 2: c["prior"] = h.any()
    elif x == 3: c["prior"] = 0
    elif x == 4: c["i"] = h.any()
    elif x == 5 and c.get("keys"): c["keys"] = h.take(len(c["keys"]))
    elif x == 6 and c.get("keys"): c["kt"] = f'"{len(c["keys"]) + 1}"'
    elif x == 7 and c.get("keys"): c["nt"] = f'"{len(c["next"]) + 1}"'
    else: c["t"] = r.choice(["icp", "dip", "rot", "ixn"])
    if c["t"] in ("icp", "dip", "rot") and not c.get("keys"): c.update(keys=now["keys"], kt='"1"', next=h.take(1), nt='"1"')
    if c["sn"] < 0: c["sn"] = 3
    return c

FORGE = [("k", lambda r: _j.dumps([])), ("kt", lambda r: r.choice(['"0"', '"1"', '"2"', '["1/2","1/2"]', '[]', 'null', '"zz"', '"-1"'])), ("n", lambda r: "[]"), ("nt", lambda r: r.choice(['"0"', '"1"'])),
         ("t", lambda r: r.choice(['"icp"', '"rot"', '"ixn"', '"vcp"', '"rct"', 'null', '""'])), ("s", lambda r: r.choice(['"0"', '"1"', '"2"', '"01"', '"g"', '""', '1', '"-1"'])), ("p", lambda r: r.choice(['""', 'null', '"E"'])),
         ("i", lambda r: r.choice(['""', 'null', '5'])), ("a", lambda r: r.choice(['[]', 'null', '[{"x":1}]', '{}'])), ("d", lambda r: '""'), ("x", lambda r: '1'), ("v", lambda r: r.choice(['"KERI10JSON0000ff_"', '"ACDC10JSON000000_"', '"KERI11JSON000000_"', '"KERI10CBOR000000_"']))]

def histories(r, n):
    for _ in range(n):
        h = History(r)
        c, then = inception(h)
        if r.random() < .08: c = spoil_event(h, c, state0())
        ev = h.make(**c)
        if ev is None:
            c["code"] = "E"
            ev = h.make(**c)
        then["last"] = then["pre"] = ev
        good = signing(h, state0(), then["keys"], then["need"], ev, False)
        if r.random() < .15: h.send(ev, spoil_sigs(h, good, ev, state0(), then))
        if r.random() < .1: h.send(ev, good, hurt(r))
        h.send(ev, good)
        now = then
        sent = [(ev, good)]
        for _ in range(r.randrange(1, 6)):
            if r.random() < .15:                        # a rival inception, or a replay
                if r.random() < .5:
                    c2, t2 = inception(h)
                    e2 = h.make(**c2)
                    if e2: h.send(e2, signing(h, state0(), t2["keys"], t2["need"], e2, False))
                else: h.send(*r.choice(sent))
            kind = None
            if not now["next"] and r.random() < .7: break
            if not now["next"] and r.random() < .7: kind = "ixn"
            c, then = following(h, now, kind)
            honest = r.random() < .6
            if not honest and r.random() < .5:
                w = spoil_event(h, c, now)
                e2 = h.make(**w)
                if e2: h.send(e2, signing(h, now, w.get("keys") or now["keys"], then["need"], e2, c["t"] in ("rot", "drt")))
            if not honest and r.random() < .25:         # said anew by someone without the keys, and under the old signatures
                e2 = h.make(**c)
                l, v = r.choice(FORGE)
                drop = r.random() < .2
                h.ops.append({"op": "kl.forge", "ev": e2, "set": [] if drop else [[T(l), T(v(r))]], "del": [T(l)] if drop else [], "resaid": r.random() < .6})
                h.made.append(None)
                h.send(len(h.made), signing(h, now, then["keys"], then["need"], r.choice([e2, len(h.made), len(h.made)]), c["t"] in ("rot", "drt")))
            ev = h.make(**c)
            then["last"] = ev
            good = signing(h, now, then["keys"], then["need"], ev, c["t"] in ("rot", "drt"))
            if not honest:
                for _ in range(r.randrange(1, 3)): h.send(ev, spoil_sigs(h, good, ev, now, then))
            if r.random() < .25: h.send(ev, good, hurt(r))
            if r.random() < .12: h.ops.append({"op": "kl.all"})
            h.send(ev, good)
            sent.append((ev, good))
            if not c.get("fix"): now = then
        if r.random() < .3: h.send(*r.choice(sent))
        h.all()
        yield from h.ops

def hurt(r):
    w = r.choice(["put", "put", "put", "cut", "add", "drop"])
    return {"what": w, "at": r.randrange(5000), "to": r.choice([r.randrange(256), ord(r.choice(B64)), ord(r.choice('0123456789abcdef"'))])}
