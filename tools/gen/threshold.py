"""Scripts over signing thresholds."""
from .util import *
from . import codec
import json as _j
from fractions import Fraction as F

def D(v): return T(_j.dumps(v, separators=(",", ":"), ensure_ascii=False))
BIG = 2 ** 31 - 1

def wtext(r):
    x = r.random()
    if x < .1: return r.choice(["0", "1"])
    if x < .2: return r.choice(["0/1", "1/1", "2/2", "0/7", "3/3"])
    d = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 100, r.randrange(1, 50), r.randrange(1, 2000)])
    if x > .97: d = r.choice([BIG, BIG - 1, 2 ** 30, 1000003, 65537])
    return f"{r.randrange(0, d + 1)}/{d}"

def tight(r):
    """a clause whose weights add up to one exactly, or miss it by very little"""
    k = r.randrange(2, 6)
    d = r.choice([k, 6, 12, 60, 97, 1000, 999983, BIG])
    if d < k: d = k
    cuts = sorted(r.randrange(0, d + 1) for _ in range(k - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [d])]
    m = r.random()
    if m < .25:
        i = r.randrange(k)
        if parts[i] > 0: parts[i] -= 1
    elif m < .4 and k >= 3:
        # thirds and the like: different denominators
        return r.choice([["1/2", "1/3", "1/6"], ["1/3", "1/3", "1/3"], ["2/3", "1/3", "0"], ["1/7"] * 7, ["1/49"] * 48 + ["1/48"], ["1/2", "1/4", "1/8", "1/16", "1/16"],
                         ["1/3", "1/3", "333333333/1000000000"], ["1/10"] * 10, ["1/3", "2/3"], ["0", "1/1"]])
    return [f"{p}/{d}" for p in parts]

def long(r, most=40):
    """a clause of a dozen and more weights, adding up to one exactly or nearly"""
    k = r.choice([11, 12, 13, 16, 17, 20, 24, 31, 32, 33, r.randrange(11, most)])
    d = r.choice([k, 2 * k, 100, 120, 1000])
    cuts = sorted(r.randrange(0, d + 1) for _ in range(k - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [d])]
    if r.random() < .35:
        i = r.choice([i for i in range(k) if parts[i] > 0]); parts[i] -= 1
    return [f"{p}/{d}" for p in parts]

def hair(r):
    """weights that some of the signers all but satisfy"""
    d = r.choice([BIG, BIG - 1, 2 ** 30, 1000000, 10000000, 999983, 1000003, 65537, 2000000000])
    h = r.choice([1, 1, 1, 2])
    a = r.randrange(1, d - h)
    c = [f"{a}/{d}", f"{d - a - h}/{d}", f"{h}/{d}"]
    if r.random() < .4: c.append(f"{r.randrange(d)}/{d}")
    r.shuffle(c)
    return c

def clause(r):
    x = r.random()
    if x < .06: return long(r)
    if x < .12: return hair(r)
    if x < .55: return tight(r)
    return [wtext(r) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 8]))]

def good(r):
    """one that mostly is well-formed"""
    while True:
        c = clause(r)
        s = sum(F(w) for w in c)
        if s >= 1 or r.random() < (.5 if len(c) > 10 else .08): return c

def weighted(r):
    n = r.choice([1, 1, 1, 2, 2, 3, 4])
    cs = [good(r) for _ in range(n)]
    return cs

def size(cs): return sum(len(c) for c in cs)

def positions(r, n):
    k = r.randrange(0, n + 3)
    p = [r.choice([r.randrange(n + 1), r.randrange(n + 1), r.randrange(n + 1), r.randrange(n + 4)]) for _ in range(k)]
    if r.random() < .4: p = list(range(n))
    if r.random() < .3 and p: p.pop(r.randrange(len(p)))
    if r.random() < .3: r.shuffle(p)
    if r.random() < .3 and p: p += [r.choice(p)] * r.randrange(1, 4)
    if r.random() < .08: p.append(r.choice([n, 2 ** 31, 2 ** 32 - 1, 65536, 63, 64, 255, 256]))
    return p

def bext(cs):
    return "a".join("c".join(w.replace("/", "s") for w in c) for c in cs)
def texter(t):
    """text of a Base64 text primitive"""
    ts = len(t) % 4; ws = (4 - ts) % 4; ls = (3 - ts) % 3
    raw = codec.unb64(("A" * ws) + t)[ls:]
    return codec.vartext("A", raw)

def numtext(r, n):
    for c, k in (("M", 2), ("0H", 4), ("N", 8), ("0A", 16)):
        if n < 256 ** k and r.random() < .7 or c == "0A":
            return codec.fixtext(c, n.to_bytes(k, "big"))

def number(r):
    return r.choice([0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 15, 16, 17, 255, 256, 4095, 65535, 65536, 2 ** 31 - 1, r.randrange(2 ** 16), r.randrange(2 ** 31), 2 ** 32, 2 ** 33, 2 ** 63 - 1])

def mention(r):
    """one threshold in one of its forms"""
    x = r.random()
    if x < .3:
        n = number(r)
        f = r.randrange(5)
        if f == 0: return {"form": "sith", "doc": D(n)}
        if f == 1: return {"form": "sith", "doc": D(r.choice(["%x", "%X", "0%x", "000%x"]) % n)}
        if f == 2: return {"form": "thold", "doc": D(n)}
        return {"form": "limen", "limen": T(numtext(r, n) + (codec.matter(r) if r.random() < .1 else ""))}
    cs = weighted(r)
    f = r.randrange(6)
    if f == 0 and len(cs) == 1: return {"form": "sith", "doc": D(cs[0])}
    if f == 1: return {"form": "sith", "doc": D(_j.dumps(cs if len(cs) > 1 or r.random() < .5 else cs[0], separators=r.choice([(",", ":"), (", ", ": ")])))}
    if f == 2: return {"form": "thold", "doc": D(cs)}
    if f == 3: return {"form": "limen", "limen": T(texter(bext(cs)))}
    return {"form": "sith", "doc": D(cs)}

ODD = [None, True, 1.5, -1, "-1", "", "g", " 1", "1 ", "[", "[]", "[[]]", "{}", {}, [], [[]], [1], [None], ["1", 1], ["1", []], [[], "1"], [["1"], "1"], [["1"], []],
       ["1", "-1/2"], ["1", "1/-2"], ["1", "-1/-2"], ["1/2", "1", "-1/2"], ["-1/3", "1", "1/3"], [["1"], ["1", "-1/7"]], ["1", "1", "-1/1"], ["1", "-0/1"], ["1", "0/-1"], ["1", "2/1", "-1"], ["-1", "1", "1"],
       ["1", "3/2"], ["1", "5/0"], ["1", "0/0"], ["1", ""], ["1", "1/"], ["1", "/2"], ["1", "a/2"], ["1", "1/a"], ["1", "1/2/2"], ["1", "+1/2"], ["1", "1/+2"], ["1", "1.5"], ["1", "01"], ["1", "2"], ["1", "-1"], ["1", "4294967297/4294967298"],
       ["2"], ["1/0"], ["0/0"], ["-1/2", "1"], ["1/-2", "1"], ["1/2/3", "1"], ["1/", "1"], ["/1", "1"], ["/", "1"], ["", "1"], ["01", "1"], ["1.0"], ["0.5", "0.5"],
       ["1 /2", "1"], ["3/2", "1"], ["a", "1"], ["é", "1"], ["1/2"], ["1/2", "1/3"], [["1"], ["1/2"]], ["00/1", "1"], ["01/02", "1/2"], ["1/2 ", "1"], [" 1/2", "1"], ["1", " 1/2"], ["1", "1/ 2"], ["1", "1/2 "], ["1", " 1"], ["1", "1 "], ["1", "\t1/2"], ["1", "1/2\n"],
       "[\"1/2\"]", "[\"1/2\",\"1/2\"]", "[[\"1\"],[\"1\"]]", "[1]", "[\"1\"", "[\"1\"]x", " [\"1\"]", "[\"1\"] ", "[ \"1\" ]", "[{}]", "[[[\"1\"]]]", [[["1"]]], [{"a": "1"}],
       "ffffffffffffffff", "7fffffffffffffff", "8000000000000000", "0x1", "1_0", "1.0", 2 ** 63 - 1, -2 ** 63, 1e3, 0, "0", "00", "f", "F", ["0"], ["0", "0"], ["1", "0"], ["1"], ["0/1", "1/1"]]
ODDLIMEN = ["", "M", "MAA", "MAAB", "MAABxx", "4A", "4AAA", "4AABA1s2", "5AABAA1s", "5AABAA", "6AABAAA1", "4AAB1s2c", "-AAB", "_", "é", "EAAA", "0AAAAAAAAAAAAAAAAAAAAAAB", "NAAAAAAAAAAB", "0HAAAAAB"]

def forms(r, n):
    # one expression beyond the small size class, when there is time
    for o in ODD:
        yield {"op": "th.new", "form": "sith", "doc": D(o)}
        yield {"op": "th.new", "form": "thold", "doc": D(o)}
    for o in ODDLIMEN: yield {"op": "th.new", "form": "limen", "limen": T(o)}
    for b in ["1", "0c1", "1a1", "1c", "c1", "a1", "1a", "1s1", "2s1c1", "1s0c1", "1s2s3", "1s", "s1", "x", "11", "01c1", "1-2c1", "-1s2c1", "1s-2c1", "s", "c", "a", "1_1", "0s1c1s1", "A1", "AA1", "A", "1c-1s2", "1c1s-2", "1c-1s-2", "1c3s2", "1c0s0", "1c2", "1c-1", "1s2c1s2a1s3c2s3"] + (["c".join(["1s9"] * 3200)] if n > 50000 else []):
        yield {"op": "th.new", "form": "limen", "limen": T(texter(b))}
    for _ in range(n):
        m = mention(r)
        if m["form"] == "limen" and r.random() < .2: m["limen"] = T(codec.damage(r, bytes(m["limen"]).decode()))
        elif m["form"] != "limen" and r.random() < .15:
            v = _j.loads(bytes(m["doc"]))
            if isinstance(v, list) and v:
                i = r.randrange(len(v))
                if isinstance(v[i], list) and v[i]:
                    v[i][r.randrange(len(v[i]))] = r.choice(ODD)
                else: v[i] = r.choice(ODD)
                m["doc"] = D(v)
            elif isinstance(v, str) and v:
                m["doc"] = D(codec.damage(r, v))
        yield {"op": "th.new", **m}

def lists(r, n):
    for j in range(n):
        x = r.random()
        if j % 12 == 0:
            # more signers than any small bound
            if r.random() < .5: cs = [["1/2"] * r.choice([33, 64, 65, 70, 100])]
            else: cs = [["1/2"] * r.choice([20, 31, 32, 33, 40]) for _ in range(r.choice([2, 3]))]
            m = r.choice([{"form": "sith", "doc": D(cs)}, {"form": "thold", "doc": D(cs)}])
            z = size(cs)
            qs = []
            for _ in range(10):
                q = []
                o = 0
                for c in cs:
                    q += [o + i for i in r.sample(range(len(c)), r.choice([1, 2, 2, 2, 3]))]
                    o += len(c)
                if r.random() < .5: q = [p for p in q if p >= z - len(cs[-1]) or r.random() < .8]
                if r.random() < .2: q.append(r.randrange(z))
                r.shuffle(q)
                qs.append(q)
            qs += [list(range(z)), [z - 1, z - 2], [0, 64], [64, 1], [1], []]
            yield {"op": "th.many", **m, "idx": [[N(p) for p in q] for q in qs]}
            continue
        if j % 12 == 6:
            # numbers past a byte
            k = r.choice([255, 256, 257, 258, 260, 300, 511, 512, 513, 65535, 65536, 65537])
            m = r.choice([{"form": "sith", "doc": D("%x" % k)}, {"form": "sith", "doc": D(k)}, {"form": "thold", "doc": D(k)}, {"form": "limen", "limen": T(numtext(r, k))}])
            qs = [[], [0], [0, 1], [1, 2, 3, 0], list(range(44)), list(range(10)) * 2]
            if k <= 300: qs += [list(range(k)), list(range(1, k)), list(range(k + 1)), list(range(k - 1)) + [0]]
            yield {"op": "th.many", **m, "idx": [[N(p) for p in q] for q in qs]}
            continue
        if x < .12:
            # a hair's breadth
            cs = [hair(r) for _ in range(r.choice([1, 1, 2]))]
            m = r.choice([{"form": "sith", "doc": D(cs)}, {"form": "thold", "doc": D(cs)}, {"form": "limen", "limen": T(texter(bext(cs)))}])
            z = size(cs)
            yield {"op": "th.many", **m, "idx": [[N(p) for p in range(z) if r.random() < .75] for _ in range(12)]}
            continue
        if x < .3:
            k = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 16, 64, 200])
            m = r.choice([{"form": "sith", "doc": D("%x" % k)}, {"form": "sith", "doc": D(k)}, {"form": "thold", "doc": D(k)}, {"form": "limen", "limen": T(numtext(r, k))}])
            z = k
        else:
            cs = [good(r) for _ in range(r.choice([1, 1, 2, 3]))]
            m = r.choice([{"form": "sith", "doc": D(cs)}, {"form": "thold", "doc": D(cs)}, {"form": "limen", "limen": T(texter(bext(cs)))}])
            z = size(cs)
        yield {"op": "th.many", **m, "idx": [[N(p) for p in positions(r, z)] for _ in range(12)]}
