"""Scripts over identifier prefixes, paths, and what events and credentials say."""
from .util import *
from . import codec, docs, sad
import json as _j

BASIC = ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"]
PC = BASIC + sad.DC
def key(r, c=None): return codec.matter(r, c or r.choice(BASIC))
def J(o): return docs.text(None, o, True)
def quick(f): return T(J(("o", f)))
def O_(*kv): return ("o", list(kv))

def listy(r, kind, good):
    """the value of a list field: usually a list of texts of that kind"""
    x = r.random()
    if x < .8: return [good(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
    if x < .87: return [good(r), r.choice([codec.matter(r), codec.damage(r, good(r)), good(r) + "AAAA", "", None, ("i", 5), [], good(r) + "é"])][::r.choice([1, -1])]
    return r.choice(["", None, ("o", []), ("i", 0), True, good(r), [[good(r)]], ("o", [("0", good(r))])])

def inception(r, code=None, k=None):
    """(fields, the code it is meant for)"""
    code = code or r.choice(PC)
    basic = code in BASIC
    if k is None: k = key(r, code if basic and r.random() < .9 else None)
    nt = code in ("B", "1AAA", "1AAI")
    x = r.random()
    ks = [k] if x < .8 else r.choice([[], [k, key(r)], [k, k], [codec.damage(r, k)], [k + r.choice(["A", "AAAA", "é", "="])], k, None, [None], ("o", []), [[k]], [("i", 1)]])
    empty = lambda: r.choice([[], [], [], ""])
    f = [("v", sad.vs(r.choice(["KERI", "KERI", "ACDC"]))), ("t", r.choice(["icp", "icp", "icp", "dip", "vcp"]) if r.random() < .9 else r.choice(["rot", "ixn", "drt", "", None, ("i", 1), ["icp"], "vrt", "rct"] + nearly(r.choice(["icp", "dip", "vcp"])))),
         ("d", r.choice(["", sad.dig(r), "x"])),
         ("i", r.choice(["", k, sad.dig(r, code if not basic else None), key(r, code if basic else None), codec.matter(r), "#" * 44]) if r.random() < .9 else r.choice([None, ("i", 3), [], codec.damage(r, k)])),
         ("s", "0"), ("kt", "1"), ("k", ks), ("nt", "0" if nt else "1")]
    other = lambda: r.choice([[sad.dig(r)], [key(r)], sad.dig(r), None, ("o", []), ("i", 0), "x", [""], [[]]])
    f.append(("n", empty() if nt and r.random() < .8 else [sad.dig(r)] if r.random() < .5 else other()))
    f += [("bt", "0"), ("b", empty() if r.random() < .85 else other()), ("c", []), ("a", empty() if r.random() < .85 else other())]
    for l in ("n", "b", "a"):
        if r.random() < .12: f = [z for z in f if z[0] != l]
    if r.random() < .12:
        l = r.choice(["v", "t", "d", "i", "k"])
        f = [z for z in f if z[0] != l]
    if r.random() < .1: f.append(("di", key(r)))
    if r.random() < .06: f.append((docs.string(r) or "x", docs.tree(r, 2)))
    if r.random() < .05: f[0] = ("v", sad.anyvs(r))
    if r.random() < .05: r.shuffle(f)
    return f, code

TWIN = {"B": "D", "1AAA": "1AAB", "1AAI": "1AAJ"}
TWIN.update({v: k for k, v in TWIN.items()})
def near(r, p):
    """the same key in the other kind, or with one character changed"""
    for c in TWIN:
        if p.startswith(c) and (r.random() < .5 or len(p) < 8): return TWIN[c] + p[len(c):]
    if len(p) < 8: return p
    i = r.randrange(4, len(p))
    return p[:i] + r.choice(B64) + p[i + 1:]

def prefixes(r, n):
    for t in ["null", "[]", "1", "\"i\"", "{}", '{"t":"icp"}', '{"t":"icp","i":""}', '{"i":"","k":[]}', '["t","icp"]']:
        for c in PC + ["", "A", "0B", "é", "zz"]:
            yield {"op": "px.new", "doc": T(t), "code": [T(c)], "allows": []}
        yield {"op": "px.new", "doc": T(t), "code": [], "allows": []}
        yield {"op": "px.ver", "id": T(key(r)), "doc": T(t), "prefixed": []}
        yield {"op": "px.ver", "id": T(sad.dig(r)), "doc": T(t), "prefixed": [True]}
    for c in list(codec.FIX) + list(codec.VAR):
        f, _ = inception(r, "D")
        yield {"op": "px.new", "doc": quick(f), "code": [T(c)], "allows": []}
        yield {"op": "px.life", "doc": quick(f), "code": [T(c)]}
    # the eligibility table for basic codes
    for c in BASIC:
        k = key(r, c)
        for nv in (None, [], "", [sad.dig(r)], sad.dig(r)):
            for bv in (None, [], [key(r)]):
                for av in (None, [], [O_(("i", "x"))]):
                    f = [("v", sad.vs()), ("t", "icp"), ("d", ""), ("i", ""), ("k", [k])]
                    for l, x in (("n", nv), ("b", bv), ("a", av)):
                        if x is not None: f.append((l, x))
                    yield {"op": "px.life", "doc": quick(f), "code": [T(c)]}
                    yield {"op": "px.ver", "id": T(k), "doc": quick(f), "prefixed": [False]}
    for _ in range(n):
        f, c = inception(r)
        d = quick(f)
        code = [T(c)] if r.random() < .6 else [T(r.choice(PC))] if r.random() < .3 else []
        x = r.random()
        if x < .3: yield {"op": "px.life", "doc": d, "code": code}
        elif x < .6: yield {"op": "px.new", "doc": d, "code": code, "allows": [] if r.random() < .5 else [[T(r.choice(PC + ["A", "", c, c, c])) for _ in range(r.randrange(4))]]}
        else:
            k = dict(f).get("k")
            i = dict(f).get("i")
            p = k[0] if isinstance(k, list) and k and isinstance(k[0], str) and r.random() < .6 else i if isinstance(i, str) and r.random() < .7 else r.choice([key(r), sad.dig(r)])
            if r.random() < .1: p = codec.damage(r, p)
            if r.random() < .1: p = near(r, p)
            yield {"op": "px.ver", "id": T(p), "doc": d, "prefixed": [] if r.random() < .3 else [r.random() < .6]}

def bindings(r, n):
    """an inception event under edit after its prefix has been made"""
    # many keys, witnesses and seals, changed late in the event
    for j, c in enumerate([x for x in PC if x not in BASIC]):
        m = (3, 16, 17, 33, 64, 65, 100, 130, 200)[j % 9]
        ks, ns, bs = [key(r, "D") for _ in range(m)], [sad.dig(r, "E") for _ in range(m)], [key(r, "B") for _ in range(m // 2)]
        av = [O_(("i", sad.dig(r, "E")), ("s", "%x" % i), ("d", sad.dig(r, "E"))) for i in range(m)]
        f = [("v", sad.vs()), ("t", "icp"), ("d", ""), ("i", ""), ("s", "0"), ("kt", "%x" % m), ("k", ks), ("nt", "%x" % m), ("n", ns), ("bt", "1"), ("b", bs), ("c", []), ("a", av)]
        yield {"op": "pe.open", "new": True, "doc": quick(f)}
        yield {"op": "pe.pre", "code": [T(c)]}
        yield {"op": "pe.ver", "prefixed": [True]}
        for l, was, w in (("k", ks, ks[:-1] + [key(r, "D")]), ("n", ns, ns[:-1] + [sad.dig(r, "E")]), ("b", bs, bs[:-1] + [key(r, "B")]), ("a", av, av[:-1] + [O_(("i", "x"))]), ("c", [], ["EO"])):
            yield {"op": "pe.set", "at": T(l), "val": T(docs.text(r, w, True))}
            yield {"op": "pe.ver", "prefixed": [False]}
            yield {"op": "pe.set", "at": T(l), "val": T(docs.text(r, was, True))}
            yield {"op": "pe.ver", "prefixed": [True]}
    for _ in range(n):
        f, c = inception(r)
        if r.random() < .8:
            k = key(r, c if c in BASIC else None)
            f, c = [(l, {"t": "icp", "k": [k], "i": "", "v": sad.vs(), "n": [], "b": [], "a": []}.get(l, x)) for l, x in f], c
        # the identifier itself last: the document without it derives the same digest
        if r.random() < .25: f = [z for z in f if z[0] != "i"] + [z for z in f if z[0] == "i"]
        yield {"op": "pe.open", "new": True, "doc": quick(f)}
        def ver():
            x = r.random()
            return {"op": "pe.ver", "prefixed": [] if r.random() < .3 else [r.random() < .6],
                    "alt": [[r.randrange(64), r.randrange(8)]] if x < .15 else [], "recode": [T(r.choice(PC))] if x > .9 else []}
        yield ver()
        yield {"op": "pe.pre", "code": [T(c)] if r.random() < .9 else []}
        yield {"op": "pe.ver", "prefixed": [True]}
        if r.random() < .3: yield {"op": "pe.ver", "prefixed": [], "alt": [[r.randrange(64), r.randrange(8)]]}
        for _ in range(r.randrange(1, 6)):
            l, v = r.choice(f)
            x = r.random()
            if x < .6:
                g, _ = inception(r, c)
                w = dict(g).get(l, docs.tree(r, 1)) if r.random() < .7 else docs.tree(r, 1)
                yield {"op": "pe.set", "at": T(l), "val": T(docs.text(r, w, True))}
                yield ver()
                if r.random() < .4 and l not in ("i", "d"):
                    yield {"op": "pe.set", "at": T(l), "val": T(docs.text(r, v, True))}
                    yield ver()
            elif x < .75:
                yield {"op": "pe.del", "at": T(l)}
                yield ver()
                if r.random() < .5:
                    yield {"op": "pe.set", "at": T(l), "val": T(docs.text(r, v, True))}
                    yield ver()
            elif x < .9:
                yield {"op": "pe.set", "at": T(r.choice(["x", "di", "nt", "é"])), "val": T(docs.text(r, docs.tree(r, 1), True))}
                yield ver()
            else:
                yield {"op": "pe.pre", "code": [T(r.choice(PC))]}
                yield ver()
        x = r.random()
        if x < .2:
            yield {"op": "pe.pre", "code": [T(c)]}
            yield {"op": "pe.del", "at": T("i")}
            for p in ([True], [False], []): yield {"op": "pe.ver", "prefixed": p, "alt": [], "recode": []}
        elif x < .45:
            # another key in the place of the one the identifier was made from
            ks = dict(f).get("k")
            if isinstance(ks, list) and ks and isinstance(ks[0], str):
                yield {"op": "pe.pre", "code": [T(c)]}
                yield {"op": "pe.set", "at": T("k"), "val": T(docs.text(r, [near(r, ks[0])], True))}
                for p in ([True], [False]): yield {"op": "pe.ver", "prefixed": p, "alt": [], "recode": []}

# ---------------------------------------------------------------------- paths
LAB = ["a", "b", "z", "aa", "A", "0", "1", "2", "3", "00", "01", "10", "9", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999", "_", "a_b", "e", "x1", "1x", "Ab", "AA", "AAA", "AAAA"]
def container(r, depth):
    m = r.random()
    if depth <= 0 or m < .25: return docs.tree(r, 0) if r.random() < .8 else sad.dig(r)
    if m < .5: return [container(r, depth - 1) for _ in range(r.randrange(5))]
    ks = list(dict.fromkeys(r.choice(LAB + ["é", "a-b", "", " "]) for _ in range(r.randrange(5))))
    return ("o", [(k, container(r, depth - 1)) for k in ks])
def walk(r, v, stop=.2):
    """components that lead somewhere (mostly)"""
    p = []
    while r.random() > stop:
        if isinstance(v, list):
            i = r.randrange(len(v) + 1) if r.random() < .15 else r.randrange(len(v)) if v else 0
            if r.random() < .08: p.append(r.choice(LAB)); break
            p.append(r.choice([str(i)] * 8 + ["0" + str(i)]))
            if i >= len(v): break
            v = v[i]
        elif isinstance(v, tuple) and v[0] == "o":
            if not v[1] or r.random() < .1: p.append(r.choice(LAB)); break
            i = r.randrange(len(v[1]))
            if r.random() < .4: p.append(str(i)); v = v[1][i][1]
            else:
                k = v[1][i][0]
                if not k or any(c not in B64 for c in k): break
                p.append(k)
                if k.isdigit():
                    if int(k) >= len(v[1]): break
                    v = v[1][int(k)][1]
                else: v = v[1][i][1]
        else:
            if r.random() < .15: p.append(r.choice(LAB))
            break
    return p
def ptext(p): return "-" + "-".join(p)
def parts(r): return [r.choice(LAB) if r.random() < .7 else "".join(r.choice(B64[:-2] + "_") for _ in range(r.randrange(1, 6))) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6]))]
def names(r, n):
    for t in ["", "-", "--", "-a", "a", "-a-", "-a--b", "--a", "-0", "-00", "-A", "-é", "- ", "-a.b", "-a/b", "-=", "A", "AA", "-AAA", "-" * 30, "-\n", "-a\0"]:
        yield {"op": "pa.bext", "in": T(t)}
        for u in ["-", "-a", "-a-b", ""]: yield {"op": "pa.rel", "a": T(t), "b": T(u)}
    for t in ["null", "[]", "{}", "1", "\"-a\"", "[1.5]", "[null]", "[true]", "[[]]", "[{}]", "[-1]", "[0]", "[18446744073709551615]", "[9223372036854775807]", '[""]', '["a",""]', '["a-b"]', '["é"]', '[" "]', '["a",1,"b",2]', '[1e0]', '[01]']:
        if t != "[01]": yield {"op": "pa.list", "doc": T(t)}
    for k in (15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257):
        p = [r.choice(LAB) for _ in range(k)]
        yield {"op": "pa.bext", "in": T(ptext(p))}
        yield {"op": "pa.list", "doc": T(J(p))}
        for q in (p[:-1], p, p[:k // 2], p[:-1] + ["zz"]): yield {"op": "pa.rel", "a": T(ptext(p)), "b": T(ptext(q))}
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 40, 4091, 4092, 4095, 4096, 12000, 12283, 12284, 12285, 12286, 12287, 12288, 12289, 12300):
        yield {"op": "pa.bext", "in": T("-" + "x" * (k - 1))}
    for c in range(128):
        yield {"op": "pa.bext", "in": [45, c, 97]}
        yield {"op": "pa.list", "doc": T(_j.dumps([chr(c) + "q"]))}
    for _ in range(n):
        x = r.random()
        p = parts(r)
        if x < .3:
            l = [("i", int(c)) if c.isdigit() and int(c) < 2 ** 63 and str(int(c)) == c and r.random() < .6 else c for c in p]
            if r.random() < .1: l.insert(r.randrange(len(l) + 1), r.choice([None, True, "é", "a b", [], ("o", []), ("d", "1.5"), ("i", -3), ""]))
            yield {"op": "pa.list", "doc": T(J(l))}
        elif x < .55:
            t = ptext(p)
            if r.random() < .1: t = r.choice([t[1:], t + "-", t + "é", t.replace("-", "--", 1), t + "=", " " + t])
            yield {"op": "pa.bext", "in": T(t)}
        elif x < .75:
            t = codec.matter(r, r.choice(["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"])) if r.random() < .85 else codec.matter(r)
            yield from codec.parse_ops("pa.par", r, t)
        else:
            q = p[:r.randrange(len(p) + 1)] if r.random() < .6 else parts(r)
            if q and r.random() < .15: q[-1] = q[-1][:-1] or "a"
            yield {"op": "pa.rel", "a": T(ptext(p)), "b": T(ptext(q))}

def reaches(r, n):
    for t in ["null", "[]", "{}", "1", "\"a\"", '{"a":1,"0":2}', '{"1":"x","0":"y"}', '{"a":{"b":{"c":{}}}}', '[[[["x"]]]]', '{"a":[{"b":1},{"b":2}]}']:
        for p in ["-", "-a", "-0", "-1", "-2", "-a-b", "-0-0", "-a-0", "-0-0-0-0", "-0-0-0-0-0", "-a-b-c", "-a-0-b", "-a-1-b", "-0-1-0", "-a-1-1", "-00", "-01", "-9999999999999999999999"]:
            yield {"op": "pa.res", "form": "bext", "path": T(p), "doc": T(t)}
    # long lists, many fields, deep documents
    for k in (255, 256, 257, 300):
        for v in ([("i", i) for i in range(k)], ("o", [("k%d" % i, ("i", i)) for i in range(k)]), [[("i", i)] for i in range(k)]):
            for i in (0, 1, 44, 254, 255, 256, 257, 299, 300):
                yield {"op": "pa.res", "form": "bext", "path": T("-%d" % i), "doc": T(J(v))}
        yield {"op": "pa.res", "form": "bext", "path": T("-a-%d-0" % (k - 1)), "doc": T(J(O_(("a", [["x%d" % i] for i in range(k)]))))}
    for k in (7, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33, 40, 64):
        v, q = "end", []
        for i in range(k):
            m = r.randrange(3)
            c = "abcdefgh"[i % 8]
            if m == 0: v = O_((c, v)); q.append(c)
            elif m == 1: v = [v, "not"]; q.append("0")
            else: v = O_(("0x", "not"), (c, v)); q.append("1")
        q.reverse()
        t = J(v)
        for p in (q, q[:-1], q + ["0"], q[:-2] + ["zz"] + q[-1:], q[:-1] + ["1"]): yield {"op": "pa.res", "form": "bext", "path": T(ptext(p)), "doc": T(t)}
    # the text a path ends at has to be an identifier, whatever it begins with
    e = sad.dig(r, "E")
    for w in ["E", "EAAA", "E" * 44, "E" * 43, "E" * 45, e, e[:-1], e + "A", e + "AAAA", e[:20] + "=" + e[21:], e[:20] + "!" + e[21:], "E" + "_" * 43, "E" + "-" * 43, e[:-1] + "é", "e" + e[1:], "F" + e[1:], "D" + e[1:], "0" + e[1:], "EE", "Event", "end",
              "0D" + "A" * 86, "0D" + "A" * 85, "0D", "H", "I" * 44, "", "A" * 44, key(r), number(r), "4AAA"] + [sad.dig(r, c) for c in sad.DC] + [codec.damage(r, e) for _ in range(12)]:
        for at in (0, 1):
            f = [("v", sad.vs()), ("d", sad.dig(r, "E")), ("a", [O_(("x", w))] if at else w)]
            yield {"op": "pa.tail", "form": "bext", "path": T("-a-0-x" if at else "-a"), "doc": quick(f)}
    for _ in range(n):
        v = container(r, r.choice([1, 2, 3, 4]))
        p = walk(r, v)
        if p and r.random() < .1: p[r.randrange(len(p))] = r.choice(LAB)
        if r.random() < .05: p.append(r.choice(LAB))
        t = ptext(p)
        if r.random() < .03: t = t + "-" if r.random() < .5 else t[1:]
        if r.random() < .65: yield {"op": "pa.res", "form": "bext", "path": T(t), "doc": T(J(v))}
        else:
            f = [("v", sad.vs()), ("d", sad.dig(r, "E"))] + ([(k, w) for k, w in v[1] if k not in ("v", "d")] if isinstance(v, tuple) and v[0] == "o" else [("a", v)])
            p = walk(r, ("o", f), .12)
            if r.random() < .05: f = f[1:]
            yield {"op": "pa.tail", "form": "bext", "path": T(ptext(p)), "doc": quick(f)}

# ------------------------------------------------------- what events say
def sith(r):
    return r.choice(["1", "0", "2", "a", "ff", "1/2", "", "x", ["1/2", "1/2"], ["1/2", "1/3"], [["1/2", "1/2"], ["1"]], ("i", 1), ("i", 0), ("i", -1), None, ["1", "0"], [], [[]], "[\"1/2\",\"1/2\"]", ["1/3", "1/3", "1/3"], "7fffffff", "ffffffffffffffffffffffffffffffff"])
def number(r): return codec.matter(r, r.choice(["M", "0H", "N", "0A"]))
ILKS = ["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev", "bis", "brv"]
def nearly(t): return [t.upper(), t.capitalize(), t[:2] + t[2].upper(), t + " ", " " + t, t + "\n", t + "\0", t[:2], t[1:], t + t[-1], t + "s", t[::-1], t + "," + t, '"' + t + '"', "é" + t, ""]
def somevent(r):
    f = [("v", sad.vs()), ("t", r.choice(ILKS[:6] + ["vcp"]) if r.random() < .88 else r.choice(nearly(r.choice(ILKS))) if r.random() < .6 else docs.tree(r, 0)), ("d", sad.dig(r, "E")),
         ("i", r.choice([key(r), sad.dig(r), "", "x"]) if r.random() < .85 else docs.tree(r, 1)),
         ("s", r.choice(["0", "1", "a", "ff", "10", "0f", "FF", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "%x" % r.randrange(2 ** 128)]) if r.random() < .85 else r.choice(["", "g", "-1", " 1", "0x1", ("i", 1), None, "é"])),
         ("p", sad.dig(r)), ("kt", sith(r)), ("k", listy(r, "Verfer", key)), ("nt", sith(r)), ("n", listy(r, "Diger", sad.dig)),
         ("bt", "0"), ("b", listy(r, "Verfer", key)), ("c", []), ("a", []), ("f", number(r) if r.random() < .8 else r.choice(["", "x", codec.matter(r), codec.damage(r, number(r)), ("i", 1), None, number(r) + "A"]))]
    keep = r.choice([.5, .8, .95])
    f = [x for x in f if x[0] in ("v", "d") or r.random() < keep]
    if r.random() < .1: f.append((docs.string(r) or "x", docs.tree(r, 3)))
    return f
def somecred(r):
    f = [("v", sad.vs("ACDC")), ("d", sad.dig(r, "E")), ("i", key(r) if r.random() < .85 else docs.tree(r, 1)), ("ri", sad.dig(r) if r.random() < .8 else docs.tree(r, 1)),
         ("s", sad.dig(r) if r.random() < .85 else docs.tree(r, 1)), ("a", ("o", [("d", ""), ("i", "x"), ("n", docs.tree(r, 2))]) if r.random() < .6 else docs.tree(r, 2)), ("e", docs.tree(r, 3))]
    keep = r.choice([.5, .8, .95])
    return [x for x in f if x[0] in ("v", "d") or r.random() < keep]
def framed(f):
    """bytes of a well-sized document"""
    b = J(("o", f)).encode()
    i = b.find(b"10JSON000000_")
    return b[:i] + b"10JSON%06x_" % len(b) + b[i + 13:] if i >= 0 else b
def says(r, n):
    # around the cut of indented text
    for s in ["a", "é", "€", "😀"]:
        for size in list(range(88, 106)) + [0, 1, 1000, 1024]:
            f = [("v", sad.vs()), ("d", codec.fixtext("E", bytes(32))), ("x", s * 8)]
            yield {"op": "ev.says", "as": "serder", "raw": [], "doc": quick(f), "code": [], "size": [N(size)]}
    for m in list(range(915, 930)): yield {"op": "ev.says", "as": "serder", "raw": [], "doc": quick([("v", sad.vs()), ("d", codec.fixtext("E", bytes(32))), ("x", "y" * m + "€€")]), "code": [], "size": []}
    # what kind of event it is, and what nearly is one
    for t in ILKS:
        for w in [t] + (nearly(t) if t in ("icp", "rot", "dip", "drt") else r.sample(nearly(t), 2)):
            yield {"op": "ev.says", "as": "serder", "raw": [], "doc": quick([("v", sad.vs()), ("t", w), ("d", sad.dig(r, "E"))]), "code": [], "size": [N(40)]}
    # many keys
    for k in (16, 17, 33, 64, 65, 100, 101, 257):
        f = [("v", sad.vs()), ("d", sad.dig(r, "E"))] + [(l, [g(r) for _ in range(k)]) for l, g in (("k", lambda r: key(r, "D")), ("n", lambda r: sad.dig(r, "E")), ("b", lambda r: key(r, "B")))]
        yield {"op": "ev.says", "as": "serder", "raw": [], "doc": quick(f), "code": [], "size": [N(40)]}
    for p, good in (("k", key), ("n", sad.dig), ("b", key), ("kt", lambda r: "1"), ("nt", lambda r: "1"), ("s", lambda r: "1"), ("i", key), ("t", lambda r: "icp"), ("f", number), ("ri", sad.dig), ("e", lambda r: O_()), ("a", lambda r: O_())):
        for w in [None, True, ("i", 0), ("i", 1), ("i", -1), ("d", "1.5"), "", "1", "x", [], ["1"], [""], [[]], ("o", []), ("o", [("a", "b")]), good(r), [good(r)], [good(r), good(r)], [good(r), None]]:
            f = [("v", sad.vs("KERI" if p not in ("ri", "e") else "ACDC")), ("d", sad.dig(r, "E")), (p, w)]
            yield {"op": "ev.says", "as": "serder" if p not in ("ri", "e") else "creder", "raw": [], "doc": quick(f), "code": [], "size": [N(40)]}
            if p in ("i", "s", "a"):
                yield {"op": "ev.says", "as": "creder", "raw": [], "doc": quick([("v", sad.vs("ACDC"))] + f[1:]), "code": [], "size": [N(40)]}
    for _ in range(n):
        a = r.choice(["serder", "serder", "creder"])
        f = somevent(r) if a == "serder" else somecred(r)
        o = {"code": [], "size": [] if r.random() < .5 else [N(r.choice([0, 1, 2, 50, 100, r.randrange(2000)]))]}
        if r.random() < .5: yield {"op": "ev.says", "as": a, "raw": [], "doc": quick(f), **o}
        else: yield {"op": "ev.says", "as": a, "raw": [L(framed(f) + r.choice([b"", b"", b"-AAB", b"{}", b"\xff"]))], "doc": [], **o}

def holds(r, n):
    """an event or credential held as an object: edited, refilled from itself, from other content and from buffers"""
    for _ in range(n):
        a = r.choice(["serder", "serder", "creder"])
        code = r.choice(sad.DC) if r.random() < .3 else "E"
        def content(c, ident=None):
            f = somevent(r) if a == "serder" else somecred(r)
            f = [(k, sad.dig(r, c) if k == "d" and r.random() < .93 else v) for k, v in f]
            if ident: f = [(k, sad.vs(ident) if k == "v" else v) for k, v in f]
            return f
        f = content(code)
        yield {"op": "se.open", "new": True, "as": a, "doc": quick(f), "code": [] if code == "E" and r.random() < .8 else [T(code)]}
        for _ in range(r.randrange(2, 9)):
            x = r.random()
            if x < .38:
                k, v = r.choice(f)
                y = r.random()
                if y < .25: k = docs.string(r) or "new"
                w = docs.tree(r, r.choice([0, 0, 1]))
                if k == "v": w = r.choice([sad.vs("KERI", size=r.randrange(999)), sad.vs("ACDC", size=5), sad.anyvs(r)])
                elif k == "d": w = sad.dig(r, code if r.random() < .7 else None) if r.random() < .9 else w
                elif y > .8 and isinstance(v, str): w = v + "x"
                yield {"op": "se.set", "at": T(k), "val": T(docs.text(r, w, True))}
                if r.random() < .6: yield {"op": "se.self", "kind": T("JSON")}
            elif x < .5: yield {"op": "se.self", "kind": T("JSON" if r.random() < .93 else r.choice(["CBOR", "MGPK", "", "json"]))}
            elif x < .6: yield {"op": "se.copy", "code": [] if r.random() < .5 else [T(r.choice(sad.DC))], "kind": [] if r.random() < .7 else [T(r.choice(["JSON", "CBOR"]))]}
            elif x < .7:
                f = content(code, r.choice(["KERI", "ACDC", None, None]))
                yield {"op": "se.ked", "doc": quick(f), "kind": [] if r.random() < .8 else [T(r.choice(["JSON", "JSON", "CBOR"]))]}
            elif x < .8:
                b = framed(content(code))
                if r.random() < .3: b = b[:r.randrange(len(b))]
                yield {"op": "se.raw", "in": L(b + r.choice(sad.TAILS))}
            elif x < .88:
                if r.random() < .6: code = r.choice(sad.DC)
                yield {"op": "se.code", "code": T(code)}
            else: yield {"op": "se.says"}
