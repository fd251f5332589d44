"""Scripts over JSON values."""
from .util import *
import json as _j

def P(s): return T(s)
CH = ["a", "b", "z", "A", "0", "9", " ", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", "\0", "\x01", "\x1f", "\x7f", "\x80", "é", "ß", "€", "\u2028", "\ufeff", "\uffff", "\ud7ff",
      "\ue000", "😀", "\U0010ffff", "\u0301", "{", "}", "[", "]", ":", ",", "'", "<", "&", "#", "_", "-"]
def string(r):
    m = r.random()
    if m < .15: return ""
    if m < .5: return "".join(r.choice("abcdefgh") for _ in range(r.randrange(1, 4)))
    return "".join(r.choice(CH) for _ in range(r.choice([1, 2, 3, 5, 9])))
I64 = [0, 1, -1, 9, 10, 127, 128, -128, 255, 256, 32767, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 10**18, 9007199254740993]
def integer(r):
    return r.choice(I64) if r.random() < .5 else r.randrange(-2**r.choice([4, 8, 31, 32, 53, 63]), 2**r.choice([4, 8, 31, 32, 53, 63]))
BEYOND = ["9223372036854775808", "18446744073709551615", "-9223372036854775809", "18446744073709551616", "1e400", "-1e400", "1e-400", "1E22", "1e22", "1e+15", "-0.0", "-0", "0e0", "0.0", "0e5", "-0e-3", "1e-7", "1E0", "123e-2"]
def exact(t):
    """read the way serde_json reads without float_roundtrip: is it still the nearest double?"""
    import re
    m = re.fullmatch(r"-?(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?", t)
    a, b, e = m.group(1), m.group(2) or "", int(m.group(3) or 0) - len(m.group(2) or "")
    s = int(a + b)
    if s >= 2 ** 64 or abs(e) > 300: return False
    f = float(s)
    f = f * float("1e%d" % e) if e >= 0 else f / float("1e%d" % -e)
    return f == abs(float(t))
def decimal(r):
    """a number that stays the same double however often it is written and read"""
    while True:
        t = decimal_(r)
        s = repr(float(t))
        # as Rust lays it out: positional up to 1e16
        if 1e15 <= abs(float(t)) < 1e16: s = "%.1f" % float(t)
        if exact(t) and exact(s): return t
def decimal_(r):
    """a number that is not an integer literal; at most 15 digits and powers up to 22, so that reading it is exact"""
    m = r.random()
    if m < .12: return r.choice(["0.0", "-0.0", "-0", "1e22", "1e-22", "1E5", "1e+5", "2.5", "0.1", "1.0", "1e0", "5e-1", "100.0", "1e15", "1e16", "1e17", "123456789012345e7", "0.000001", "0.0000001",
                                  "18446744073709551615", "9223372036854775808", "12345678901234567000", "0.3", "123456.789"])
    d = str(r.randrange(10 ** r.randrange(1, 15)))
    s = r.choice(["", "-"])
    x = r.random()
    if x < .5:
        f = str(r.randrange(10 ** (15 - len(d)))) if len(d) < 15 else "0"
        f = f.rjust(r.choice([len(f), min(15 - len(d), len(f) + 2)]) if len(d) < 15 else 1, "0")
        e = ""
        if r.random() < .3: e = r.choice("eE") + r.choice(["", "+", "-"]) + str(r.randrange(8))
        return s + d + "." + f + e
    return s + d + r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["", "0"]) + str(r.randrange(20))

def tree(r, depth, scal=None):
    """a document: None, bool, ('i', n), ('d', text), str, list, ('o', [(k, v)])"""
    m = r.random()
    if depth <= 0 or m < .45:
        x = r.randrange(10)
        if x == 0: return None
        if x in (1, 2): return r.random() < .5
        if x in (3, 4): return ("i", integer(r))
        if x == 5: return ("d", decimal(r))
        return string(r)
    if m < .68: return [tree(r, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
    return ("o", [(string(r), tree(r, depth - 1)) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6]))])

def quote(r, s, plain=False):
    if plain: return _j.dumps(s, ensure_ascii=False)
    o = ""
    for c in s:
        x = r.random()
        n = ord(c)
        if c in "\"\\" or n < 32 or x < .15:
            if c in "\"\\/\n\r\t\b\f" and x < .7: o += "\\" + {"\n": "n", "\r": "r", "\t": "t", "\b": "b", "\f": "f"}.get(c, c)
            elif n < 0x10000: o += "\\u" + r.choice(["%04x", "%04X"]) % n
            else:
                n -= 0x10000
                o += "\\u%04x\\u%04X" % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff))
        else: o += c
    return '"' + o + '"'
def ws(r, plain):
    if plain or r.random() < .6: return ""
    return "".join(r.choice(" \t\n\r") for _ in range(r.randrange(1, 4)))
def text(r, v, plain=False):
    w = lambda: ws(r, plain)
    if v is None: return "null"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, str): return quote(r, v, plain)
    if isinstance(v, list):
        return "[" + w() + ",".join(w() + text(r, x, plain) + w() for x in v) + "]"
    if v[0] == "i": return str(v[1])
    if v[0] == "d": return v[1]
    return "{" + w() + ",".join(w() + quote(r, k, plain) + w() + ":" + w() + text(r, x, plain) + w() for k, x in v[1]) + "}"

BADTEXT = [b"", b" ", b"nul", b"nulll", b"True", b"tru", b"[", b"]", b"[1,]", b"[,1]", b"[1 2]", b"{", b"}", b"{\"a\"}", b"{\"a\":}", b"{\"a\":1,}", b"{a:1}", b"{'a':1}", b"{1:1}", b"{\"a\" 1}", b"\"", b"\"a",
           b"\"\\\"", b"\"\\x41\"", b"\"\\u12\"", b"\"\\u12G4\"", b"\"\\ud800\"", b"\"\\udc00\"", b"\"\\ud800\\u0041\"", b"\"\\ud800x\"", b"\"\\ud800\\ud800\"", b"\"\n\"", b"\"\x01\"", b"\"\x7f\"", b"\"\xff\"", b"\"\xc3\"", b"\"\xc0\x80\"",
           b"\"\xed\xa0\x80\"", b"\"\xf4\x90\x80\x80\"", b"01", b"-", b"-01", b"+1", b"1.", b".5", b"1.e5", b"1e", b"1e+", b"--1", b"0x10", b"1_000", b"NaN", b"Infinity", b"-Infinity", b"1 1", b"1,", b"[1]]", b"{}{}", b"null null", b"/**/1", b"1//",
           b"\xef\xbb\xbf1", b"\xa01", b"\x0b1", b"\x001", b"1\x00", b"\"\\u0000\"", b"\"\\/\"", b"{\"a\":1,\"a\":2,\"b\":3,\"a\":4}", b"{\"\":{\"\":[]}}", b"[[],{},[[]],[{}]]", b"1e309", b"-1e309", b"1e-400", b"0e999999999999", b"1e999999999999", b"0.0e-9999999999",
           b"18446744073709551615", b"18446744073709551616", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809", b"-0", b"-0.0", b"0", b"\t1\r\n ", b"[1\x0c]"]
def nest(n, o="[", c="]"): return T(o * n + c * n)
SERDE_BIT = "0.43295284981322557"

def parses(r, n):
    for b in BADTEXT: yield {"op": "j.parse", "in": L(b)}
    # the last bit of a long decimal (see KNOWN_FINDINGS.txt)
    yield {"op": "j.parse", "in": T(SERDE_BIT)}
    for d in (126, 127, 128, 129, 200, 1000): yield {"op": "j.deep", "in": nest(d)}
    for d in (125, 126, 127, 128): yield {"op": "j.deep", "in": T('{"a":' * d + "1" + "}" * d)}
    for i in I64: yield {"op": "j.parse", "in": T(str(i))}
    for c in range(256):
        yield {"op": "j.parse", "in": [34, c, 34]}
        yield {"op": "j.parse", "in": [34, 92, c, 34]}
    for x in (0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff): yield {"op": "j.parse", "in": T("\"\\u%04x\"" % x)}
    # many elements, many fields, long text and long names
    for m in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000):
        yield {"op": "j.parse", "in": T("[" + ",".join(str(i * 7 % 256) for i in range(m)) + "]")}
        yield {"op": "j.parse", "in": T("{" + ",".join('"%x":%d' % (i * 7919 % 100003, i) for i in range(m)) + "}")}
    for m in (255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537):
        yield {"op": "j.parse", "in": T('"' + "y" * (m - 1) + r.choice(["z", "\\n", "\\\"", "é"]) + '"')}
    for m in (64, 128, 255, 256, 257, 1024): yield {"op": "j.parse", "in": T('{"a":1,"' + "k" * m + '":2,"' + "k" * (m + 1) + '":[3],"' + "k" * (m - 1) + '":4}')}
    for _ in range(n):
        v = tree(r, r.choice([0, 1, 2, 3, 4]))
        t = text(r, v, r.random() < .25)
        t = ws(r, False) + t + ws(r, False)
        b = t.encode()
        if r.random() < .18 and b:
            i = r.randrange(len(b))
            x = r.random()
            if x < .35: b = b[:i] + b[i + 1:]
            elif x < .7: b = b[:i] + bytes([r.choice([34, 92, 44, 58, 91, 93, 123, 125, 32, 0, 10, 45, 48, 46, 101, 255, 0xc3, r.randrange(256)])]) + b[i + r.randrange(2):]
            else: b = b[:i]
            if any(c in b"0123456789" for c in b): 
                # damage may lengthen a number beyond exact reading
                import re
                if any(len(re.sub(rb"[^0-9]", b"", m)) > 15 for m in re.findall(rb"[0-9.eE+-]+", b)): continue
        yield {"op": "j.parse", "in": L(b)}

def inner(r, v):
    """in the notation of the specification"""
    if v is None: return {"t": "null"}
    if v is True or v is False: return {"t": "bool", "b": v}
    if isinstance(v, str): return {"t": "str", "s": T(v)}
    if isinstance(v, list): return {"t": "arr", "a": [inner(r, x) for x in v]}
    if v[0] == "i": return {"t": "int", "n": T(str(v[1]))}
    if v[0] == "d":
        import struct
        return {"t": "flt", "h": L(struct.pack(">d", float(v[1])))}
    o, seen = [], {}
    for k, x in v[1]:
        if k not in seen:
            seen[k] = 1
            o.append({"k": T(k), "v": inner(r, x)})
    return {"t": "obj", "o": o}
LITERALS = ["null", "true", "[]", "{}", '{"b":1,"a":[1,-2,3.5,"x",null,false,{}],"c":{"z":[],"y":[[]]}}', _j.dumps("a\"b\\c\n\x01é😀").join("[]"), "-9223372036854775808",
            '{"a":1,"a":2,"b":3}', "[1,2,3]", '{"k":"v","n":{"o":{"p":[{"q":null}]}}}',
            '{"k":false}', '{"k":true,"l":false,"m":null,"n":[false],"o":{"p":true}}', '{"k":null}', '[null]', '[true]', '[false,true,null]',
            '[[1],{"a":2},3,[false,[true]],{"b":{"c":false}},null]', '{"x":[false],"y":{"z":true},"w":false}', '{"p":1,"q":3,"r":-5,"s":"s\\"","t":[25,"s\\"",2.5,-5]}',
            '"s"', '1.5', 'false', '{"b":{},"a":[],"c":[{}],"":""}', '[{"a":[{"b":[{}]}]},[[[]]],{}]']
def other(r, v, depth=0):
    """a document like v: the same, in another order, or with one thing different"""
    m = r.random()
    if isinstance(v, list) and v:
        if m < .1: return v[:-1]
        if m < .2: return v + [r.choice([None, True, "", ("i", 0)])]
        if m < .3: return v[::-1]
        i = r.randrange(len(v))
        return v[:i] + [other(r, v[i])] + v[i + 1:]
    if isinstance(v, tuple) and v[0] == "o" and v[1]:
        o = v[1]
        if m < .1: return ("o", o[:-1])
        if m < .2: return ("o", o + [(string(r), None)])
        if m < .45: return ("o", r.sample(o, len(o)))
        i = r.randrange(len(o))
        if m < .55: return ("o", o[:i] + [(o[i][0] + r.choice(["x", " ", "\0"]), o[i][1])] + o[i + 1:])
        return ("o", o[:i] + [(o[i][0], other(r, o[i][1]))] + o[i + 1:])
    if m < .3: return v
    if v is True: return r.choice([False, None, ("i", 1), "true"])
    if v is False: return r.choice([True, None, ("i", 0), "false"])
    if v is None: return r.choice([False, "", "null", [], ("o", []), ("i", 0)])
    if isinstance(v, str): return r.choice([v + "a", v[:-1], v.upper(), [v], v + "\0"])
    if v == []: return r.choice([None, ("o", []), [[]], ""])
    if v[0] == "i": return r.choice([("i", v[1] ^ 1), ("i", -1 - v[1]), ("d", str(v[1] % 1000) + ".0"), str(v[1])])
    if v[0] == "d": return r.choice([("d", decimal(r)), ("d", v[1].lstrip("-") if v[1][0] == "-" else "-" + v[1]), ("i", 0), None])
    return r.choice([[], None, ("o", [("", None)])])
RANGE = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1)}
def values(r, n):
    for i, t in enumerate(LITERALS): yield {"op": "j.lit", "n": i, "in": T(t)}
    for k, (a, b) in RANGE.items():
        for x in {a, a + 1, b, b - 1, 0, 1, b // 2, b // 2 + 1}: yield {"op": "j.from", "kind": k, "num": T(str(x))}
        for _ in range(n // 100): yield {"op": "j.from", "kind": k, "num": T(str(r.randrange(a, b + 1)))}
    for _ in range(n // 30):
        yield {"op": "j.from", "kind": "f64", "num": T(decimal(r).replace("E", "e"))}
        yield {"op": "j.from", "kind": "f32", "num": T(repr(r.randrange(-2**24, 2**24 + 1) / 2 ** r.choice([0, 1, 2, 4, 6])))}
    for _ in range(n // 2):
        v = tree(r, r.choice([0, 0, 1, 2, 3]))
        yield {"op": "j.eq", "doc": T(text(r, v, True)), "other": T(text(r, other(r, v), True))}
        if r.random() < .3:
            v = inner(r, ("o", [(string(r), tree(r, r.choice([0, 1, 2]))) for _ in range(r.randrange(6))]))
            yield {"op": "j.hash", "o": v["o"]}
        yield {"op": "j.build", "val": inner(r, tree(r, r.choice([0, 1, 2, 3, 4])))}
        yield {"op": "j.conv", "doc": T(text(r, tree(r, r.choice([0, 0, 1, 2])), True))}

def sessions(r, n):
    """edit histories along valid paths"""
    from collections import OrderedDict
    def py(v):
        if isinstance(v, list): return [py(x) for x in v]
        if isinstance(v, tuple) and v[0] == "o":
            d = OrderedDict()
            for k, x in v[1]: d[k] = py(x)
            return d
        return v if not isinstance(v, tuple) else ["", v][1]
    def pick(v, stop):
        p = []
        while True:
            if isinstance(v, list) and v and r.random() > stop:
                i = r.randrange(len(v)); p.append({"p": i}); v = v[i]
            elif isinstance(v, OrderedDict) and v and r.random() > stop:
                i = r.randrange(len(v)); k = list(v)[i]
                p.append({"l": T(k)} if r.random() < .7 else {"p": i}); v = v[k]
            else: return p, v
    def at(v, p):
        for s in p:
            v = v[s["p"]] if "p" in s and isinstance(v, list) else v[list(v)[s["p"]]] if "p" in s else v[bytes(s["l"]).decode()]
        return v
    # more fields and elements than a byte counts
    for k in (256, 257, 300):
        for o in (True, False):
            t = ("o", [("k%d" % i, ("i", i)) for i in range(k)]) if o else [("i", i) for i in range(k)]
            yield {"op": "je.open", "new": True, "doc": T(text(r, t, True))}
            for i in (0, 1, 44, 254, 255, k - 1):
                yield {"op": "je.get", "path": [{"p": i}]}
                yield {"op": "je.put", "path": [{"p": i}], "val": T(text(r, tree(r, 0), True))}
            if o:
                yield {"op": "je.put", "path": [{"l": T("last")}], "val": T("[]")}
                yield {"op": "je.push", "path": [{"p": k}], "val": T("7")}
                yield {"op": "je.del", "path": [], "at": T("k3")}
                yield {"op": "je.get", "path": [{"p": k - 1}]}
            else: yield {"op": "je.push", "path": [], "val": T("null")}
    for _ in range(n):
        t = tree(r, 3)
        while not (isinstance(t, (list, tuple)) and t and t[0] not in ("i", "d")): t = tree(r, 3)
        doc = [py(t)]
        yield {"op": "je.open", "new": True, "doc": T(text(r, t, True))}
        for _ in range(r.randrange(4, 16)):
            x = r.random()
            p, v = pick(doc[0], .3)
            if x < .2: yield {"op": "je.get", "path": p}
            elif x < .65:
                n_ = tree(r, r.choice([0, 0, 1, 2]))
                if isinstance(v, OrderedDict) and r.random() < .7:
                    k = string(r) if r.random() < .6 or not v else r.choice(list(v))
                    p = p + [{"l": T(k)}]
                    v[k] = py(n_)
                elif not p: doc[0] = py(n_)
                else:
                    u = at(doc[0], p[:-1]); s = p[-1]
                    k = s["p"] if isinstance(u, list) else list(u)[s["p"]] if "p" in s else bytes(s["l"]).decode()
                    u[k] = py(n_)
                yield {"op": "je.put", "path": p, "val": T(text(r, n_, True))}
            elif x < .82:
                k = r.choice(list(v)) if isinstance(v, OrderedDict) and v and r.random() < .8 else string(r)
                yield {"op": "je.del", "path": p, "at": T(k)}
                if isinstance(v, OrderedDict): v.pop(k, None)
            else:
                n_ = tree(r, 1)
                yield {"op": "je.push", "path": p, "val": T(text(r, n_, True))}
                if isinstance(v, list): v.append(py(n_))
