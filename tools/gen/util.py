"""Building blocks for generated scripts: byte strings as integer lists, numbers as big-endian bytes."""
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
def T(s):
    return list(s.encode("utf-8"))
def L(b):
    return list(b)
def N(n):
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))
def O(x):
    return [] if x is None else [x]
def rb(r, n):
    m = r.randrange(8)
    if m == 0: return bytes(n)
    if m == 1: return b"\xff" * n
    return r.randbytes(n)
def b64(b):
    import base64
    return base64.urlsafe_b64encode(b).decode()
def unb64(t):
    import base64
    return base64.urlsafe_b64decode(t)
def b64int(n, l):
    s = ""
    for _ in range(l):
        s = B64[n % 64] + s
        n //= 64
    return s
STRANGE = ["=", "==", "+", "/", " ", "\n", "\0", "\x7f", "é", "€", "😀", "\u0301", ".", ",", "~", "\\", "\"", "{", "%", "\t", "\ufeff", "Ａ"]
