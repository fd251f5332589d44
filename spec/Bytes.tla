------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, characters, Base64URL and big-endian numbers.             *)
(*                                                                         *)
(* Everything the library consumes or produces is a sequence of bytes      *)
(* (0..255); text is its UTF-8 encoding.  The definitions here are plain   *)
(* TLA+; B64Enc, B64Dec and Utf8Ok have a Java interpretation of the same  *)
(* function (java/) that only makes long inputs fast -- MC_Bytes checks    *)
(* that the two agree.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* force a lazily evaluated function on 1..n into a tuple
Tup(f) == f \o << >>

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Zeros(n) == Tup([i \in 1 .. n |-> 0])
Rep(x, n) == Tup([i \in 1 .. n |-> x])

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
AllIn(s, S) == \A i \in 1 .. Len(s) : s[i] \in S
IndexIn(x, s) == \* position of the first occurrence, 0 if none
    LET I == {i \in 1 .. Len(s) : s[i] = x}
    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

RECURSIVE CatR(_, _, _)
CatR(ss, i, acc) == IF i > Len(ss) THEN acc ELSE CatR(ss, i + 1, acc \o ss[i])
Cat(ss) == CatR(ss, 1, << >>)            \* concatenation of a sequence of sequences

RECURSIVE SplitR(_, _, _, _)
SplitR(s, c, i, acc) ==
    IF \A j \in i .. Len(s) : s[j] # c THEN Append(acc, SubSeq(s, i, Len(s)))
    ELSE LET j == CHOOSE k \in i .. Len(s) : s[k] = c /\ \A m \in i .. k - 1 : s[m] # c
         IN SplitR(s, c, j + 1, Append(acc, SubSeq(s, i, j - 1)))
Split(s, c) == SplitR(s, c, 1, << >>)     \* like str::split on one character

RECURSIVE JoinR(_, _, _, _)
JoinR(ss, sep, i, acc) ==
    IF i > Len(ss) THEN acc ELSE JoinR(ss, sep, i + 1, acc \o (IF i = 1 THEN << >> ELSE sep) \o ss[i])
Join(ss, sep) == JoinR(ss, sep, 1, << >>)

---------------------------------------------------------------------------
(* ASCII *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChar == [i \in 32 .. 126 |-> SubSeq(Printable, i - 31, i - 31)]
AsciiCode == LET inv == [i \in 32 .. 126 |-> AsciiChar[i]]
             IN [c \in {inv[i] : i \in 32 .. 126} |-> CHOOSE i \in 32 .. 126 : inv[i] = c]

\* TLA+ string literal -> byte sequence
B(str) == Tup([i \in 1 .. Len(str) |-> AsciiCode[SubSeq(str, i, i)]])

\* printable byte sequence -> TLA+ string ("?" when not printable)
RECURSIVE StrR(_, _, _)
StrR(bs, i, acc) ==
    IF i > Len(bs) THEN acc
    ELSE StrR(bs, i + 1, acc \o (IF bs[i] \in 32 .. 126 THEN AsciiChar[bs[i]] ELSE "?"))
Str(bs) == StrR(bs, 1, "")

Digits == 48 .. 57
IsHexDigit(c) == c \in Digits \/ c \in 97 .. 102 \/ c \in 65 .. 70
HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 97 .. 102 THEN c - 87 ELSE c - 55
HexChr(n) == IF n < 10 THEN n + 48 ELSE n + 87

---------------------------------------------------------------------------
(* Base64URL, RFC 4648 section 5, without padding *)
B64Set == (65 .. 90) \cup (97 .. 122) \cup (48 .. 57) \cup {45, 95}
B64Idx(c) == CASE c \in 65 .. 90  -> c - 65
               [] c \in 97 .. 122 -> c - 71
               [] c \in 48 .. 57  -> c + 4
               [] c = 45          -> 62
               [] c = 95          -> 63
B64Chr(i) == CASE i < 26 -> i + 65
               [] i \in 26 .. 51 -> i + 71
               [] i \in 52 .. 61 -> i - 4
               [] i = 62 -> 45
               [] i = 63 -> 95
IsB64(s) == AllIn(s, B64Set)

\* bytes (length a multiple of 3) -> characters
B64EncDef(b) ==
    Tup([k \in 1 .. (Len(b) \div 3) * 4 |->
        LET q == (k - 1) \div 4  r == (k - 1) % 4
            x == b[3*q + 1] * 65536 + b[3*q + 2] * 256 + b[3*q + 3]
        IN B64Chr((x \div Pow(64, 3 - r)) % 64)])
\* characters of the alphabet (length a multiple of 4) -> bytes
B64DecDef(t) ==
    Tup([k \in 1 .. (Len(t) \div 4) * 3 |->
        LET q == (k - 1) \div 3  r == (k - 1) % 3
            x == B64Idx(t[4*q + 1]) * 262144 + B64Idx(t[4*q + 2]) * 4096
                 + B64Idx(t[4*q + 3]) * 64 + B64Idx(t[4*q + 4])
        IN (x \div Pow(256, 2 - r)) % 256])
B64Enc(b) == B64EncDef(b)
B64Dec(t) == B64DecDef(t)

\* the value of a few Base64 digits (at most five, so that it is a TLC integer)
RECURSIVE B64Int(_)
B64Int(t) == IF t = << >> THEN 0 ELSE 64 * B64Int(SubSeq(t, 1, Len(t) - 1)) + B64Idx(t[Len(t)])
\* n as exactly len digits
IntB64(n, len) == Tup([k \in 1 .. len |-> B64Chr((n \div Pow(64, len - k)) % 64)])
\* the whole sextets in front of a byte string, as characters, zero-extending the last
B64Front(b, n) == Take(B64Enc(LET m == (n * 3 + 3) \div 4  k == ((m + 2) \div 3) * 3
                              IN Tup([i \in 1 .. k |-> IF i <= Len(b) THEN b[i] ELSE 0])), n)

---------------------------------------------------------------------------
(* UTF-8 well-formedness, RFC 3629 *)
RECURSIVE Utf8R(_, _)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128 .. 191
Utf8R(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE LET c == s[i] IN
      CASE c < 128 -> Utf8R(s, i + 1)
        [] c \in 194 .. 223 -> Cont(s, i + 1) /\ Utf8R(s, i + 2)
        [] c \in 224 .. 239 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2)
                               /\ (c = 224 => s[i+1] >= 160) /\ (c = 237 => s[i+1] <= 159)
                               /\ Utf8R(s, i + 3)
        [] c \in 240 .. 244 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
                               /\ (c = 240 => s[i+1] >= 144) /\ (c = 244 => s[i+1] <= 143)
                               /\ Utf8R(s, i + 4)
        [] OTHER -> FALSE
Utf8OkDef(s) == Utf8R(s, 1)
Utf8Ok(s) == Utf8OkDef(s)

---------------------------------------------------------------------------
(* Natural numbers as minimal big-endian byte sequences: << >> is zero *)
RECURSIVE BnStrip(_)
BnStrip(b) == IF b # << >> /\ b[1] = 0 THEN BnStrip(Tail(b)) ELSE b
RECURSIVE BnOfInt(_)
BnOfInt(n) == IF n = 0 THEN << >> ELSE Append(BnOfInt(n \div 256), n % 256)
BnFits(b, n) == Len(b) <= n                          \* fits n bytes
BnPad(b, n) == Zeros(n - Len(b)) \o b
BnSmall(b) == Len(b) <= 3 \/ (Len(b) = 4 /\ b[1] < 128)
RECURSIVE BnIntR(_, _, _)
BnIntR(b, i, acc) == IF i > Len(b) THEN acc ELSE BnIntR(b, i + 1, acc * 256 + b[i])
BnInt(b) == IF BnSmall(b) THEN BnIntR(b, 1, 0) ELSE 2147483647   \* saturates
BnLt(a, b) == \/ Len(a) < Len(b)
              \/ /\ Len(a) = Len(b)
                 /\ \E i \in 1 .. Len(a) : a[i] < b[i] /\ \A j \in 1 .. i - 1 : a[j] = b[j]
\* hexadecimal digits without leading zeros ("0" for zero)
RECURSIVE HexStripR(_)
HexStripR(h) == IF Len(h) > 1 /\ h[1] = 48 THEN HexStripR(Tail(h)) ELSE h
HexOf(b) == Tup([k \in 1 .. 2 * Len(b) |-> LET x == b[(k + 1) \div 2]
                                           IN HexChr(IF k % 2 = 1 THEN x \div 16 ELSE x % 16)])
BnHex(b) == IF b = << >> THEN <<48>> ELSE HexStripR(HexOf(b))
\* digits -> number (any length); hs a sequence of hex digits
HexBn(hs) == LET e == IF Len(hs) % 2 = 1 THEN <<48>> \o hs ELSE hs
             IN BnStrip(Tup([k \in 1 .. Len(e) \div 2 |-> 16 * HexVal(e[2*k - 1]) + HexVal(e[2*k])]))
\* decimal digits -> number: repeated multiply-add on the byte sequence
RECURSIVE BnMulAddR(_, _, _, _, _)
BnMulAddR(b, m, carry, i, acc) ==
    IF i = 0 THEN (IF carry = 0 THEN acc ELSE BnMulAddR(b, m, carry \div 256, 0, <<carry % 256>> \o acc))
    ELSE LET x == b[i] * m + carry IN BnMulAddR(b, m, x \div 256, i - 1, <<x % 256>> \o acc)
BnMulAdd(b, m, a) == BnStrip(BnMulAddR(b, m, a, Len(b), << >>))
RECURSIVE DecBnR(_, _, _)
DecBnR(ds, i, acc) == IF i > Len(ds) THEN acc ELSE DecBnR(ds, i + 1, BnMulAdd(acc, 10, ds[i] - 48))
DecBn(ds) == DecBnR(ds, 1, << >>)
\* number -> decimal digits
RECURSIVE BnDivR(_, _, _, _)
BnDivR(b, i, rem, q) == IF i > Len(b) THEN [q |-> BnStrip(q), r |-> rem]
                        ELSE LET x == rem * 256 + b[i] IN BnDivR(b, i + 1, x % 10, Append(q, x \div 10))
RECURSIVE BnDecR(_, _)
BnDecR(b, acc) == IF b = << >> THEN acc
                  ELSE LET d == BnDivR(b, 1, 0, << >>) IN BnDecR(d.q, <<d.r + 48>> \o acc)
BnDec(b) == IF b = << >> THEN <<48>> ELSE BnDecR(b, << >>)
\* sum and product
RECURSIVE BnAddR(_, _, _, _, _)
BnAddR(a, b, i, carry, acc) ==          \* a, b: the same length
    IF i = 0 THEN (IF carry = 0 THEN acc ELSE <<carry>> \o acc)
    ELSE LET x == a[i] + b[i] + carry IN BnAddR(a, b, i - 1, x \div 256, <<x % 256>> \o acc)
BnAdd(a, b) == LET n == MaxOf(Len(a), Len(b)) IN BnStrip(BnAddR(BnPad(a, n), BnPad(b, n), n, 0, << >>))
RECURSIVE BnMulR(_, _, _, _)
BnMulR(a, b, i, acc) == IF i > Len(b) THEN BnStrip(acc)
                        ELSE BnMulR(a, b, i + 1, BnAdd(BnStrip(acc \o <<0>>), IF b[i] = 0 THEN << >> ELSE BnMulAdd(a, b[i], 0)))
BnMul(a, b) == BnMulR(a, b, 1, << >>)
DecInt(n) == BnDec(BnOfInt(n))                       \* decimal digits of a TLC integer
HexInt(n) == BnHex(BnOfInt(n))
=============================================================================
