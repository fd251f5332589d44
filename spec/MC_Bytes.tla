------------------------------- MODULE MC_Bytes -------------------------------
(* The Java interpretations of operators of Bytes are the functions defined    *)
(* there, and the arithmetic on big numbers is arithmetic.                     *)
EXTENDS Bytes, IOUtils
VARIABLES b, m, n
vars == <<b, m, n>>
Full == IOEnv.FULL = "1"
S == IF Full THEN {0, 1, 3, 15, 16, 63, 64, 127, 128, 191, 192, 240, 252, 254, 255} ELSE {0, 1, 63, 128, 192, 252, 255}
T4 == {43, 45, 47, 48, 57, 61, 65, 90, 95, 97, 122, 200}
Ns == {0, 1, 9, 10, 255, 256, 257, 4095, 65535, 65536, 16777215, 16777216, 99999, 2147483647}
Init == b \in UNION {{Tup(f) : f \in [1 .. 3 -> S]}, {Tup(f) \o <<7, 0, 255>> : f \in [1 .. 3 -> S]}, {Tup(f) : f \in [1 .. 4 -> T4]}, {<< >>}}
        /\ m \in (IF b = << >> THEN Ns ELSE {0}) /\ n \in (IF b = << >> THEN Ns ELSE {0})
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Enc == Len(b) % 3 = 0 => B64Enc(b) = B64EncDef(b) /\ B64Dec(B64Enc(b)) = b /\ IsB64(B64Enc(b)) = AllIn(B64Enc(b), B64Set)
Dec == (Len(b) % 4 = 0) => /\ IsB64(b) = AllIn(b, B64Set)
                           /\ (IsB64(b) => B64Dec(b) = B64DecDef(b) /\ B64Enc(B64DecDef(b)) = b)
Utf == Utf8Ok(b) = Utf8OkDef(b)
Strs == Str(b) = StrR(b, 1, "") /\ (AllIn(b, 32 .. 126) => B(Str(b)) = b)
Small(x) == x < 30000
Num == LET x == BnOfInt(m)  y == BnOfInt(n) IN
       /\ BnInt(x) = m /\ BnLt(x, y) = (m < n)
       /\ DecBn(BnDec(x)) = x /\ HexBn(BnHex(x)) = x
       /\ (m < 1000000000 /\ n < 1000000000 => BnAdd(x, y) = BnOfInt(m + n))
       /\ (Small(m) /\ Small(n) => BnMul(x, y) = BnOfInt(m * n))
       /\ BnMul(x, y) = BnMul(y, x)
=============================================================================
