----------------------------- MODULE CodeTables -----------------------------
(***************************************************************************)
(* The CESR code tables (version 1.0), transcribed from the CESR           *)
(* specification: hard size, soft size, (other-index size,) lead size and  *)
(* full size of each code in characters.  fs = 0 means variable length.    *)
(***************************************************************************)
EXTENDS Bytes

VAR == 0

Fix(code, fs) == [code |-> code, hs |-> Len(code), ss |-> 0, os |-> 0, ls |-> 0, fs |-> fs]
Lead(code, fs, ls) == [Fix(code, fs) EXCEPT !.ls = ls]
Vrz(code, ss, ls) == [code |-> code, hs |-> Len(code), ss |-> ss, os |-> 0, ls |-> ls, fs |-> VAR]

\* ------------------------------------------------------------ matter codes
MatterRows == {
    \* one character codes: 32 byte material
    Fix("A", 44), Fix("B", 44), Fix("C", 44), Fix("D", 44), Fix("E", 44), Fix("F", 44), Fix("G", 44),
    Fix("H", 44), Fix("I", 44), Fix("J", 44), Fix("O", 44), Fix("Q", 44),
    Fix("K", 76), Fix("L", 76),                       \* 56 bytes (448 bit)
    Fix("M", 4), Fix("N", 12),                        \* 2 and 8 byte numbers
    Fix("P", 124),                                    \* 92 byte cipher of a seed
    \* two character codes
    Fix("0A", 24),                                    \* 16 bytes
    Fix("0B", 88), Fix("0C", 88), Fix("0D", 88), Fix("0E", 88), Fix("0F", 88), Fix("0G", 88), Fix("0I", 88),
    Fix("0H", 8),                                     \* 4 byte number
    \* four character codes
    Fix("1AAA", 48), Fix("1AAB", 48), Fix("1AAI", 48), Fix("1AAJ", 48),     \* 33 bytes
    Fix("1AAC", 80), Fix("1AAD", 80),                 \* 57 bytes
    Fix("1AAE", 56), Fix("1AAF", 8), Fix("1AAG", 36), Fix("1AAH", 100),
    Lead("2AAA", 8, 1), Lead("3AAA", 8, 2),
    \* variable length, small and large, by lead size
    Vrz("4A", 2, 0), Vrz("5A", 2, 1), Vrz("6A", 2, 2), Vrz("7AAA", 4, 0), Vrz("8AAA", 4, 1), Vrz("9AAA", 4, 2),
    Vrz("4B", 2, 0), Vrz("5B", 2, 1), Vrz("6B", 2, 2), Vrz("7AAB", 4, 0), Vrz("8AAB", 4, 1), Vrz("9AAB", 4, 2) }
MatterCodes == {r.code : r \in MatterRows}
MatterSz == [c \in MatterCodes |-> CHOOSE r \in MatterRows : r.code = c]

\* number of hard characters announced by the first one; 0: not a matter code
MatterHard(c) == CASE c \in 65 .. 90 \/ c \in 97 .. 122 -> 1
                   [] c \in {48, 52, 53, 54} -> 2             \* 0 4 5 6
                   [] c \in {49, 50, 51, 55, 56, 57} -> 4     \* 1 2 3 7 8 9
                   [] OTHER -> 0

\* ----------------------------------------------------------- indexer codes
\* hard + soft (main index followed by other index), both = current and prior next list
Idx(code, ss, os, fs) == [code |-> code, hs |-> Len(code), ss |-> ss, os |-> os, ls |-> 0, fs |-> fs]
IndexerRows ==
    {Idx(c, 1, 0, 88) : c \in {"A", "B", "C", "D", "E", "F"}}
    \cup {Idx(c, 2, 1, 156) : c \in {"0A", "0B"}}
    \cup {Idx(c, 4, 2, 92) : c \in {"2A", "2B", "2C", "2D", "2E", "2F"}}
    \cup {Idx(c, 6, 3, 160) : c \in {"3A", "3B"}}
    \cup {Idx("0z", 2, 0, VAR), [Idx("1z", 2, 1, 76) EXCEPT !.ls = 1], [Idx("4z", 6, 3, 80) EXCEPT !.ls = 1]}
IndexerCodes == {r.code : r \in IndexerRows}
IndexerSz == [c \in IndexerCodes |-> CHOOSE r \in IndexerRows : r.code = c]
CurrentCodes == {"B", "D", "F", "0B", "2B", "2D", "2F", "3B"}
BothCodes == {"A", "C", "E", "0A", "2A", "2C", "2E", "3A"}
IndexerHard(c) == CASE c \in 65 .. 90 \/ c \in 97 .. 122 -> 1
                    [] c \in 48 .. 52 -> 2
                    [] OTHER -> 0

\* ----------------------------------------------------------- counter codes
Cnt(code, ss) == [code |-> code, hs |-> Len(code), ss |-> ss, os |-> 0, ls |-> 0, fs |-> Len(code) + ss]
CounterRows ==
    {Cnt(c, 2) : c \in {"-A", "-B", "-C", "-D", "-E", "-F", "-G", "-H", "-I", "-J", "-K", "-L", "-V"}}
    \cup {Cnt("-0V", 5), Cnt("--AAA", 3)}
CounterCodes == {r.code : r \in CounterRows}
CounterSz == [c \in CounterCodes |-> CHOOSE r \in CounterRows : r.code = c]
CounterHard(s) == \* s: at least two characters
    IF s[1] # 45 THEN 0
    ELSE CASE s[2] \in 65 .. 90 \/ s[2] \in 97 .. 122 -> 2
           [] s[2] = 48 -> 3
           [] s[2] = 45 -> 5
           [] OTHER -> 0

\* --------------------------------------------------- families of matter codes
DigestCodes == {"E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"}
NonTransferable == {"B", "1AAA", "1AAC", "1AAI"}

RawSize(z) == ((z.fs - z.hs - z.ss) * 3) \div 4 - z.ls
=============================================================================
