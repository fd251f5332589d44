------------------------------- MODULE Salter -------------------------------
(***************************************************************************)
(* Signing keys stretched from a salt: each position of a path has its own, *)
(* whatever was asked for before.                                          *)
(***************************************************************************)
EXTENDS Sign

\* memory (KiB) and passes of each tier
Costs == [min |-> <<8, 1>>, low |-> <<65536, 2>>, med |-> <<262144, 3>>, high |-> <<1048576, 4>>]
Tiers == DOMAIN Costs
\* salt: 16 bytes; tier: the name of one, or not a tier at all; size: of the seed
StretchTo(salt, path, size, tier) ==
    IF tier \notin Tiers \/ size < 4 THEN Err ELSE Ok(Argon2id(path, salt, Costs[tier][1], Costs[tier][2], size))
\* own: the salter's tier; at: << >> or <<tier>> for this once; temp: keys not meant to last
TierOf(own, at, temp) == IF temp THEN "min" ELSE IF at # << >> THEN at[1] ELSE own
SaltedSigner(salt, path, code, tier) ==
    IF code \notin SeedCodes THEN Err
    ELSE LET s == StretchTo(salt, path, 32, tier) IN
         IF ~ IsOk(s) THEN Err ELSE IF ~ SeedOk(Suite(code), s.v) THEN Err ELSE Ok([code |-> code, size |-> 0, raw |-> s.v])
\* positions are numbered from the start given, in hexadecimal, after the path; start: big number
PathAt(path, n) == path \o BnHex(n)
SaltedSigners(salt, path, code, tier, start, count) ==
    LET at == Tup([i \in 1 .. count |-> BnAdd(start, BnOfInt(i - 1))]) IN
    IF \E i \in 1 .. count : ~ BnFits(at[i], 8) THEN Err
    ELSE LET s == Tup([i \in 1 .. count |-> SaltedSigner(salt, PathAt(path, at[i]), code, tier)]) IN
         IF \E i \in 1 .. count : ~ IsOk(s[i]) THEN Err ELSE Ok(Tup([i \in 1 .. count |-> s[i].v]))
=============================================================================
