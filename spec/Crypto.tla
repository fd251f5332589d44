------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The published algorithms the library stands on, left uninterpreted by   *)
(* the specification: what matters is that each name means one function.   *)
(* When traces are validated java/cesr/CryptoOps supplies independent      *)
(* implementations; design models supply symbolic ones of their own.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

HashBytes(code, ser) == CHOOSE d : TRUE              \* digest bytes under the algorithm and length the code names
SeedOk(suite, seed) == TRUE                          \* is this a private key of the suite
PublicKey(suite, seed) == CHOOSE p : TRUE            \* the (compressed) public key
SigValid(suite, pub, msg, sig) == CHOOSE b : TRUE    \* the suite's verification equation
Ed25519Sign(seed, msg) == CHOOSE s : TRUE            \* the deterministic signature of RFC 8032
Argon2id(pwd, salt, mem, passes, len) == CHOOSE s : TRUE
=============================================================================
