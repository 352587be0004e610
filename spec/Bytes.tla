------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and nibble paths as text.                                  *)
(*                                                                         *)
(* A byte string is lower-case hexadecimal text of even length; a nibble   *)
(* path is hexadecimal text of any length, one character per nibble.  So   *)
(* the nibble path of a key is the key, and TLC's string operators are the *)
(* operators on paths.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Crypto

Digits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Digit(n) == Digits[n + 1]
DigitVal == [c \in {Digits[i] : i \in 1..16} |->
               (CHOOSE i \in 1..16 : Digits[i] = c) - 1]

At(s, i)         == SubSeq(s, i, i)
Take(s, n)       == SubSeq(s, 1, n)
Drop(s, n)       == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p
Nib(s, i)        == DigitVal[At(s, i)]
ByteLen(s)       == Len(s) \div 2
Byte(n)          == Digit(n \div 16) \o Digit(n % 16)

(* Minimal big-endian bytes of n > 0. *)
RECURSIVE BigEndian(_)
BigEndian(n) == IF n < 256 THEN Byte(n) ELSE BigEndian(n \div 256) \o Byte(n % 256)

(* The bytes of a number given as bytes, without leading zero bytes. *)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) >= 2 /\ Take(s, 2) = "00" THEN StripZeros(Drop(s, 2)) ELSE s

(* Length of the longest common prefix of a and b, from position i on. *)
RECURSIVE LcpFrom(_, _, _)
LcpFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i - 1
                    ELSE IF At(a, i) # At(b, i) THEN i - 1
                    ELSE LcpFrom(a, b, i + 1)
Lcp(a, b) == LcpFrom(a, b, 1)

(* Length of the longest common prefix of a non-empty set of strings. *)
LcpSet(S) == LET a  == CHOOSE x \in S : TRUE
                 ns == {Lcp(a, x) : x \in S}
             IN CHOOSE n \in ns : \A m \in ns : n <= m
===========================================================================
