-------------------------------- MODULE Rlp --------------------------------
(* Recursive length prefix encoding: exactly the bytes the code must emit.  *)
EXTENDS Bytes

RlpHead(base, n) == IF n <= 55 THEN Byte(base + n)
                    ELSE LET l == BigEndian(n) IN Byte(base + 55 + ByteLen(l)) \o l

(* Encoding of a byte string. *)
RlpStr(s) == IF Len(s) = 2 /\ Nib(s, 1) < 8 THEN s
             ELSE RlpHead(128, ByteLen(s)) \o s

(* Encoding of a list, given the encodings of its items. *)
RlpList(items) == LET p == Cat(items) IN RlpHead(192, ByteLen(p)) \o p
===========================================================================
