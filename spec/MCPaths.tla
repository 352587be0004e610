------------------------------- MODULE MCPaths -------------------------------
(***************************************************************************)
(* Nibble paths as nibble_path.py keeps them - bytes and the number of     *)
(* nibbles to skip - and its algorithms on them, beside the sequences of   *)
(* nibbles they stand for.  Two paths of any kind are taken and one after  *)
(* the other is replaced by a result of an operation.                      *)
(***************************************************************************)
EXTENDS Paths, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)[1]
VARIABLES a, b, n
vars == <<a, b, n>>

Alphabet == {U.bytes[i] : i \in DOMAIN U.bytes}
Strings == UNION {[1..l -> Alphabet] : l \in 0..U.long}
Hex(d) == Cat(TLCEval([i \in DOMAIN d |-> Byte(d[i])]))

(* A path in its representation: d the bytes, o the offset. *)
PLen(p)   == 2 * Len(p.d) - p.o
PAt(p, i) == LET x == i + p.o y == p.d[x \div 2 + 1]
             IN IF x % 2 = 0 THEN y \div 16 ELSE y % 16
View(p)   == Cat(TLCEval([i \in 1..PLen(p) |-> Digit(PAt(p, i - 1))]))

(* A new path of length l, its nibbles given by a function from 0. *)
Create(f, l) ==
  IF l % 2 = 1
  THEN [d |-> TLCEval([i \in 1..((l + 1) \div 2) |-> IF i = 1 THEN f[0] ELSE f[2 * i - 3] * 16 + f[2 * i - 2]]), o |-> 1]
  ELSE [d |-> TLCEval([i \in 1..(l \div 2) |-> f[2 * i - 2] * 16 + f[2 * i - 1]]), o |-> 0]
Nibbles(p) == TLCEval([i \in 0..(PLen(p) - 1) |-> PAt(p, i)])

RECURSIVE CommonLen(_, _, _)
CommonLen(p, q, i) == IF i = PLen(p) \/ i = PLen(q) THEN i
                      ELSE IF PAt(p, i) # PAt(q, i) THEN i ELSE CommonLen(p, q, i + 1)
Common(p, q)  == Create(Nibbles(p), CommonLen(p, q, 0))
Combine(p, q) == Create([i \in 0..(PLen(p) + PLen(q) - 1) |->
                           IF i < PLen(p) THEN PAt(p, i) ELSE PAt(q, i - PLen(p))], PLen(p) + PLen(q))
Consume(p, k) == [p EXCEPT !.o = @ + k]
Encode(p, leaf) ==
  LET l == PLen(p)
      f == (IF l % 2 = 1 THEN 16 + PAt(p, 0) ELSE 0) + (IF leaf THEN 32 ELSE 0)
  IN <<f>> \o [i \in 1..(l \div 2) |-> PAt(p, (l % 2) + 2 * i - 2) * 16 + PAt(p, (l % 2) + 2 * i - 1)]
Decode(c) == [path |-> [d |-> c, o |-> IF (c[1] \div 16) % 2 = 1 THEN 1 ELSE 2], leaf |-> (c[1] \div 32) % 2 = 1]
StartsAlgo(p, q) == PLen(q) <= PLen(p) /\ \A i \in 0..(PLen(q) - 1) : PAt(p, i) = PAt(q, i)
SameAlgo(p, q)   == PLen(p) = PLen(q) /\ StartsAlgo(p, q)

All == {[r |-> [d |-> s, o |-> o], s |-> Drop(Hex(s), o)] : <<s, o>> \in
          UNION {{<<s, o>> : o \in 0..(2 * Len(s))} : s \in Strings}}
Init == a \in All /\ b \in All /\ n = 0

Told(op) == n = 0 => PrintT("@@EDGE " \o ToJson([a |-> [data |-> Hex(a.r.d), off |-> a.r.o],
                                        b |-> [data |-> Hex(b.r.d), off |-> b.r.o], op |-> op]))
Becomes(op, r, s) == /\ PLen(r) <= U.max
                     /\ a' = b /\ b' = [r |-> r, s |-> s] /\ n' = n + 1 /\ Told(op)
Next ==
  /\ n < U.deep
  /\ \/ Becomes([op |-> "pcommon"], Common(a.r, b.r), Take(a.s, Lcp(a.s, b.s)))
     \/ Becomes([op |-> "pcombine"], Combine(a.r, b.r), a.s \o b.s)
     \/ \E k \in 0..Len(a.s) : Becomes([op |-> "pconsume", n |-> k], Consume(a.r, k), Drop(a.s, k))
     \/ \E x \in BOOLEAN : Becomes([op |-> "pdecode", leaf |-> x], Decode(Encode(a.r, x)).path, a.s)
Spec == Init /\ [][Next]_vars

(* C30: the representation stands for the sequence, whatever was done.     *)
Right == View(b.r) = b.s /\ PLen(b.r) = Len(b.s)
Codes == \A x \in BOOLEAN : /\ Hex(Encode(b.r, x)) = HexPrefix(b.s, x)
                            /\ Decode(Encode(b.r, x)).leaf = x
                            /\ Coded(HexPrefix(b.s, x)) /\ PathIn(HexPrefix(b.s, x)) = b.s /\ LeafIn(HexPrefix(b.s, x)) = x
Relations == StartsAlgo(a.r, b.r) = StartsWith(a.s, b.s) /\ SameAlgo(a.r, b.r) = (a.s = b.s)
=============================================================================
