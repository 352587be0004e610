-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* What a Merkle Patricia trie IS, independent of how it came about: the   *)
(* commitment to a finite map from paths to values.                        *)
(*                                                                         *)
(* A content m is a function from a finite set of nibble paths to          *)
(* non-empty byte strings.  Enc(m) is the RLP encoding of the root node of *)
(* the (unique) trie for m: a leaf for one entry, an extension for a       *)
(* common prefix, otherwise a branch.  Nodes whose encoding is shorter     *)
(* than 32 bytes are embedded in their parent, all others are referred to  *)
(* by their Keccak hash.                                                   *)
(***************************************************************************)
EXTENDS Rlp

EmptyContent == [k \in {} |-> ""]
EmptyHash    == "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"

(* Hex-prefix encoding of a path with the leaf flag. *)
HexPrefix(path, leaf) ==
  LET f == IF leaf THEN 2 ELSE 0
  IN IF Len(path) % 2 = 1 THEN Digit(f + 1) \o path ELSE Digit(f) \o "0" \o path

(* The part of m below prefix p, with p cut off. *)
Below(m, p) ==
  LET ks == {k \in DOMAIN m : StartsWith(k, p)}
  IN [r \in {Drop(k, Len(p)) : k \in ks} |-> m[p \o r]]

NodeKind(m) == IF Cardinality(DOMAIN m) = 1 THEN "leaf"
               ELSE IF LcpSet(DOMAIN m) > 0 THEN "ext" ELSE "branch"

CommonPath(m) == LET k == CHOOSE x \in DOMAIN m : TRUE IN Take(k, LcpSet(DOMAIN m))

(* The item that stands for a node with encoding e inside its parent. *)
RefItem(e) == IF Len(e) < 64 THEN e ELSE RlpStr(Keccak(e))

RECURSIVE Enc(_)
Enc(m) ==
  LET kind == NodeKind(m)
  IN IF kind = "leaf" THEN
       LET k == CHOOSE x \in DOMAIN m : TRUE
       IN RlpList(<<RlpStr(HexPrefix(k, TRUE)), RlpStr(m[k])>>)
     ELSE IF kind = "ext" THEN
       LET p == CommonPath(m)
       IN RlpList(<<RlpStr(HexPrefix(p, FALSE)), RefItem(Enc(Below(m, p)))>>)
     ELSE
       LET firsts == {At(k, 1) : k \in DOMAIN m \ {""}}
           slot(c) == IF c \in firsts THEN RefItem(Enc(Below(m, c))) ELSE "80"
       IN RlpList([i \in 1..17 |->
                     IF i <= 16 THEN slot(Digits[i])
                     ELSE IF "" \in DOMAIN m THEN RlpStr(m[""]) ELSE "80"])

(* The root hash, and the reference root() hands out: the root node itself *)
(* if it is short, its hash otherwise.  An empty trie is "" here.          *)
RootHash(m) == IF DOMAIN m = {} THEN EmptyHash ELSE Keccak(Enc(m))
RootRef(m)  == IF DOMAIN m = {} THEN ""
               ELSE LET e == Enc(m) IN IF Len(e) < 64 THEN e ELSE Keccak(e)

(* Encodings of the nodes met on the way down from the root along path:    *)
(* the first is Enc(m).                                                    *)
RECURSIVE PathNodes(_, _)
PathNodes(m, path) ==
  LET kind == NodeKind(m)
  IN IF kind = "leaf" THEN <<Enc(m)>>
     ELSE IF kind = "ext" THEN
       LET p == CommonPath(m)
       IN IF ~StartsWith(path, p) THEN <<Enc(m)>>
          ELSE LET sub == TLCEval(PathNodes(Below(m, p), Drop(path, Len(p))))
               IN <<RlpList(<<RlpStr(HexPrefix(p, FALSE)), RefItem(sub[1])>>)>> \o sub
     ELSE IF path = "" \/ ~\E k \in DOMAIN m : StartsWith(k, At(path, 1)) THEN <<Enc(m)>>
     ELSE
       LET d      == At(path, 1)
           sub    == TLCEval(PathNodes(Below(m, d), Drop(path, 1)))
           firsts == {At(k, 1) : k \in DOMAIN m \ {""}}
           slot(c) == IF c = d THEN RefItem(sub[1])
                      ELSE IF c \in firsts THEN RefItem(Enc(Below(m, c))) ELSE "80"
       IN <<RlpList([i \in 1..17 |->
                      IF i <= 16 THEN slot(Digits[i])
                      ELSE IF "" \in DOMAIN m THEN RlpStr(m[""]) ELSE "80"])>> \o sub

(* Encodings of all nodes that are referred to by hash (the storage). *)
RECURSIVE StoredNodes(_)
StoredNodes(m) ==
  IF DOMAIN m = {} THEN {}
  ELSE LET kind == NodeKind(m)
           own == LET e == Enc(m) IN IF Len(e) < 64 THEN {} ELSE {e}
       IN IF kind = "leaf" THEN own
          ELSE IF kind = "ext" THEN own \cup StoredNodes(Below(m, CommonPath(m)))
          ELSE own \cup UNION {StoredNodes(Below(m, c)) :
                                 c \in {At(k, 1) : k \in DOMAIN m \ {""}}}
===========================================================================
