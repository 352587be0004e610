------------------------------ MODULE TrieAlgo ------------------------------
(***************************************************************************)
(* How the code keeps a trie: the algorithms of mpt.py over a node store.  *)
(*                                                                         *)
(* A node is a record; a reference is either the node itself (when its     *)
(* encoding is shorter than 32 bytes) or the hash under which the store    *)
(* holds it.  Insertion splits nodes, deletion merges them, and neither    *)
(* ever removes a node from the store.  Trie.tla says what the result must *)
(* be; MCTrieAlgo checks that it is.                                       *)
(***************************************************************************)
EXTENDS Trie

Nil       == [k |-> "nil"]
LeafN(p, v)  == [k |-> "leaf", p |-> p, v |-> v]
ExtN(p, r)   == [k |-> "ext", p |-> p, r |-> r]
BranchN(s, v) == [k |-> "branch", s |-> s, v |-> v]     \* s: digit -> reference, v: "" if none
HashRef(h)   == [k |-> "hash", h |-> h]

DigitSet  == {Digits[i] : i \in 1..16}
NoSlots   == [d \in DigitSet |-> Nil]

RECURSIVE EncN(_)
Item(r) == IF r.k = "hash" THEN RlpStr(r.h) ELSE IF r.k = "nil" THEN "80" ELSE EncN(r)
EncN(n) ==
  CASE n.k = "leaf"   -> RlpList(<<RlpStr(HexPrefix(n.p, TRUE)), RlpStr(n.v)>>)
    [] n.k = "ext"    -> RlpList(<<RlpStr(HexPrefix(n.p, FALSE)), Item(n.r)>>)
    [] n.k = "branch" -> RlpList([i \in 1..17 |-> IF i <= 16 THEN Item(n.s[Digits[i]])
                                                  ELSE RlpStr(n.v)])

(* store + node -> [st, r]: the node's reference, the node stored if needed. *)
Save(st, n) ==
  LET e == EncN(n)
  IN IF Len(e) < 64 THEN [st |-> st, r |-> n]
     ELSE LET h == Keccak(e) IN [st |-> IF h \in DOMAIN st THEN st ELSE (h :> n) @@ st, r |-> HashRef(h)]

Node(st, r) == IF r.k = "hash" THEN st[r.h] ELSE r
Has(st, r)  == r.k # "hash" \/ r.h \in DOMAIN st

-----------------------------------------------------------------------------
(* Reading.  Missing is no value: values are not empty. *)
Missing == ""
RECURSIVE Lookup(_, _, _)
Lookup(st, r, path) ==
  IF r.k = "nil" THEN Missing
  ELSE LET n == Node(st, r)
  IN CASE n.k = "leaf" -> IF n.p = path THEN n.v ELSE Missing
       [] n.k = "ext"  -> IF StartsWith(path, n.p) THEN Lookup(st, n.r, Drop(path, Len(n.p))) ELSE Missing
       [] n.k = "branch" -> IF path = "" THEN n.v
                            ELSE Lookup(st, n.s[At(path, 1)], Drop(path, 1))

(* Writing. *)
WithLeaf(st, s, path, v) ==                 \* a leaf below a new branch
  IF path = "" THEN [st |-> st, s |-> s]
  ELSE LET x == Save(st, LeafN(Drop(path, 1), v))
       IN [st |-> x.st, s |-> [s EXCEPT ![At(path, 1)] = x.r]]
WithExt(st, s, path, r) ==                  \* the rest of a split extension
  IF Len(path) = 1 THEN [st |-> st, s |-> [s EXCEPT ![path] = r]]
  ELSE LET x == Save(st, ExtN(Drop(path, 1), r))
       IN [st |-> x.st, s |-> [s EXCEPT ![At(path, 1)] = x.r]]
UnderPrefix(st, prefix, r) ==
  IF prefix = "" THEN [st |-> st, r |-> r] ELSE Save(st, ExtN(prefix, r))

RECURSIVE Insert(_, _, _, _)
Insert(st, r, path, v) ==
  IF r.k = "nil" THEN Save(st, LeafN(path, v))
  ELSE LET n == Node(st, r)
  IN CASE n.k = "leaf" ->
            IF n.p = path THEN Save(st, LeafN(path, v))
            ELSE LET c  == Lcp(path, n.p)
                     a  == Drop(path, c)
                     b  == Drop(n.p, c)
                     x1 == WithLeaf(st, NoSlots, a, v)
                     x2 == WithLeaf(x1.st, x1.s, b, n.v)
                     x3 == Save(x2.st, BranchN(x2.s, IF a = "" THEN v ELSE IF b = "" THEN n.v ELSE ""))
                 IN UnderPrefix(x3.st, Take(path, c), x3.r)
       [] n.k = "ext" ->
            IF StartsWith(path, n.p)
            THEN LET x == Insert(st, n.r, Drop(path, Len(n.p)), v) IN Save(x.st, ExtN(n.p, x.r))
            ELSE LET c  == Lcp(path, n.p)
                     a  == Drop(path, c)
                     x1 == WithLeaf(st, NoSlots, a, v)
                     x2 == WithExt(x1.st, x1.s, Drop(n.p, c), n.r)
                     x3 == Save(x2.st, BranchN(x2.s, IF a = "" THEN v ELSE ""))
                 IN UnderPrefix(x3.st, Take(path, c), x3.r)
       [] n.k = "branch" ->
            IF path = "" THEN Save(st, BranchN(n.s, v))
            ELSE LET d == At(path, 1)
                     x == Insert(st, n.s[d], Drop(path, 1), v)
                 IN Save(x.st, BranchN([n.s EXCEPT ![d] = x.r], n.v))

(* Deleting.  act: "refused", "deleted" (nothing is left), "updated", or   *)
(* "useless" (the branch became a node with path p that the node above may *)
(* have to absorb).                                                        *)
Res(act, st, r, p) == [act |-> act, st |-> st, r |-> r, p |-> p]

LastSlot(st, s) ==                          \* one slot left, no value
  LET d == CHOOSE d \in DigitSet : s[d].k # "nil"
      c == Node(st, s[d])
      n == CASE c.k = "leaf"   -> LeafN(d \o c.p, c.v)
             [] c.k = "ext"    -> ExtN(d \o c.p, c.r)
             [] c.k = "branch" -> ExtN(d, s[d])
      x == Save(st, n)
  IN Res("useless", x.st, x.r, IF c.k = "branch" THEN d ELSE d \o c.p)

Shrink(st, s, v) ==
  LET used == {d \in DigitSet : s[d].k # "nil"}
  IN IF used = {} /\ v = "" THEN Res("deleted", st, Nil, "")
     ELSE IF used = {} THEN LET x == Save(st, LeafN("", v)) IN Res("useless", x.st, x.r, "")
     ELSE IF Cardinality(used) = 1 /\ v = "" THEN LastSlot(st, s)
     ELSE LET x == Save(st, BranchN(s, v)) IN Res("updated", x.st, x.r, "")

RECURSIVE Remove(_, _, _)
Remove(st, r, path) ==
  IF r.k = "nil" THEN Res("refused", st, Nil, "")
  ELSE LET n == Node(st, r)
  IN CASE n.k = "leaf" -> IF n.p = path THEN Res("deleted", st, Nil, "") ELSE Res("refused", st, Nil, "")
       [] n.k = "ext" ->
            IF ~StartsWith(path, n.p) THEN Res("refused", st, Nil, "")
            ELSE LET x == Remove(st, n.r, Drop(path, Len(n.p)))
                 IN (CASE x.act \in {"refused", "deleted"} -> x
                      [] x.act = "updated" ->
                           LET y == Save(x.st, ExtN(n.p, x.r)) IN Res("updated", y.st, y.r, "")
                      [] x.act = "useless" ->
                           LET c == Node(x.st, x.r)
                               m == CASE c.k = "leaf"   -> LeafN(n.p \o c.p, c.v)
                                      [] c.k = "ext"    -> ExtN(n.p \o c.p, c.r)
                                      [] c.k = "branch" -> ExtN(n.p \o x.p, x.r)
                               y == Save(x.st, m)
                           IN Res("updated", y.st, y.r, ""))
       [] n.k = "branch" ->
            IF path = ""
            THEN IF n.v = "" THEN Res("refused", st, Nil, "") ELSE Shrink(st, n.s, "")
            ELSE LET d == At(path, 1)
                     x == Remove(st, n.s[d], Drop(path, 1))
                 IN CASE x.act = "refused" -> x
                      [] x.act = "deleted" -> Shrink(x.st, [n.s EXCEPT ![d] = Nil], n.v)
                      [] OTHER -> LET y == Save(x.st, BranchN([n.s EXCEPT ![d] = x.r], n.v))
                                  IN Res("updated", y.st, y.r, "")

-----------------------------------------------------------------------------
(* Proofs.  A proof is a sequence of nodes; Walk collects it.              *)
RECURSIVE Walk(_, _, _)
Walk(st, r, path) ==
  IF r.k = "nil" THEN <<>>
  ELSE LET n == Node(st, r)
  IN <<n>> \o
     (CASE n.k = "leaf" -> <<>>
        [] n.k = "ext"  -> IF StartsWith(path, n.p) THEN Walk(st, n.r, Drop(path, Len(n.p))) ELSE <<>>
        [] n.k = "branch" -> IF path = "" THEN <<>> ELSE Walk(st, n.s[At(path, 1)], Drop(path, 1)))

(* The verifier: it holds a root reference, gets nodes (a set of hash->node *)
(* as a function) and walks them.  "in", "out", or "open": a node missing. *)
RECURSIVE Decide(_, _, _)
Decide(st, r, path) ==
  IF r.k = "nil" THEN "out"
  ELSE IF ~Has(st, r) THEN "open"
  ELSE LET n == Node(st, r)
  IN CASE n.k = "leaf" -> IF n.p = path THEN "in" ELSE "out"
       [] n.k = "ext"  -> IF StartsWith(path, n.p) THEN Decide(st, n.r, Drop(path, Len(n.p))) ELSE "out"
       [] n.k = "branch" -> IF path = "" THEN IF n.v = "" THEN "out" ELSE "in"
                            ELSE Decide(st, n.s[At(path, 1)], Drop(path, 1))

(* The verifier holds a root hash rh and is given nodes, by their hashes   *)
(* (a function D).  The root node is looked up by hash too, whatever its   *)
(* size: the verifier compares the hash of the first node.                 *)
Verdict(D, rh, path) == IF rh \in DOMAIN D THEN Decide(D, D[rh], path) ELSE "open"
HashOf(n) == Keccak(EncN(n))
Given(ns) == LET E == [n \in ns |-> HashOf(n)]
             IN [h \in {E[n] : n \in ns} |-> CHOOSE n \in ns : E[n] = h]

SeqSet(s) == {s[i] : i \in DOMAIN s}
=============================================================================
