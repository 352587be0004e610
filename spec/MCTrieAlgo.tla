----------------------------- MODULE MCTrieAlgo -----------------------------
(***************************************************************************)
(* Every history of writes and deletions over a small universe of keys and *)
(* values: the algorithms of TrieAlgo against the meaning in Trie.         *)
(*                                                                         *)
(* The universes come from the environment (a JSON file with a list): keys *)
(* and values that are written, and probes that are only asked for.        *)
(***************************************************************************)
EXTENDS TrieAlgo, Json, IOUtils

Us     == JsonDeserialize(IOEnv.UNIVERSE)

VARIABLE u                            \* the universe of this history
U      == Us[u]
Elems(s) == {s[i] : i \in DOMAIN s}
Keys   == Elems(U.keys)
Vals   == Elems(U.vals)
Probes == Keys \cup Elems(U.probes)
Deep   == U.deep                      \* check proofs against every sub-proof

VARIABLES st, root, kv, old           \* old: a root held on to, and its content
VARIABLE junk                         \* nodes left by a call that was not completed

vars == <<u, st, root, kv, old, junk>>

Init == /\ u \in DOMAIN Us /\ st = [h \in {} |-> Nil] /\ root = Nil /\ kv = EmptyContent
        /\ old = [root |-> Nil, kv |-> EmptyContent] /\ junk = {}

Write(k, v) ==
  /\ IF k \in DOMAIN kv THEN kv[k] # v ELSE TRUE
  /\ LET x == Insert(st, root, k, v) IN st' = x.st /\ root' = x.r
  /\ kv' = (k :> v) @@ kv
  /\ UNCHANGED <<old, junk>>

Delete(k) ==
  /\ k \in DOMAIN kv
  /\ LET x == Remove(st, root, k)
     IN /\ Assert(x.act # "refused", "delete refused")
        /\ st' = x.st /\ root' = x.r
  /\ kv' = [y \in DOMAIN kv \ {k} |-> kv[y]]
  /\ UNCHANGED <<old, junk>>

(* C28: a write or deletion that ends before it is completed leaves some   *)
(* of its nodes in the store, and the root as it was.  Once per history.   *)
Crash ==
  /\ U.crash /\ junk = {}
  /\ \E x \in {Insert(st, root, k, v) : k \in Keys, v \in Vals} \cup {Remove(st, root, k) : k \in DOMAIN kv} :
       \E part \in SUBSET (DOMAIN x.st \ DOMAIN st) :
         /\ part # {}
         /\ st' = [h \in part |-> x.st[h]] @@ st
         /\ junk' = part
  /\ UNCHANGED <<root, kv, old>>

(* Hold on to the present root. *)
Hold == old' = [root |-> root, kv |-> kv] /\ old # old' /\ UNCHANGED <<st, root, kv, junk>>

Next == /\ UNCHANGED u
        /\ \/ \E k \in Keys, v \in Vals : Write(k, v)
           \/ \E k \in Keys : Delete(k)
           \/ U.hold /\ Hold
           \/ Crash
Spec == Init /\ [][Next]_vars

(* The store only matters below the roots in use, which the invariants pin *)
(* down, so states are told apart by content.                              *)
View == <<u, kv, root, old, junk>>

Edges == PrintT("@@EDGE " \o ToJson([u |-> u, a |-> kv, b |-> kv']))

-----------------------------------------------------------------------------
(* C02: the root is the canonical trie of the content. *)
Canonical == IF kv = EmptyContent THEN root = Nil
             ELSE EncN(Node(st, root)) = Enc(kv)

(* C01: reads agree with the content. *)
Reads(r, m) == \A k \in Probes : Lookup(st, r, k) = IF k \in DOMAIN m THEN m[k] ELSE Missing
MapLike == Reads(root, kv)

(* C03: deleting an absent key is refused (and the refusal has no store). *)
Refusals == \A k \in Probes \ DOMAIN kv : Remove(st, root, k) = Res("refused", st, Nil, "")

(* C04: an old root reads as it did. *)
OldRoot == Reads(old.root, old.kv)

(* C05, C07: the walk is a proof that the verifier accepts. *)
Truth(k) == IF k \in DOMAIN kv THEN "in" ELSE "out"
Complete ==
  kv # EmptyContent =>
  LET rh == RootHash(kv)
  IN \A k \in Probes :
    LET ns == Walk(st, root, k)
    IN /\ Verdict(Given(SeqSet(ns)), rh, k) = Truth(k)
       /\ [i \in DOMAIN ns |-> EncN(ns[i])] = PathNodes(kv, k)

(* C06, C08, C09: whatever nodes are given - all that were ever stored, or *)
(* those of the path cut down in every way - a false statement is not      *)
(* accepted, and a true one only with the nodes it needs.  More nodes      *)
(* cannot matter: they have other hashes.                                  *)
Sound ==
  kv # EmptyContent =>
  LET rh  == RootHash(kv)
      all == (rh :> Node(st, root)) @@ st
  IN \A k \in Probes :
    LET path == SeqSet(Walk(st, root, k))
        need == {HashOf(n) : n \in {n \in path : n = Node(st, root) \/ Len(EncN(n)) >= 64}}
    IN /\ Verdict(all, rh, k) = Truth(k)
       /\ Deep => \A gone \in (SUBSET need) \ {{}} :
             Verdict([h \in DOMAIN all \ gone |-> all[h]], rh, k) = "open"

(* C09: an old proof starts at another root hash; and even its nodes alone *)
(* (the present root may be one of them) prove nothing false.              *)
Bound == old.kv # kv /\ old.kv # EmptyContent /\ kv # EmptyContent
         => /\ RootHash(old.kv) # RootHash(kv)
            /\ \A k \in Probes :
                 Verdict(Given(SeqSet(Walk(st, old.root, k))), RootHash(kv), k) \in {"open", Truth(k)}

(* C04: nothing is ever removed from the store. *)
AppendOnly == [][\A h \in DOMAIN st : h \in DOMAIN st' /\ st'[h] = st[h]]_vars
=============================================================================
