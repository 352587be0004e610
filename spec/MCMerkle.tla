------------------------------ MODULE MCMerkle ------------------------------
(***************************************************************************)
(* Every sequence of leaves over a small alphabet, put in one by one with  *)
(* resets and makings of the tree in between: the algorithms of            *)
(* merkletools.py (levels kept from the last making, proofs by index)      *)
(* against the meaning in Merkle.                                          *)
(*                                                                         *)
(* The alphabet, the hash function, the mode and the number of leaves come *)
(* from the environment.                                                   *)
(***************************************************************************)
EXTENDS Merkle, Json, IOUtils

Us == JsonDeserialize(IOEnv.UNIVERSE)
VARIABLES u, vs, levels, ready        \* vs: the values put in
vars == <<u, vs, levels, ready>>
U   == Us[u]
None == <<>>
leaves == TLCEval([i \in DOMAIN vs |-> LeafNode(U.alg, U.sec, vs[i])])

Init == u \in DOMAIN Us /\ vs = <<>> /\ levels = None /\ ready = FALSE

(* The levels as kept: top first, the last one is the list of leaves.      *)
RECURSIVE Build(_, _)
Build(alg, ls) == IF Len(ls[1]) <= 1 THEN ls ELSE Build(alg, <<Up(alg, ls[1])>> \o ls)

Add(v) == /\ Len(vs) < U.max
          /\ vs' = Append(vs, IF U.distinct THEN v \o Byte(Len(vs)) ELSE v)
          /\ ready' = FALSE /\ UNCHANGED <<u, levels>>
Make   == /\ ~ready /\ ready' = TRUE /\ UNCHANGED <<u, vs>>
          /\ levels' = IF vs = <<>> THEN levels ELSE Build(U.alg, <<leaves>>)
Reset  == /\ vs # <<>> /\ vs' = <<>> /\ levels' = None /\ ready' = FALSE /\ UNCHANGED u
Next   == (\E i \in DOMAIN U.vals : Add(U.vals[i])) \/ Make \/ (U.resets /\ Reset)
Spec   == Init /\ [][Next]_vars

Edges == PrintT("@@EDGE " \o ToJson([u |-> u, a |-> [l |-> vs, r |-> ready], b |-> [l |-> vs', r |-> ready']]))

-----------------------------------------------------------------------------
(* The proof for the leaf at index i (from 0), by walking the levels.      *)
RECURSIVE Steps(_, _)
Steps(x, i) ==                 \* x: position in levels, from the bottom
  IF x = 1 THEN <<>>
  ELSE LET l == levels[x] n == Len(l)
       IN IF i = n - 1 /\ n % 2 = 1 THEN Steps(x - 1, i \div 2)
          ELSE <<IF i % 2 = 1 THEN [side |-> "left", sib |-> l[i]]
                              ELSE [side |-> "right", sib |-> l[i + 2]]>> \o Steps(x - 1, i \div 2)
ProofOf(i) == Steps(Len(levels), i)

T == [alg |-> U.alg, sec |-> FALSE, leaves |-> leaves]      \* the leaves are nodes already
Now == ready /\ leaves # <<>>

(* C16: the levels kept are those of the present leaves. *)
RootRight == Now => levels[1][1] = RootOf(T)
(* C17: every leaf has a proof and it hashes up. *)
Complete == Now => \A i \in 0..(Len(leaves) - 1) : HashUp(U.alg, leaves[i + 1], ProofOf(i)) = RootOf(T)

Elsewhere == {Digest(U.alg, U.vals[i] \o "aa") : i \in DOMAIN U.vals}
Flip(s)   == [s EXCEPT !.side = IF @ = "left" THEN "right" ELSE "left"]
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Alter(s)  == {[s EXCEPT ![i] = Flip(@)] : i \in DOMAIN s}
             \cup {Cut(s, i) : i \in DOMAIN s}
             \cup {[s EXCEPT ![i].sib = x] : i \in DOMAIN s, x \in AllNodes(T) \cup Elsewhere}
             \cup {Append(s, [side |-> d, sib |-> x]) : d \in {"left", "right"}, x \in AllNodes(T)}
             \cup {SubSeq(s, i, Len(s)) : i \in DOMAIN s}
(* C18: with hashed leaves, whatever the alteration, what hashes up to the *)
(* root is a node of the tree, and a node of another length never is.      *)
Sound == Now /\ U.sec /\ Len(vs) <= U.deep =>
  LET root == RootOf(T) nodes == AllNodes(T)
  IN \A i \in 0..(Len(leaves) - 1) : \A s \in Alter(ProofOf(i)) : \A x \in nodes \cup Elsewhere :
       HashUp(U.alg, x, s) = root => x \in nodes
=============================================================================
