------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* The Merkle trees of pymt and their proofs as one state machine.         *)
(*                                                                         *)
(* A tree is a hash function, a mode and the sequence of leaves put in so  *)
(* far; everything else follows.  In secure mode the leaf nodes are the    *)
(* hashes of the leaves, otherwise the leaves themselves.                  *)
(*                                                                         *)
(* Step, Judge and After are as in Pymt.  Byte strings are hexadecimal     *)
(* text.  Nodes, roots and the hashes in proofs are text in the code, and  *)
(* appear here as that text; "!" and bytes stand for text that is not the  *)
(* plain hexadecimal of something.                                         *)
(***************************************************************************)
EXTENDS Bytes

Algs == {"sha256", "md5", "sha224", "sha384", "sha512",
         "sha3_256", "sha3_224", "sha3_384", "sha3_512"}

(* One level up: pairs are hashed, an unpaired last node is carried.       *)
Up(alg, ns) ==
  TLCEval([i \in 1..((Len(ns) + 1) \div 2) |->
     IF 2 * i <= Len(ns) THEN Digest(alg, ns[2 * i - 1] \o ns[2 * i]) ELSE ns[Len(ns)]])

(* All levels, the leaves first. *)
RECURSIVE Levels(_, _)
Levels(alg, ns) == IF Len(ns) <= 1 THEN <<ns>> ELSE <<ns>> \o Levels(alg, Up(alg, ns))

LeafNode(alg, sec, v) == IF sec THEN Digest(alg, v) ELSE v
LeafNodes(t) == TLCEval([i \in 1..Len(t.leaves) |-> LeafNode(t.alg, t.sec, t.leaves[i])])
TreeLevels(t) == Levels(t.alg, LeafNodes(t))
RootOf(t) == LET ls == TreeLevels(t) IN ls[Len(ls)][1]
Elems(s)  == {s[i] : i \in DOMAIN s}
AllNodes(t) == UNION {Elems(l) : l \in Elems(TreeLevels(t))}

(* A proof is a sequence of steps [side, sib]; it leads from a leaf node up.*)
Plain(text) == text = "" \/ At(text, 1) # "!"
RECURSIVE HashUpFrom(_, _, _, _)
HashUpFrom(alg, x, steps, i) ==
  IF i > Len(steps) THEN x
  ELSE LET s == steps[i]
       IN IF ~Plain(s.sib) \/ s.side \notin {"left", "right"} THEN "!"
          ELSE HashUpFrom(alg, Digest(alg, IF s.side = "left" THEN s.sib \o x ELSE x \o s.sib),
                          steps, i + 1)
HashUp(alg, x, steps) == HashUpFrom(alg, x, steps, 1)

-----------------------------------------------------------------------------
(* State: T the trees, P the proofs, B encoded proofs.                     *)
EmptyFun  == [x \in {} |-> ""]
InitMerkle == [T |-> EmptyFun, P |-> EmptyFun, B |-> EmptyFun]
Put(f, x, y) == (x :> y) @@ f
Bad(cond, tags, name) == IF cond THEN {[tags |-> tags, clause |-> name]} ELSE {}

Wrote(w, h) ==
  [w EXCEPT !.T = [g \in DOMAIN @ |-> IF g = h THEN @[g] ELSE [@[g] EXCEPT !.drift = TRUE]]]
Same(t, p) == p.alg = t.alg /\ p.sec = t.sec /\ p.leaves = t.leaves
Fields(p)  == [type |-> p.type, ts |-> p.ts, target |-> p.target, root |-> p.root, steps |-> p.steps]

Grow(w, h, vs) == Wrote([w EXCEPT !.T[h].leaves = @ \o vs, !.T[h].ready = FALSE, !.T[h].changed = TRUE], h)
Made(w, h)     == IF w.T[h].leaves = <<>> THEN w ELSE [w EXCEPT !.T[h].ready = TRUE]

MStep(w, e) ==
  CASE e.op = "mnew" ->
         [w EXCEPT !.T = Put(@, e.h, [kind |-> e.kind, alg |-> e.alg, sec |-> e.sec, leaves |-> <<>>,
                                      ready |-> FALSE, drift |-> FALSE, changed |-> FALSE])]
    [] e.op = "mput" -> IF e.out.ok THEN Grow(w, e.h, <<e.v>>) ELSE w
    [] e.op = "mputlist" -> IF e.out.ok THEN Grow(w, e.h, e.vs) ELSE w
    [] e.op = "mmake" -> Made(w, e.h)
    [] e.op = "mreset" ->
         Wrote([w EXCEPT !.T[e.h].leaves = <<>>, !.T[e.h].ready = FALSE, !.T[e.h].changed = TRUE], e.h)
    [] e.op = "mobs" ->
         LET n == [w EXCEPT !.T[e.h].drift = FALSE]
         IN IF w.T[e.h].kind = "tree" THEN Made(n, e.h) ELSE n
    [] e.op = "mpoi" ->
         IF ~e.out.ok THEN w
         ELSE LET t == w.T[e.h] IN
           [w EXCEPT !.P = Put(@, e.p, [type |-> e.out.type, ts |-> e.out.ts, target |-> e.out.target,
                root |-> e.out.root, steps |-> e.out.steps, honest |-> TRUE, codec |-> FALSE,
                alg |-> t.alg, sec |-> t.sec, leaves |-> t.leaves])]
    [] e.op = "mforge" ->
         [w EXCEPT !.P = Put(@, e.p, [type |-> e.type, ts |-> e.out.ts, target |-> e.target,
              root |-> e.root, steps |-> e.steps, honest |-> FALSE, codec |-> FALSE,
              alg |-> "", sec |-> FALSE, leaves |-> <<>>])]
    [] e.op = "mverify" -> IF w.T[e.h].kind = "tree" THEN Made(w, e.h) ELSE w
    [] e.op = "mcodec" ->
         IF ~e.out.ok THEN w
         ELSE [w EXCEPT !.P = Put(@, e.p2, [w.P[e.p] EXCEPT !.codec = TRUE])]
    [] e.op = "mtwin" ->   \* another proof, made from an encoded one
         IF ~e.out.ok THEN w
         ELSE [w EXCEPT !.P = Put(@, e.p2, [type |-> e.out.type, ts |-> e.out.ts, target |-> e.out.target,
              root |-> e.out.root, steps |-> e.out.steps, honest |-> FALSE, codec |-> FALSE,
              alg |-> "", sec |-> FALSE, leaves |-> <<>>])]
    [] e.op = "meq" -> Made(Made(w, e.h), e.h2)
    [] OTHER -> w

-----------------------------------------------------------------------------
JudgeMObs(t, e) ==
  LET n    == Len(t.leaves)
      tags == {"C16"} \cup (IF t.drift THEN {"C15"} ELSE {})
  IN IF n = 0
     THEN Bad(e.root.ok, tags, "root of no leaves") \cup Bad(e.count # 0, tags, "leaf count")
     ELSE Bad(IF t.kind = "tools" /\ ~t.ready THEN e.root.ok /\ e.root.v # RootOf(t)
              ELSE ~e.root.ok \/ e.root.v # RootOf(t), tags, "root")
          \cup Bad(e.count # n, tags, "leaf count")
          \cup Bad(e.leaves # [i \in 1..n |-> LeafNode(t.alg, t.sec, t.leaves[i])], tags, "leaf")

(* A proof as made: it must be about the key and hash up to the root. *)
JudgeMPoi(t, e) ==
  LET leaf == \E i \in DOMAIN t.leaves : t.leaves[i] = e.k
  IN IF ~leaf THEN Bad(e.out.ok, {"C17"}, "proof for a value that is not a leaf")
     ELSE IF ~e.out.ok THEN Bad(t.ready, {"C17"}, "no proof made")
     ELSE Bad(e.out.type # "MT-POI" \/ e.out.target # e.k, {"C17"}, "kind or target of the proof made")
          \cup Bad(e.out.root # RootOf(t), {"C17", "C16"}, "root of the proof made")
          \cup Bad(HashUp(t.alg, LeafNode(t.alg, t.sec, e.k), e.out.steps) # RootOf(t), {"C17"},
                   "the proof made does not hash up to the root")

JudgeMVerify(w, e) ==
  LET t    == w.T[e.h]
      p    == w.P[e.p]
      said == e.out.ok /\ e.out.v
      ln   == LeafNode(t.alg, t.sec, p.target)
      root == RootOf(t)
  IN IF t.kind = "tools"   \* is given the root and the leaf node
     THEN Bad(said /\ HashUp(t.alg, ln, p.steps) # p.root, {"C18"}, "proof that does not hash up accepted")
          \cup Bad(~said /\ p.honest /\ p.alg = t.alg /\ p.sec = t.sec, {"C17"}, "honest proof rejected")
     ELSE IF t.leaves = <<>> THEN Bad(said, {"C18"}, "proof accepted by an empty tree")
     ELSE Bad(said /\ HashUp(t.alg, ln, p.steps) # root, {"C18"}, "proof that does not hash up accepted")
       \cup Bad(said /\ p.root # root, {"C18"}, "proof with another claimed root accepted")
       \cup (IF said /\ ln \notin Elems(LeafNodes(t))
             THEN Bad(TRUE, {"C18"},
                      IF ln \in AllNodes(t) THEN "inner node accepted as a leaf"
                      ELSE IF ~t.sec THEN "part of a hashed pair accepted as a leaf: boundary moved"
                      ELSE "value that is not a leaf accepted")
             ELSE {})
       \cup (IF p.honest /\ Same(t, p)
             THEN Bad(~said, {"C17"} \cup (IF p.codec THEN {"C19"} ELSE {}), "honest proof rejected")
             ELSE {})

JudgeMCodec(w, e) ==
  LET p == w.P[e.p]
  IN IF p.type = "MT-POI"
     THEN Bad(~e.out.ok, {"C19"}, "proof not restored from " \o e.how)
          \cup (IF e.out.ok
                THEN Bad(Fields(p) # Fields(e.out), {"C19"}, "field changed by " \o e.how)
                     \cup Bad(~e.out.eq, {"C19", "C25"}, "restored proof not equal")
                     \cup Bad(~e.out.samehash, {"C25"}, "hash of equal proofs")
                ELSE {})
     ELSE Bad(e.out.ok, {"C19"}, "proof kind without serialized form encoded as " \o e.how)

AllTrees == {"C15", "C16", "C17", "C18", "C19", "C25"}

MJudge(w, e) ==
  CASE e.op = "mnew" -> Bad(~e.out.ok, AllTrees, "no tree made")
    [] e.op \in {"mput", "mputlist", "mreset"} -> Bad(~e.out.ok, {"C16"}, e.op \o " refused")
    [] e.op = "mmake" -> Bad(~e.out.ok, {"C16"}, "tree not made")
    [] e.op = "mforge" -> Bad(~e.out.ok, AllTrees, "no proof object made")
    [] e.op = "mobs" -> JudgeMObs(w.T[e.h], e)
    [] e.op = "mpoi" -> JudgeMPoi(w.T[e.h], e)
    [] e.op = "mverify" -> IF e.p \in DOMAIN w.P THEN JudgeMVerify(w, e) ELSE {}
    [] e.op = "mcodec" -> IF e.p \in DOMAIN w.P THEN JudgeMCodec(w, e) ELSE {}
    [] e.op = "mrefuse" -> Bad(e.out.ok, {"C16"}, "not refused: " \o e.what)   \* and the tree is as it was
    [] e.op = "mtwin" -> {}
    [] e.op = "meq" ->
         LET a == w.T[e.h] b == w.T[e.h2]
         IN IF a.leaves = <<>> \/ b.leaves = <<>> THEN {}
            ELSE Bad(~e.out.ok \/ e.out.eq # (RootOf(a) = RootOf(b)), {"C25"}, "equality of Merkle trees")
                 \cup Bad(e.out.ok /\ RootOf(a) = RootOf(b) /\ ~e.out.samehash, {"C25"}, "hash of equal trees")
    [] e.op = "peq" ->
         IF e.p \notin DOMAIN w.P \/ e.p2 \notin DOMAIN w.P THEN {}
         ELSE LET same == Fields(w.P[e.p]) = Fields(w.P[e.p2])
              IN Bad(~e.out.ok \/ e.out.eq # same, {"C25"}, "equality of proofs")
                 \cup Bad(e.out.ok /\ same /\ ~e.out.samehash, {"C25"}, "hash of equal proofs")
    [] e.op = "peqother" -> Bad(~e.out.ok \/ e.out.eq, {"C25"}, "proof equal to another kind of object")
    [] OTHER -> {[tags |-> {"MACHINERY"}, clause |-> "unknown event " \o e.op]}
=============================================================================
