-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* The building blocks of the trie as one state machine: nibble paths and  *)
(* nodes.                                                                  *)
(*                                                                         *)
(* A path is a sequence of nibbles (hexadecimal text); where its nibbles   *)
(* are kept and from which offset on is nobody's business.  A node is a    *)
(* leaf, an extension or a branch with its path, references and value; its *)
(* encoding and its reference follow.  Objects are named; what an object   *)
(* is does not change by anything done to another one.                     *)
(***************************************************************************)
EXTENDS Trie

EmptyFun   == [x \in {} |-> ""]
InitPaths  == [P |-> EmptyFun, N |-> EmptyFun]
PutAt(f, x, y) == (x :> y) @@ f
Bad(cond, name) == IF cond THEN {[tags |-> {"C30"}, clause |-> name]} ELSE {}

(* The path that is written as s (hex-prefix) and whether it is a leaf's.  *)
Coded(s) == /\ Len(s) >= 2 /\ Len(s) % 2 = 0 /\ Nib(s, 1) < 4
            /\ Nib(s, 1) % 2 = 0 => Nib(s, 2) = 0
PathIn(s) == IF Nib(s, 1) % 2 = 1 THEN Drop(s, 1) ELSE Drop(s, 2)
LeafIn(s) == Nib(s, 1) >= 2

(* A reference inside a parent: none, a hash, or the node itself.          *)
RefIn(r) == IF r = "" THEN "80" ELSE IF Len(r) = 64 THEN RlpStr(r) ELSE r

Items(n) == CASE n.kind = "leaf" -> <<RlpStr(HexPrefix(n.path, TRUE)), RlpStr(n.data)>>
              [] n.kind = "ext"  -> <<RlpStr(HexPrefix(n.path, FALSE)), RefIn(n.refs[1])>>
              [] OTHER           -> [i \in 1..17 |-> IF i < 17 THEN RefIn(n.refs[i]) ELSE RlpStr(n.data)]
NodeEnc(n)  == RlpList(Items(n))
Shell(n)    == RlpList(SubSeq(Items(n), 1, Len(Items(n)) - 1))          \* without the data
NodeRef(n)  == LET e == NodeEnc(n) IN IF Len(e) < 64 THEN e ELSE Keccak(e)
Marked(n)   == IF n.kind = "ext" THEN n ELSE [n EXCEPT !.data = "31"]   \* decoded without the data

PathNow(w, p) == w.P[p]
Result(w, e) ==
  CASE e.op = "pnew"     -> Drop(e.data, e.off)
    [] e.op = "pcommon"  -> Take(w.P[e.p], Lcp(w.P[e.p], w.P[e.q]))
    [] e.op = "pcombine" -> w.P[e.p] \o w.P[e.q]
    [] e.op = "pconsume" -> Drop(w.P[e.p], e.n)
    [] e.op = "pdecode"  -> PathIn(e.code)
MakesPath == {"pnew", "pcommon", "pcombine", "pconsume", "pdecode"}

Made(w, e) == [kind |-> e.kind, path |-> IF e.kind = "branch" THEN "" ELSE w.P[e.p],
               refs |-> IF e.kind = "leaf" THEN <<>> ELSE e.refs, data |-> e.data]

PStep(w, e) ==
  CASE e.op \in MakesPath ->
         IF ~e.out.ok THEN w
         ELSE LET v == TLCEval(Result(w, e)) IN
              IF e.op = "pconsume"     \* whether the path itself was cut is left open
              THEN [w EXCEPT !.P = PutAt([x \in DOMAIN @ \ {e.p} |-> @[x]], e.r, v)]
              ELSE [w EXCEPT !.P = PutAt(@, e.r, v)]
    [] e.op = "nnew" ->
         IF ~e.out.ok THEN w
         ELSE [w EXCEPT !.N = PutAt(@, e.r, TLCEval(Made(w, e))),    \* the node keeps the path
                        !.P = IF e.kind = "branch" THEN @ ELSE [x \in DOMAIN @ \ {e.p} |-> @[x]]]
    [] e.op = "ncode" -> IF e.out.ok THEN [w EXCEPT !.N = PutAt(@, e.r, w.N[e.p])] ELSE w
    [] OTHER -> w

JudgePObs(s, e) ==
  Bad(e.len # Len(s), "length of a path")
  \cup Bad(e.nibs # s, "nibbles of a path")
  \cup Bad(e.ext # HexPrefix(s, FALSE) \/ e.leaf # HexPrefix(s, TRUE), "encoding of a path")
  \cup Bad(~e.shown, "a path cannot be shown")

JudgeNode(n, e) ==
  Bad(e.kind # n.kind, "kind of a node")
  \cup Bad(e.kind = n.kind /\ (e.path # n.path \/ e.data # n.data \/ e.refs # n.refs), "content of a node")

PJudge(w, e) ==
  CASE e.op \in MakesPath ->
         IF ~e.out.ok THEN Bad(TRUE, e.op \o " refused")
         ELSE Bad(e.out.v # Result(w, e), "result of " \o e.op)
              \cup (IF e.op = "pdecode" THEN Bad(e.out.isleaf # LeafIn(e.code), "kind of a decoded path") ELSE {})
    [] e.op = "pobs" -> JudgePObs(w.P[e.p], e)
    [] e.op = "prel" ->
         Bad(~e.out.ok \/ e.out.eq # (w.P[e.p] = w.P[e.q]), "equality of paths")
         \cup Bad(~e.out.ok \/ e.out.starts # StartsWith(w.P[e.p], w.P[e.q]), "prefix of a path")
    [] e.op = "nnew" -> Bad(~e.out.ok, "node refused")
    [] e.op = "nobs" ->
         LET n == w.N[e.p] IN
         Bad(e.enc # NodeEnc(n), "encoding of a node")
         \cup Bad(e.ref # NodeRef(n), "reference to a node")
         \cup Bad(e.shell # Shell(n), "encoding of a node without its data")
         \cup JudgeNode(n, e)
    [] e.op = "ncode" ->
         IF ~e.out.ok THEN Bad(TRUE, "encoded node not decoded")
         ELSE JudgeNode(w.N[e.p], e.out)
    [] e.op = "nmark" ->
         IF ~e.out.ok THEN Bad(TRUE, "encoded node not decoded without its data")
         ELSE JudgeNode(Marked(w.N[e.p]), e.out)
    [] e.op = "nbad" -> Bad(e.out.ok, "what is not a node is decoded: " \o e.why)
    [] e.op = "nwrong" -> Bad(e.out.ok, "made with the wrong type: " \o e.why)
    [] OTHER -> {[tags |-> {"MACHINERY"}, clause |-> "unknown event " \o e.op]}
=============================================================================
