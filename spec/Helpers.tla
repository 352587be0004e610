------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* The helpers of pymt (Utils, the hash functions) and what a proof object *)
(* shows of itself, as one state machine: running hash objects, the ids    *)
(* given out, keys of several kinds, a directory, proof objects.           *)
(***************************************************************************)
EXTENDS Bytes

EmptyFun    == [x \in {} |-> ""]
InitHelpers == [H |-> EmptyFun, ids |-> {}, K |-> EmptyFun, F |-> EmptyFun, at |-> "", O |-> EmptyFun]
PutAt(f, x, y) == (x :> y) @@ f
Bad(cond, name) == IF cond THEN {[tags |-> {"C31"}, clause |-> name]} ELSE {}

Sum(alg, s) == IF alg = "keccak" THEN Keccak(s) ELSE Digest(alg, s)

(* A path given to file_exists or dir_exists, as an absolute one.          *)
Absolute(w, e) == IF e.form = "absolute" THEN e.name ELSE w.at \o e.name
Kind(w, name)  == IF name \in DOMAIN w.F THEN w.F[name] ELSE "none"

(* A path may lead through another directory and back, if there is one.    *)
Back(w, e) == e.via = "" \/ Kind(w, Absolute(w, [e EXCEPT !.name = e.via])) = "dir"

(* y is the directory x or lies in it. *)
Under(y, x) == y = x \/ StartsWith(y, x \o "/")

HStep(w, e) ==
  CASE e.op = "hstart"  -> IF e.out.ok THEN [w EXCEPT !.H = PutAt(@, e.r, [alg |-> e.alg, data |-> e.data])] ELSE w
    [] e.op = "hmore"   -> IF e.out.ok THEN [w EXCEPT !.H[e.r].data = @ \o e.data] ELSE w
    [] e.op = "hid"     -> IF e.out.ok THEN [w EXCEPT !.ids = @ \cup {e.out.v}] ELSE w
    [] e.op = "hkey"    -> IF e.out.ok THEN [w EXCEPT !.K = PutAt(@, e.r, [loads |-> e.loads, priv |-> e.priv])] ELSE w
    [] e.op = "hmake"   -> [w EXCEPT !.F = PutAt(@, e.name, e.kind)]
    [] e.op = "hremove" -> [w EXCEPT !.F = [x \in {y \in DOMAIN @ : ~Under(y, e.name)} |-> @[x]]]
    [] e.op = "hgo"     -> [w EXCEPT !.at = e.name]
    [] e.op = "hproof"  -> IF e.out.ok THEN [w EXCEPT !.O = PutAt(@, e.r, [ts |-> e.out.ts, fields |-> e.fields])] ELSE w
    [] OTHER -> w

HJudge(w, e) ==
  CASE e.op = "hsum" ->
         Bad(~e.out.ok \/ e.out.v # Sum(e.alg, Cat(e.parts)), "digest of " \o e.how)
    [] e.op = "hstart" -> Bad(~e.out.ok, "hash object refused")
    [] e.op = "hmore" -> Bad(~e.out.ok, "hash object not continued")
    [] e.op = "hend" ->
         IF e.r \notin DOMAIN w.H THEN {}
         ELSE Bad(~e.out.ok \/ e.out.v # Sum(w.H[e.r].alg, w.H[e.r].data), "digest of a hash object")
    [] e.op = "hwrong" -> Bad(e.out.ok, "helper accepts " \o e.why)
    [] e.op = "hid" ->
         Bad(~e.out.ok, "no id") \cup (IF e.out.ok THEN Bad(e.out.v \in w.ids, "id given out twice")
                                                    \cup Bad(Len(e.out.v) # 32, "form of an id") ELSE {})
    [] e.op = "hkey" -> Bad(~e.out.ok, "no key generated")
    [] e.op = "hvalid" ->
         LET k == w.K[e.k]
             valid == k.loads /\ (k.priv = (e.type = "private"))
         IN IF e.raise /\ ~k.loads THEN Bad(e.out.ok, "a key that cannot be loaded raises no error")
            ELSE Bad(~e.out.ok \/ e.out.v # valid, "validity of a key")
    [] e.op \in {"hmake", "hremove", "hgo"} -> {}
    [] e.op = "hexists" ->
         Bad(~e.out.ok \/ e.out.v # (Back(w, e) /\ Kind(w, Absolute(w, e)) = e.kind), "existence of a " \o e.kind)
    [] e.op = "htime" ->
         Bad(~e.out.ok, "no time stamp")
         \cup (IF e.out.ok THEN Bad(e.out.v < e.lo \/ e.out.v > e.hi, "time of a time stamp") ELSE {})
    [] e.op = "hproof" -> Bad(~e.out.ok, "no proof object made")
    [] e.op = "hshow" ->
         LET o == w.O[e.r] IN
         Bad(~e.out.ok \/ e.out.fields # o.fields \/ e.out.ts # o.ts, "fields a proof shows as " \o e.how)
    [] OTHER -> {[tags |-> {"MACHINERY"}, clause |-> "unknown event " \o e.op]}
=============================================================================
