------------------------------ MODULE MCHelpers ------------------------------
(***************************************************************************)
(* Directory trees with a working directory, and running hash objects, as  *)
(* Helpers moves them.  The way utils.py asks the operating system for a   *)
(* name ('./' is replaced by the working directory, everything else is the *)
(* system's) is checked against the meaning; running hash objects must not *)
(* touch each other.                                                       *)
(***************************************************************************)
EXTENDS Helpers, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)[1]
VARIABLES w, n
vars == <<w, n>>

Set(s) == {s[i] : i \in DOMAIN s}
Names  == Set(U.names) \cup {x \o y : <<x, y>> \in Set(U.names) \X Set(U.below)}
Kinds  == {"file", "dir"}
Hashes == {"h1", "h2"}

(* The operating system: a name is resolved from the working directory.    *)
OsKind(x)  == Kind(w, IF StartsWith(x, "/") THEN x ELSE w.at \o "/" \o x)
(* utils.py *)
Algo(x, k) == OsKind(IF StartsWith(x, "./") THEN w.at \o "/" \o Drop(x, 2) ELSE x) = k

DirAt(p)   == p = "" \/ Kind(w, p) = "dir"
(* The directory a name lies in. *)
Parent(x)  == IF x \in Set(U.names) THEN "" ELSE CHOOSE p \in Set(U.names) : StartsWith(x, p \o "/")

Told(act) == PrintT("@@EDGE " \o ToJson([
  F |-> {<<x, w.F[x]>> : x \in DOMAIN w.F}, at |-> w.at, act |-> act, names |-> Names \cup Set(U.below),
  H |-> {<<r, w.H[r].alg, w.H[r].data>> : r \in DOMAIN w.H}]))
Does(act, e) == w' = HStep(w, e) /\ n' = n /\ Told(act)
Try(act) == Does(act, act)
Ok(act)  == n < U.deep /\ w' = HStep(w, act @@ ("out" :> [ok |-> TRUE])) /\ n' = n + 1 /\ Told(act)

Trees ==
  \/ \E x \in Names, k \in Kinds : /\ x \notin DOMAIN w.F /\ DirAt(Parent(x))
                                  /\ Try([op |-> "hmake", name |-> x, kind |-> k])
  \/ \E x \in DOMAIN w.F : ~Under(w.at, x) /\ Try([op |-> "hremove", name |-> x])
  \/ \E x \in DOMAIN w.F \cup {""} : DirAt(x) /\ Try([op |-> "hgo", name |-> x])

Running ==
  \/ \E r \in Hashes, a \in Set(U.algs), s \in Set(U.data), how \in {"data", "own"} :
       r \notin DOMAIN w.H /\ Ok([op |-> "hstart", r |-> r, alg |-> a, data |-> s, how |-> how])
  \/ \E r \in DOMAIN w.H, s \in Set(U.data) : Ok([op |-> "hmore", r |-> r, data |-> s])

Init == w = InitHelpers /\ n = 0
Next == IF U.what = "trees" THEN Trees ELSE Running
Spec == Init /\ [][Next]_vars

(* C31 *)
Exact == \A x \in Set(U.names) \cup Set(U.below), k \in Kinds :
           /\ Algo(x, k) = (Kind(w, Absolute(w, [form |-> "absolute", name |-> x])) = k)
           /\ Algo("." \o x, k) = (Kind(w, Absolute(w, [form |-> "here", name |-> x])) = k)
           /\ Algo(Drop(x, 1), k) = (Kind(w, Absolute(w, [form |-> "relative", name |-> x])) = k)
(* Everything in the tree lies in a directory, and so does the program.    *)
Whole == DirAt(w.at) /\ \A x \in DOMAIN w.F : DirAt(Parent(x))
(* A step touches one running hash object. *)
Apart == [][Cardinality({r \in DOMAIN w.H : w'.H[r] # w.H[r]}) <= 1 /\ DOMAIN w.H \subseteq DOMAIN w'.H]_w
=============================================================================
