-------------------------------- MODULE Pymt --------------------------------
(***************************************************************************)
(* The tries of pymt as one state machine.                                 *)
(*                                                                         *)
(* The system is a set of trie objects ("handles") of four kinds:          *)
(*   mpt     MPT          keys and values                                  *)
(*   empt    EMPT         keys and values, values kept in a data storage   *)
(*   sparse  SparseEMPT   keys and references, no data                     *)
(*   root    RootEMPT     a root and nothing else                          *)
(* each in plain or secure mode and each on a node storage that several    *)
(* handles may share.  Its transitions are the calls of the public         *)
(* interface, written as events e: a record with the name of the call, its *)
(* arguments and (in a recorded execution) what the call answered, e.out.  *)
(*                                                                         *)
(*   Step(w, e)   the state after event e in state w                       *)
(*   Judge(w, e)  the clauses of the specification e.out breaks            *)
(*                                                                         *)
(* Byte strings are hexadecimal text.  A value is a token: one character   *)
(* for its type (b bytes, a bytearray, o object) followed by its bytes.    *)
(***************************************************************************)
EXTENDS Trie

Kinds == {"mpt", "empt", "sparse", "root"}

Hex(tok)     == Drop(tok, 1)
Path(sec, k) == IF sec THEN Keccak(k) ELSE k

(* The reference an extended trie stores for a pair: DataReference. *)
RefHash(k, v) == Keccak(k \o v)
RefEnc(k, v)  == RlpList(<<RlpStr("4646"), RlpStr(k), RlpStr(v),
                           RlpStr(StripZeros(RefHash(k, v)))>>)

(* What the trie of a handle stores for a pair. *)
Stored(kind, k, tok) == IF kind = "mpt" THEN Hex(tok) ELSE RefEnc(k, Hex(tok))

EmptyFun  == [x \in {} |-> ""]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Range(s)  == {s[i] : i \in DOMAIN s}

(* The trie content that belongs to a map from keys to value tokens. *)
ContentOf(kind, sec, kv) ==
  LET ps == [k \in DOMAIN kv |-> Path(sec, k)]
  IN [p \in Range(ps) |-> LET k == CHOOSE k \in DOMAIN kv : ps[k] = p
                          IN Stored(kind, k, kv[k])]

(***************************************************************************)
(* State: T the handles, S the snapshots taken (by name), P the proofs,    *)
(* G the nodes (by hash) that may be missing from a node storage.          *)
(*   kv    key -> value token: what was last written through the trie      *)
(*   m     the trie content this amounts to                                *)
(*   data  key -> value token: what is in the data storage (empt)          *)
(*   via   how the handle came about                                       *)
(*   since what happened since the handle was last observed                *)
(*   lost  the handle is known to deviate: nothing more is asked of it     *)
(*   size  the sizes and root reference it showed when last observed;      *)
(*         unseen after a write to its node storage                        *)
(***************************************************************************)
Sizes     == {"nodes", "bytes", "store"}
Unseen    == [f \in {} |-> 0]
SizeOf(e) == [f \in (Sizes \cup {"root"}) \cap DOMAIN e |-> e[f]]

Handle(kind, sec, st, kv, m, data, via) ==
  [kind |-> kind, sec |-> sec, st |-> st, kv |-> kv, m |-> m, data |-> data,
   via |-> via, since |-> {}, lost |-> FALSE, size |-> Unseen]

InitWorld == [T |-> EmptyFun, S |-> EmptyFun, P |-> EmptyFun, G |-> EmptyFun]

Put(f, x, y) == (x :> y) @@ f

(* Book-keeping of `since`. *)
Wrote(w, h) ==
  [w EXCEPT !.T = [g \in DOMAIN @ |->
     [@[g] EXCEPT !.since = @ \cup {IF g = h THEN "self"
                                     ELSE IF w.T[g].st = w.T[h].st THEN "store" ELSE "other"},
                  !.size = IF w.T[g].st = w.T[h].st THEN Unseen ELSE @]]]
Asked(w, h) ==
  [w EXCEPT !.T = [g \in DOMAIN @ |->
     IF w.T[g].st = w.T[h].st THEN [@[g] EXCEPT !.since = @ \cup {"read"}] ELSE @[g]]]

Lose(w, h) == [w EXCEPT !.T[h].lost = TRUE]

(* Writing and deleting one pair. *)
WriteKV(w, h, k, tok) ==
  LET t == w.T[h]
  IN [w EXCEPT !.T[h] = [t EXCEPT
        !.kv = Put(@, k, tok),
        !.m = Put(@, Path(t.sec, k), Stored(t.kind, k, tok)),
        !.data = IF t.kind = "empt" THEN Put(@, k, tok) ELSE @]]
DropKV(w, h, k) ==
  LET t == w.T[h]
  IN [w EXCEPT !.T[h] = [t EXCEPT
        !.kv = Without(@, k), !.m = Without(@, Path(t.sec, k)), !.data = Without(@, k)]]
DropAll(w, h) ==
  [w EXCEPT !.T[h].kv = EmptyFun, !.T[h].m = EmptyContent, !.T[h].data = EmptyFun]

Live(t, k)     == k \in DOMAIN t.kv
Intact(t)      == t.kind # "empt" \/ t.data = t.kv
(* The pair can be read: it is there and, in an empt, its data is genuine. *)
Readable(t, k) == /\ Live(t, k)
                  /\ t.kind = "empt" => k \in DOMAIN t.data /\ Hex(t.data[k]) = Hex(t.kv[k])
ReadTok(t, k)  == IF t.kind = "empt" THEN t.data[k] ELSE "b" \o Hex(t.kv[k])
(* The pair can be deleted. *)
Removable(t, k) == Live(t, k) /\ (t.kind = "empt" => k \in DOMAIN t.data)

-----------------------------------------------------------------------------
(* The call succeeds, as far as the specification determines it. *)
Allowed(w, e) ==
  LET t == w.T[e.h]
  IN CASE e.op \in {"update", "setitem", "clear", "rebuild", "setdefault"} -> TRUE
       [] e.op \in {"delete", "delitem"} -> Removable(t, e.k)
       [] e.op = "pop" -> Readable(t, e.k) \/ "default" \in DOMAIN e
       [] e.op = "popitem" -> DOMAIN t.kv # {}
       [] e.op = "poi" -> Path(t.sec, e.k) \in DOMAIN t.m
       [] e.op = "poe" -> DOMAIN t.m # {} /\ Path(t.sec, e.k) \notin DOMAIN t.m
       [] e.op = "refuse" -> FALSE
       [] OTHER -> TRUE

Mutators == {"update", "setitem", "delete", "delitem", "pop", "popitem", "clear",
             "setdefault", "rebuild"}

(* Effect of a permitted mutation.  A key popitem took is known from its answer. *)
Effect(w, e) ==
  LET t == w.T[e.h]
  IN CASE e.op \in {"update", "setitem"} -> WriteKV(w, e.h, e.k, e.v)
       [] e.op \in {"delete", "delitem"} -> DropKV(w, e.h, e.k)
       [] e.op = "pop" -> IF Live(t, e.k) THEN DropKV(w, e.h, e.k) ELSE w
       [] e.op = "popitem" -> IF e.out.k \in DOMAIN t.kv THEN DropKV(w, e.h, e.out.k) ELSE w
       [] e.op = "clear" -> DropAll(w, e.h)
       [] e.op = "setdefault" -> IF Live(t, e.k) THEN w ELSE WriteKV(w, e.h, e.k, e.v)
       [] e.op = "rebuild" ->
            LET n == [w EXCEPT !.T[e.h].kv = t.data,
                               !.T[e.h].m = ContentOf("empt", t.sec, t.data),
                               !.T[e.h].via = @ \cup {"rebuilt"}]
            IN \* rebuilding clears the node storage, also for the others on it
               [n EXCEPT !.T = [g \in DOMAIN @ |->
                  IF g # e.h /\ @[g].st = t.st THEN [@[g] EXCEPT !.lost = TRUE] ELSE @[g]]]

(***************************************************************************)
(* Failures.  A storage of the user can fail: e.fired says that it did     *)
(* during the call (e.out tells what the call made of it), e.after what    *)
(* the trie shows right after a call that was not completed.               *)
(***************************************************************************)
Fired(e)     == "fired" \in DOMAIN e /\ e.fired
HashOf(m)    == IF DOMAIN m = {} THEN EmptyHash ELSE Keccak(Enc(m))
Rows(e)      == [k \in {e.after.rows[i][1] : i \in DOMAIN e.after.rows} |->
                   LET i == CHOOSE i \in DOMAIN e.after.rows : e.after.rows[i][1] = k
                   IN e.after.rows[i][2]]
Holes(w, st) == IF st \in DOMAIN w.G THEN w.G[st] ELSE {}

(* Nodes without which a statement about path is not established: those on *)
(* the way down that are reached by hash.                                  *)
Required(m, path) ==
  LET ns == PathNodes(m, path)
  IN {ns[i] : i \in {j \in DOMAIN ns : j = 1 \/ Len(ns[j]) >= 64}}

(* A node on the way to key k may be missing. *)
Touched(w, t, k) ==
  /\ Holes(w, t.st) # {}
  /\ DOMAIN t.m # {}
  /\ \E n \in Required(t.m, Path(t.sec, k)) : Keccak(n) \in Holes(w, t.st)

(* The call may end with an error that is not its own. *)
Excused(w, e) ==
  \/ Fired(e)
  \/ /\ e.op \in {"poi", "poe", "ask"} /\ Touched(w, w.T[e.h], e.k)
  \/ /\ e.op \in Mutators /\ Holes(w, w.T[e.h].st) # {}

(* Which pair popitem takes is open, and so is whether that one can be read. *)
Unsettled(w, e) == e.op = "popitem" /\ ~Intact(w.T[e.h])

(* What the trie may contain after a call that was not completed: all or   *)
(* nothing of a write to one pair, some of the deletions of clear.  A trie *)
(* that keeps its data elsewhere may have changed in one place only.       *)
Partly(w, e) ==
  LET t == w.T[e.h]
      one == Effect(w, e).T[e.h]
      subsets(f) == {[k \in K |-> f[k]] : K \in SUBSET DOMAIN f}
  IN IF e.op \in {"clear", "popitem"}
     THEN LET left == {d \in subsets(t.kv) : e.op = "clear" \/ Cardinality(DOMAIN t.kv) - Cardinality(DOMAIN d) <= 1}
          IN [kvs |-> left, datas |-> left]
     ELSE IF t.kind = "empt" THEN [kvs |-> {t.kv, one.kv}, datas |-> {t.data, one.data}]
     ELSE [kvs |-> {t.kv}, datas |-> {t.data}]

(* The state after it, decided by what was seen; lost if it is none of them. *)
Interrupted(w, e) ==
  LET t == w.T[e.h]
      p == Partly(w, e)
      c(kv) == IF kv = t.kv THEN t.m
               ELSE [x \in {Path(t.sec, k) : k \in DOMAIN kv} |->
                       LET k == CHOOSE k \in DOMAIN kv : Path(t.sec, k) = x IN Stored(t.kind, k, kv[k])]
      fits == {kv \in p.kvs : HashOf(c(kv)) = e.after.hash}
      data == IF t.kind = "empt" THEN Rows(e) ELSE EmptyFun
  IN IF e.op = "rebuild"                   \* nothing is said of the trie until it is rebuilt
     THEN [w EXCEPT !.T = [g \in DOMAIN @ |->
             IF g = e.h THEN [@[g] EXCEPT !.lost = TRUE, !.via = @ \cup {"unbuilt"}]
             ELSE IF @[g].st = t.st THEN [@[g] EXCEPT !.lost = TRUE] ELSE @[g]]]
     ELSE IF fits = {} \/ (t.kind = "empt" /\ data \notin p.datas) THEN Lose(w, e.h)
     ELSE LET kv == CHOOSE kv \in fits : TRUE
          IN [w EXCEPT !.T[e.h].kv = kv, !.T[e.h].m = c(kv), !.T[e.h].data = data]

JudgeInterrupted(w, e) ==
  LET t == w.T[e.h]
      n == Interrupted(w, e)
      tags == IF Fired(e) THEN {"C28"} ELSE {"C29"}
  IN IF e.op = "rebuild"
     THEN IF Rows(e) # t.data THEN {[tags |-> tags, clause |-> "data changed by an interrupted rebuild"]} ELSE {}
     ELSE IF n.T[e.h].lost THEN {[tags |-> tags, clause |-> "changed by a call that failed: " \o e.op]} ELSE {}

(* The storages of e.h failed: from now on that is one more thing to blame. *)
Hurt(w, e) ==
  IF ~Fired(e) THEN w
  ELSE [w EXCEPT !.T = [g \in DOMAIN @ |->
          IF @[g].st = w.T[e.h].st THEN [@[g] EXCEPT !.via = @ \cup {"fault"}] ELSE @[g]]]

Unbuilt(w, e) == e.op = "rebuild" /\ "unbuilt" \in w.T[e.h].via

StepMutator(w, e) ==
  IF w.T[e.h].lost /\ ~(Unbuilt(w, e) /\ e.out.ok) THEN w
  ELSE IF ~e.out.ok /\ Allowed(w, e) /\ Excused(w, e) THEN Interrupted(Wrote(w, e.h), e)
  ELSE IF ~e.out.ok /\ Unsettled(w, e) THEN Asked(w, e.h)
  ELSE IF Allowed(w, e) # e.out.ok THEN Lose(Wrote(w, e.h), e.h)
  ELSE IF ~e.out.ok THEN Asked(w, e.h)
  ELSE IF Unsettled(w, e) /\ ~Readable(w.T[e.h], e.out.k) THEN Lose(Wrote(w, e.h), e.h)
  ELSE LET n == Wrote(Effect(w, e), e.h)
       IN IF Unbuilt(w, e) THEN [n EXCEPT !.T[e.h].lost = FALSE, !.T[e.h].via = @ \ {"unbuilt"}] ELSE n

Step(w, e) ==
  CASE e.op = "new" ->
         [w EXCEPT !.T = Put(@, e.h, Handle(e.kind, e.sec, e.st, EmptyFun, EmptyContent, EmptyFun, {"new"}))]
    [] e.op = "snap" ->
         LET t == w.T[e.h] IN [w EXCEPT !.S = Put(@, e.x, [kv |-> t.kv, m |-> t.m, kind |-> t.kind, lost |-> t.lost])]
    [] e.op = "open" ->
         LET s == w.S[e.x]
             d == IF e.kind = "empt" THEN w.T[e.d].data ELSE EmptyFun
         IN [w EXCEPT !.T = Put(@, e.h, [Handle(e.kind, e.sec, e.st, s.kv, s.m, d, {"open"})
                                         EXCEPT !.lost = s.lost \/ ~e.out.ok])]
    [] e.op = "codec" ->
         LET t == w.T[e.h]
         IN Asked([Hurt(w, e) EXCEPT !.T = Put(@, e.h2, [Handle(t.kind, t.sec, e.st, t.kv, t.m, EmptyFun, t.via \cup {"codec"})
                                          EXCEPT !.lost = t.lost \/ ~e.out.ok]),
                              !.G = Put(@, e.st, Holes(w, t.st))], e.h)
    [] e.op = "view" ->
         LET t == w.T[e.h]
         IN Asked([Hurt(w, e) EXCEPT !.T = Put(@, e.h2, [Handle(e.kind, t.sec, e.st, t.kv, t.m, EmptyFun, t.via \cup {"view"})
                                          EXCEPT !.lost = t.lost \/ ~e.out.ok]),
                              !.G = Put(@, e.st, Holes(w, t.st))], e.h)
    [] e.op = "adopt" -> \* a new empt over the given data, nothing in its trie
         [w EXCEPT !.T = Put(@, e.h, Handle("empt", e.sec, e.st, EmptyFun, EmptyContent, w.T[e.d].data, {"adopt"}))]
    [] e.op = "tamper" ->
         [w EXCEPT !.T[e.h].data = IF "v" \in DOMAIN e THEN Put(@, e.k, e.v) ELSE Without(@, e.k)]
    [] e.op \in Mutators ->
         StepMutator(Hurt(w, e), e)
    [] e.op = "ask" -> Asked(Hurt(w, e), e.h)
    [] e.op = "prune" -> \* a storage (again) without some of its nodes
         [w EXCEPT !.G = Put(@, e.to, Holes(w, e.st) \cup Range(e.nodes)),
                   !.T = [g \in DOMAIN @ |-> IF @[g].st = e.to THEN [@[g] EXCEPT !.size = Unseen] ELSE @[g]]]
    [] e.op \in {"poi", "poe"} ->
         LET t == w.T[e.h]
             n == IF e.out.ok /\ ~t.lost
                  THEN [w EXCEPT !.P = Put(@, e.p,
                          [type |-> e.out.type, target |-> e.out.target, root |-> e.out.root,
                           nodes |-> e.out.nodes, m |-> t.m, by |-> e.h, sec |-> t.sec,
                           honest |-> Allowed(w, e)])]
                  ELSE w
         IN Asked(Hurt(n, e), e.h)
    [] e.op = "forge" ->
         [w EXCEPT !.P = Put(@, e.p,
            [type |-> e.type, target |-> e.target, root |-> e.root, nodes |-> e.nodes,
             m |-> EmptyContent, by |-> "", sec |-> FALSE, honest |-> FALSE])]
    [] e.op \in {"verify", "refuse", "mapview", "peek"} -> Asked(w, e.h)
    [] e.op = "eq" -> Asked(Asked(w, e.h), e.h2)
    [] e.op = "obs" ->
         [w EXCEPT !.T[e.h].since = {}, !.T[e.h].size = SizeOf(e)]
    [] OTHER -> w

-----------------------------------------------------------------------------
(* Which properties a deviation of handle t bears on. *)
Base(t) == CASE t.kind = "mpt" -> {"C01"} [] t.kind = "empt" -> {"C11"}
             [] t.kind = "sparse" -> {"C13"} [] OTHER -> {"C13"}
Origin(t) ==
  (IF "codec" \in t.via THEN {"C10"} ELSE {}) \cup
  (IF "view" \in t.via THEN {"C13"} ELSE {}) \cup
  (IF "open" \in t.via THEN {"C04"} ELSE {}) \cup
  (IF t.via \cap {"rebuilt"} # {} THEN {"C14"} ELSE {}) \cup
  (IF "fault" \in t.via THEN {"C28"} ELSE {}) \cup
  (IF t.sec THEN {"C26"} ELSE {})
(* A deviation that appeared although nothing was written through t. *)
Drift(t) ==
  IF "self" \in t.since THEN {}
  ELSE (IF "read" \in t.since THEN {"C03"} ELSE {}) \cup
       (IF "store" \in t.since THEN {"C04"} ELSE {}) \cup
       (IF "other" \in t.since THEN {"C15"} ELSE {}) \cup
       (IF t.since = {} /\ "new" \in t.via /\ DOMAIN t.kv = {} THEN {"C15"} ELSE {}) \cup
       (IF "view" \in t.via THEN {"C13"} ELSE {})

Bad(cond, tags, name) == IF cond THEN {[tags |-> tags, clause |-> name]} ELSE {}

(* The answer of a read of key k: out = [ok, v]. *)
ReadBad(t, k, out) ==
  IF Readable(t, k) THEN ~out.ok \/ out.v # ReadTok(t, k) ELSE out.ok

HasBad(t, k, out) == ~out.ok \/ out.v # Live(t, k)

(* The reference of a pair as reported: [ok, k, v, hash]. *)
RefBad(t, k, out) ==
  IF Live(t, k)
  THEN ~out.ok \/ out.k # k \/ out.v # Hex(t.kv[k]) \/ out.hash # RefHash(k, Hex(t.kv[k]))
  ELSE out.ok

(* With a node missing on the way any of these may also be an error. *)
Lenient(w, t, k, out, bad) == bad /\ ~(~out.ok /\ Touched(w, t, k))

(* Everything an observation of a handle shows. *)
JudgeObs(w, t, e) ==
  LET enc  == IF DOMAIN t.m = {} THEN "" ELSE Enc(t.m)
      hash == IF enc = "" THEN EmptyHash ELSE Keccak(enc)
      ref  == IF enc = "" THEN "" ELSE IF Len(enc) < 64 THEN enc ELSE hash
      tags == Origin(t) \cup Drift(t) \cup (IF Holes(w, t.st) = {} THEN {} ELSE {"C29"})
      tampered == ~Intact(t)
      gettags(k) == Base(t) \cup tags \cup (IF tampered THEN {"C12"} ELSE {})
  IN  UNION {Bad(Lenient(w, t, e.get[i].k, e.get[i].out, ReadBad(t, e.get[i].k, e.get[i].out)), gettags(e.get[i].k),
                 "get " \o e.get[i].k) : i \in DOMAIN e.get}
      \cup UNION {Bad(Lenient(w, t, e.has[i].k, e.has[i].out, HasBad(t, e.has[i].k, e.has[i].out)), Base(t) \cup tags,
                      "contains " \o e.has[i].k) : i \in DOMAIN e.has}
      \cup UNION {Bad(Lenient(w, t, e.ref[i].k, e.ref[i].out, RefBad(t, e.ref[i].k, e.ref[i].out)), {"C27"} \cup Base(t) \cup tags,
                      "reference " \o e.ref[i].k) : i \in DOMAIN e.ref}
      \cup Bad(e.hash # hash, {"C02"} \cup (IF t.kind = "mpt" THEN {} ELSE Base(t)) \cup tags, "root hash")
      \cup (IF "root" \in DOMAIN e
            THEN Bad(e.root # ref /\ ~(enc = "" /\ e.root = EmptyHash),
                     {"C02"} \cup (IF t.kind = "mpt" THEN {} ELSE Base(t)) \cup tags, "root reference")
            ELSE {})
      \cup (IF "len" \in DOMAIN e /\ ~tampered
            THEN Bad(e.len # Cardinality(DOMAIN t.kv), {"C11"} \cup tags, "len")
                 \cup Bad(Range(e.keys) # DOMAIN t.kv \/ Len(e.keys) # Cardinality(DOMAIN t.kv),
                          {"C11"} \cup tags, "keys")
            ELSE {})
      \cup (IF "items" \in DOMAIN e /\ ~tampered
            THEN Bad(Range(e.items) # {<<k, t.data[k]>> : k \in DOMAIN t.data}
                     \/ Len(e.items) # Cardinality(DOMAIN t.data),
                     {"C11"} \cup tags, "items")
            ELSE {})
      \* the storage the user supplied for the data holds the data
      \cup (IF "rows" \in DOMAIN e
            THEN Bad(Range(e.rows) # {<<k, t.data[k]>> : k \in DOMAIN t.data}
                     \/ Len(e.rows) # Cardinality(DOMAIN t.data),
                     {"C11"} \cup tags, "data storage")
            ELSE {})
      \* asked by the path instead of the key
      \cup (IF "raw" \in DOMAIN e
            THEN UNION {Bad(~e.raw[i].out.ok \/ e.raw[i].out.v # (e.raw[i].k \in DOMAIN t.m), Base(t) \cup tags,
                            "contains path " \o e.raw[i].k) : i \in DOMAIN e.raw}
            ELSE {})
      \* sizes change by writes only
      \cup UNION {Bad(e[f] < 0, {"C03"} \cup tags, "no size: " \o f) : f \in Sizes \cap DOMAIN e}
      \cup UNION {Bad(e[f] # t.size[f], tags, "no longer as shown before: " \o f) : f \in DOMAIN t.size \cap DOMAIN e}
      \cup (IF "secure" \in DOMAIN e
            THEN Bad(e.secure # t.sec, {"C26"} \cup tags, "mode") ELSE {})

(* The mapping as a whole. *)
JudgeView(w, t, out) ==
  LET pairs == {<<k, t.data[k]>> : k \in DOMAIN t.data}
  IN Bad(~out.ok \/ Range(out.pairs) # pairs \/ Len(out.pairs) # Cardinality(pairs)
         \/ Range(out.dict) # pairs \/ out.some # (pairs # {}),
         {"C11"} \cup Origin(t) \cup Drift(t), "the mapping as a whole")

(* All of it, read in one way.  Of altered data nothing but the pairs that *)
(* can be read may come out, whether or not the call ends with an error.   *)
JudgePeek(w, t, out) ==
  LET fine  == {k \in DOMAIN t.data : Readable(t, k)}
      rows  == IF "pairs" \in DOMAIN out THEN Range(out.pairs) ELSE {}
      count(v) == Cardinality({i \in DOMAIN out.vals : out.vals[i] = v})
  IN IF Intact(t)
     THEN Bad(IF ~out.ok THEN TRUE
              ELSE IF "pairs" \in DOMAIN out
              THEN rows # {<<k, t.data[k]>> : k \in fine} \/ Len(out.pairs) # Cardinality(fine)
              ELSE Len(out.vals) # Cardinality(fine)
                   \/ \E v \in Range(out.vals) : count(v) # Cardinality({k \in fine : t.data[k] = v}),
              {"C11"} \cup Origin(t) \cup Drift(t), "all of the mapping")
     ELSE Bad(out.ok /\ IF "pairs" \in DOMAIN out
                        THEN ~(rows \subseteq {<<k, t.data[k]>> : k \in fine})
                        ELSE ~(Range(out.vals) \subseteq {t.data[k] : k \in fine}),
              {"C12"} \cup Origin(t), "all of the mapping, with altered data")

JudgeVerify(w, e) ==
  LET t      == w.T[e.h]
      p      == w.P[e.p]
      poi    == e.kind = "poi"
      said   == e.out.ok /\ e.out.v
      right  == IF poi THEN "MPT-POI" ELSE "MPT-POE"
      empty  == DOMAIN t.m = {}
      claim  == IF poi THEN p.target \in DOMAIN t.m ELSE p.target \notin DOMAIN t.m
      sound  == IF poi THEN {"C06"} ELSE {"C08"}
      full   == IF poi THEN {"C05"} ELSE {"C07"}
      same   == p.m = t.m
      cross  == IF p.sec # t.sec THEN {"C26"} ELSE {}
      tags   == Origin(t) \ (IF t.sec THEN {} ELSE {"C26"})
  IN IF p.type # right
     THEN Bad(said, {"C09"} \cup sound, "proof of the other kind accepted")
     ELSE IF empty
     THEN Bad(said, {"C09"} \cup sound, "proof accepted by an empty trie")
     ELSE Bad(said /\ ~claim,
              sound \cup (IF p.honest THEN {"C09"} ELSE {}) \cup (tags \cap {"C13", "C10"}),
              "proof of a false statement accepted")
     \cup Bad(said /\ claim /\ ~(Required(t.m, p.target) \subseteq Range(p.nodes)),
              sound, "insufficient proof accepted")
     \cup Bad(said /\ claim /\ p.root \notin {RootRef(t.m), RootHash(t.m)},
              {"C09"}, "proof with another claimed root accepted")
     \cup (IF p.honest /\ same
           THEN Bad(~said, full \cup tags \cup cross \cup (IF p.by # e.h THEN {"C09"} ELSE {}),
                    "honest proof rejected")
           ELSE {})
     \cup (IF p.honest /\ ~same
           THEN Bad(~(e.out.ok /\ e.out.v = FALSE), {"C09"}, "stale proof not answered with False")
           ELSE {})

Struck(w, e) == (IF Fired(e) THEN {"C28"} ELSE {}) \cup (IF Holes(w, w.T[e.h].st) # {} THEN {"C29"} ELSE {})

(* An error that says the key is absent although it is there, or present   *)
(* although it is absent.                                                  *)
NoKey   == {"KeyNotFoundError", "ExtensionPathError", "LeafPathError", "BranchPathError"}
Misled(w, e) ==
  LET t == w.T[e.h]
      here == Path(t.sec, e.k) \in DOMAIN t.m /\ (t.kind = "empt" => Readable(t, e.k))
  IN /\ ~e.out.ok
     /\ ~(Fired(e) /\ e.fuse.exc = "key")    \* a storage that says itself that the key is absent
     /\ IF e.op = "poe" THEN e.out.e = "PoeError" /\ ~here /\ DOMAIN t.m # {}
        ELSE e.out.e \in NoKey \cup {"PoiError"} /\ here
JudgeError(w, e) ==
  IF e.op \in {"ask", "poi", "poe", "delete", "delitem"}
  THEN Bad(Excused(w, e) /\ Misled(w, e), Struck(w, e), "error of another key: " \o e.op)
  ELSE {}

(* One question, while the storage may fail. *)
JudgeAsk(w, e) ==
  LET t == w.T[e.h]
      tags == Base(t) \cup Origin(t) \cup Struck(w, e)
      bad == CASE e.what \in {"get", "item"} -> ReadBad(t, e.k, e.out)
               [] e.what \in {"has", "in"} -> HasBad(t, e.k, e.out)
               [] e.what = "ref" -> RefBad(t, e.k, e.out)
  IN Bad(bad /\ ~(~e.out.ok /\ Excused(w, e)), tags, "answer of " \o e.what) \cup JudgeError(w, e)

(* A proof as made: right kind, target, claimed root.  That it suffices is *)
(* judged when it is verified, but a missing node is reported here.        *)
JudgeMade(w, e) ==
  LET t    == w.T[e.h]
      path == Path(t.sec, e.k)
      poi  == e.op = "poi"
      full == IF poi THEN {"C05"} ELSE {"C07"}
      sound == IF poi THEN {"C06"} ELSE {"C08"}
      tags == Origin(t) \cup Struck(w, e)
  IN IF ~e.out.ok /\ Excused(w, e) THEN JudgeError(w, e)
     ELSE IF Allowed(w, e)
     THEN IF ~e.out.ok THEN Bad(TRUE, full \cup tags, "no proof made")
          ELSE Bad(e.out.type # (IF poi THEN "MPT-POI" ELSE "MPT-POE"), full, "kind of the proof made")
               \cup Bad(e.out.target # path, full \cup tags, "target of the proof made")
               \cup Bad(e.out.root \notin {RootRef(t.m), RootHash(t.m)}, full \cup {"C09"} \cup tags,
                        "root of the proof made")
               \cup Bad(~(Required(t.m, path) \subseteq Range(e.out.nodes)), full \cup tags,
                        "node missing from the proof made")
     ELSE Bad(e.out.ok, sound \cup tags, "proof of a false statement made")

JudgeMutation(w, e) ==
  IF ~e.out.ok /\ Allowed(w, e) /\ Excused(w, e) THEN JudgeInterrupted(w, e) \cup JudgeError(w, e) ELSE
  LET t == w.T[e.h]
      tags == Base(t) \cup Origin(t) \cup Struck(w, e) \cup (IF e.op = "rebuild" THEN {"C14"} ELSE {})
              \cup (IF Intact(t) THEN {} ELSE {"C12"})
      a == Allowed(w, e)
  IN Bad(a /\ ~e.out.ok /\ ~Unsettled(w, e), tags, e.op \o " refused")
     \cup Bad(~a /\ e.out.ok, tags, e.op \o " not refused")
     \cup (IF ~(a /\ e.out.ok) THEN {}
           ELSE CASE e.op = "pop" ->
                       Bad(e.out.v # (IF Live(t, e.k) THEN t.data[e.k] ELSE e.default), tags, "answer of pop")
                  [] e.op = "popitem" ->
                       Bad(~Readable(t, e.out.k) \/ e.out.v # t.data[e.out.k], tags, "answer of popitem")
                  [] e.op = "setdefault" ->
                       Bad(e.out.v # (IF Live(t, e.k) THEN t.data[e.k] ELSE e.v), tags, "answer of setdefault")
                  [] OTHER -> {})

AllTries == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
             "C12", "C13", "C14", "C15", "C25", "C26", "C27", "C28", "C29"}

Judge(w, e) ==
  CASE e.op \in {"tamper", "prune"} -> {}
    [] e.op = "ask" -> IF w.T[e.h].lost THEN {} ELSE JudgeAsk(w, e)
    [] e.op = "mapview" -> IF w.T[e.h].lost \/ ~Intact(w.T[e.h]) THEN {} ELSE JudgeView(w, w.T[e.h], e.out)
    [] e.op = "peek" -> IF w.T[e.h].lost THEN {} ELSE JudgePeek(w, w.T[e.h], e.out)
    [] e.op = "forge" -> Bad(~e.out.ok, {"C05", "C06", "C07", "C08", "C09"}, "no proof object made")
    [] e.op \in {"new", "adopt"} -> Bad(~e.out.ok, AllTries, "no trie made")
    [] e.op = "obs" -> IF w.T[e.h].lost THEN {} ELSE JudgeObs(w, w.T[e.h], e)
    [] e.op = "snap" -> Bad(~e.out.ok /\ ~w.T[e.h].lost, {"C02", "C04"} \cup Base(w.T[e.h]), "no root")
    [] e.op = "open" -> Bad(~e.out.ok, {"C04"} \cup (IF e.kind = "root" THEN {"C05", "C07", "C13"} ELSE {}),
                            "earlier root not opened")
    [] e.op = "codec" -> IF w.T[e.h].lost THEN {} ELSE Bad(~e.out.ok /\ ~Fired(e), {"C10"}, "not serialized and restored")
    [] e.op = "view" -> IF w.T[e.h].lost THEN {} ELSE Bad(~e.out.ok /\ ~Fired(e), {"C13"}, "no view")
    [] e.op \in Mutators -> IF w.T[e.h].lost /\ ~Unbuilt(w, e) THEN {} ELSE JudgeMutation(w, e)
    [] e.op \in {"poi", "poe"} -> IF w.T[e.h].lost THEN {} ELSE JudgeMade(w, e)
    [] e.op = "verify" -> IF w.T[e.h].lost \/ e.p \notin DOMAIN w.P THEN {} ELSE JudgeVerify(w, e)
    [] e.op = "refuse" -> IF w.T[e.h].lost THEN {}
                          ELSE Bad(e.out.ok, Base(w.T[e.h]) \cup {"C03"}, "not refused: " \o e.what)
    [] e.op = "eq" ->
         LET a == w.T[e.h] b == w.T[e.h2]
         IN IF a.lost \/ b.lost THEN {}
            ELSE Bad(~e.out.ok \/ e.out.eq # (a.m = b.m), {"C25"}, "equality of tries")
                 \cup Bad(e.out.ok /\ a.m = b.m /\ ~e.out.samehash, {"C25"}, "hash of equal tries")
    [] e.op = "drefenc" ->
         Bad(~e.out.ok \/ e.out.v # RefEnc(e.k, e.v) , {"C27"}, "encoding of a reference")
         \cup Bad(e.out.ok /\ e.out.hash # RefHash(e.k, e.v), {"C27"}, "hash of a reference")
    [] e.op = "drefdec" ->
         IF e.bytes = RefEnc(e.k, e.v)
         THEN Bad(~e.out.ok \/ e.out.k # e.k \/ e.out.v # e.v \/ e.out.hash # RefHash(e.k, e.v),
                  {"C27"}, "reference not restored")
         ELSE Bad(e.out.ok, {"C27"},
                  IF e.out.ok /\ e.out.k \o e.out.v = e.k \o e.v /\ e.out.k # e.k
                  THEN "altered reference accepted: boundary between key and data moved"
                  ELSE "altered reference accepted")
    [] e.op = "drefeq" ->
         Bad(~e.out.ok \/ e.out.eq # (e.k = e.k2 /\ e.v = e.v2), {"C25"},
             IF e.k \o e.v = e.k2 \o e.v2 /\ e.k # e.k2
             THEN "equality of references: boundary between key and data moved"
             ELSE "equality of references")
         \cup Bad(e.out.ok /\ e.k = e.k2 /\ e.v = e.v2 /\ ~e.out.samehash, {"C25"}, "hash of equal references")
    [] e.op = "eqother" -> Bad(~e.out.ok \/ e.out.eq, {"C25"}, "equal to another kind of object: " \o e.what)
    [] OTHER -> {[tags |-> {"MACHINERY"}, clause |-> "unknown event " \o e.op]}

(* After a bad observation the handle is known to deviate. *)
After(w, e, bad) ==
  LET n == Step(w, e)
  IN IF bad # {} /\ e.op = "obs" THEN Lose(n, e.h) ELSE n
=============================================================================
