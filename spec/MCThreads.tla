----------------------------- MODULE MCThreads ------------------------------
(***************************************************************************)
(* C32: calls running at the same time, one access to the store at a time. *)
(*                                                                         *)
(* Several threads work on tries that share one store.  A trie has one     *)
(* thread that writes it, or any number that read it.  A call that writes  *)
(* adds its nodes to the store one by one and sets the root last; a call   *)
(* that reads fetches one node after the other.                            *)
(***************************************************************************)
EXTENDS TrieAlgo, Json, IOUtils

Us     == JsonDeserialize(IOEnv.UNIVERSE)

VARIABLE u
U      == Us[u]
Elems(s) == {s[i] : i \in DOMAIN s}
Keys   == Elems(U.keys)
Vals   == Elems(U.vals)
Threads == DOMAIN U.of                \* thread -> the trie it works on
Tries  == Elems(U.of)
Writes(t) == U.writes[t]
TrieOf(t) == U.of[t]

VARIABLES st, root, kv                \* the store; the root and content of every trie
VARIABLE run                          \* what every thread is in the middle of
VARIABLE left                         \* calls that every thread has yet to make
VARIABLE ans                          \* the last answer of every thread
VARIABLE log                          \* the schedule, when it is asked for

vars == <<u, st, root, kv, run, left, ans, log>>

Idle == [do |-> "idle"]
None == [k |-> "-", v |-> ""]
Log(e) == log' = IF U.log THEN Append(log, e) ELSE log

RECURSIVE Filled(_, _, _)             \* the store and root after some writes
Filled(s, r, ws) == IF ws = <<>> THEN [st |-> s, r |-> r]
                    ELSE LET x == Insert(s, r, Head(ws)[1], Head(ws)[2]) IN Filled(x.st, x.r, Tail(ws))
RECURSIVE Told(_, _)
Told(m, ws) == IF ws = <<>> THEN m ELSE Told((Head(ws)[1] :> Head(ws)[2]) @@ m, Tail(ws))

Init ==
  /\ u \in DOMAIN Us
  /\ LET x == Filled([h \in {} |-> Nil], Nil, U.start)    \* all tries start equal
     IN /\ st = x.st
        /\ root = [i \in Tries |-> x.r]
  /\ kv = [i \in Tries |-> Told(EmptyContent, U.start)]
  /\ run = [t \in Threads |-> Idle]
  /\ left = [t \in Threads |-> U.calls]
  /\ ans = [t \in Threads |-> None]
  /\ log = <<>>

Begin(t, job, e) ==
  /\ left[t] > 0 /\ run[t] = Idle
  /\ run' = [run EXCEPT ![t] = job]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ ans' = [ans EXCEPT ![t] = None]
  /\ Log(e)
  /\ UNCHANGED <<u, st, root, kv>>

Added(x) == [h \in DOMAIN x.st \ DOMAIN st |-> x.st[h]]

BeginWrite(t, k, v) ==
  /\ Writes(t)
  /\ LET i == TrieOf(t)
         x == Insert(st, root[i], k, v)
     IN Begin(t, [do |-> "write", add |-> Added(x), r |-> x.r, kv |-> (k :> v) @@ kv[i]],
              [t |-> t, do |-> "put", k |-> k, v |-> v])

BeginDelete(t, k) ==
  /\ Writes(t)
  /\ LET i == TrieOf(t)
         x == Remove(st, root[i], k)
     IN /\ k \in DOMAIN kv[i]
        /\ Begin(t, [do |-> "write", add |-> Added(x), r |-> x.r, kv |-> [y \in DOMAIN kv[i] \ {k} |-> kv[i][y]]],
                 [t |-> t, do |-> "drop", k |-> k, v |-> ""])

BeginRead(t, k) ==
  Begin(t, [do |-> "read", k |-> k, r |-> root[TrieOf(t)], path |-> k], [t |-> t, do |-> "ask", k |-> k, v |-> ""])

Step(t) == Log([t |-> t, do |-> "step", k |-> "", v |-> ""])

AddNode(t) ==
  /\ run[t].do = "write"
  /\ \E h \in DOMAIN run[t].add :
       /\ st' = IF h \in DOMAIN st THEN st ELSE (h :> run[t].add[h]) @@ st
       /\ run' = [run EXCEPT ![t].add = [g \in DOMAIN @ \ {h} |-> @[g]]]
  /\ Step(t) /\ UNCHANGED <<u, root, kv, left, ans>>

SetRoot(t) ==
  /\ run[t].do = "write" /\ DOMAIN run[t].add = {}
  /\ root' = [root EXCEPT ![TrieOf(t)] = run[t].r]
  /\ kv' = [kv EXCEPT ![TrieOf(t)] = run[t].kv]
  /\ run' = [run EXCEPT ![t] = Idle]
  /\ Log([t |-> t, do |-> "end", k |-> "", v |-> ""])
  /\ UNCHANGED <<u, st, left, ans>>

Answer(t, v) == /\ ans' = [ans EXCEPT ![t] = [k |-> run[t].k, v |-> v]]
                /\ run' = [run EXCEPT ![t] = Idle]
GoOn(t, r, path) == run' = [run EXCEPT ![t].r = r, ![t].path = path] /\ UNCHANGED ans

Fetch(t) ==
  /\ run[t].do = "read"
  /\ LET r == run[t].r
         path == run[t].path
     IN IF r.k = "nil" THEN Answer(t, Missing)
        ELSE LET n == Node(st, r)       \* a missing node is an error of the model
             IN CASE n.k = "leaf" -> Answer(t, IF n.p = path THEN n.v ELSE Missing)
                  [] n.k = "ext"  -> IF StartsWith(path, n.p) THEN GoOn(t, n.r, Drop(path, Len(n.p)))
                                     ELSE Answer(t, Missing)
                  [] n.k = "branch" -> IF path = "" THEN Answer(t, n.v)
                                       ELSE GoOn(t, n.s[At(path, 1)], Drop(path, 1))
  /\ Step(t) /\ UNCHANGED <<u, st, root, kv, left>>

Next ==
  \E t \in Threads :
    \/ \E k \in Keys, v \in Vals : BeginWrite(t, k, v)
    \/ \E k \in Keys : BeginDelete(t, k) \/ BeginRead(t, k)
    \/ AddNode(t) \/ SetRoot(t) \/ Fetch(t)
Spec == Init /\ [][Next]_vars

View == <<u, st, root, kv, run, left, ans>>

Finished == \A t \in Threads : run[t] = Idle /\ left[t] = 0
Told_ == IF U.log /\ \A t \in Threads : run'[t] = Idle /\ left'[t] = 0
         THEN PrintT("@@LOG " \o ToJson([u |-> u, log |-> log'])) ELSE TRUE

-----------------------------------------------------------------------------
(* Every trie keeps its own content, readable at any moment, and its root. *)
Reads == \A i \in Tries, k \in Keys :
           Lookup(st, root[i], k) = IF k \in DOMAIN kv[i] THEN kv[i][k] ELSE Missing
Canonical == \A i \in Tries : IF kv[i] = EmptyContent THEN root[i] = Nil
                              ELSE EncN(Node(st, root[i])) = Enc(kv[i])

(* Every answer is the one of the call alone. *)
Answered == \A t \in Threads :
  ans[t] # None => LET m == kv[TrieOf(t)]
                   IN ans[t].v = IF ans[t].k \in DOMAIN m THEN m[ans[t].k] ELSE Missing

(* Nodes that were saved stay, as they were. *)
Kept == [][\A h \in DOMAIN st : h \in DOMAIN st' /\ st'[h] = st[h]]_vars
=============================================================================
