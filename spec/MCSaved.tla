------------------------------- MODULE MCSaved -------------------------------
(***************************************************************************)
(* Saving and loading of key pairs as keypairs.py does it: what is saved   *)
(* is the name in the open and the key in a box that opens with the        *)
(* passphrase.  One pair p that is renamed, generated again and saved into *)
(* slots, and one pair q that is loaded from them and saved again.         *)
(*                                                                         *)
(* What loading must give is kept beside it (meant) and compared.          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)[1]
Set(s)  == {s[i] : i \in DOMAIN s}
Names   == Set(U.names)
Passes  == Set(U.passes)
Slots   == Set(U.slots)

VARIABLES p, q,        \* [id, name], or None
          files,       \* what the slots hold: [nick, box], box = [pass, id]
          meant        \* what the slots should give: [pass, id, name]
vars == <<p, q, files, meant>>
None == [id |-> 0, name |-> ""]
Box  == [nick |-> "", box |-> <<"", 0>>]
Free == [pass |-> "", id |-> 0, name |-> ""]

Init == /\ p = [id |-> 1, name |-> U.names[1]] /\ q = None
        /\ files = [x \in Slots |-> Box] /\ meant = [x \in Slots |-> Free]

Rename(n) == p.name # n /\ p' = [p EXCEPT !.name = n] /\ UNCHANGED <<q, files, meant>>
Regen     == p' = [p EXCEPT !.id = 3 - @] /\ UNCHANGED <<q, files, meant>>
Save(a, x, w) == /\ a # None
                 /\ files' = [files EXCEPT ![x] = [nick |-> a.name, box |-> <<w, a.id>>]]
                 /\ meant' = [meant EXCEPT ![x] = [pass |-> w, id |-> a.id, name |-> a.name]]
                 /\ UNCHANGED <<p, q>>
Load(x, w) == /\ q' = IF files[x].box[1] = w THEN [id |-> files[x].box[2], name |-> files[x].nick] ELSE q
              /\ UNCHANGED <<p, files, meant>>

Acts == {<<"name", n>> : n \in Names} \cup {<<"regen">>}
        \cup {<<"save", a, x, w>> : a \in {"p", "q"}, x \in Slots, w \in Passes}
        \cup {<<"load", x, w>> : x \in Slots, w \in Passes}
Do(a) == CASE a[1] = "name" -> Rename(a[2])
           [] a[1] = "regen" -> Regen
           [] a[1] = "save" -> Save(IF a[2] = "p" THEN p ELSE q, a[3], a[4])
           [] a[1] = "load" -> Load(a[2], a[3])
Next == \E a \in Acts : /\ Do(a)
                        /\ U.edges => PrintT("@@EDGE " \o ToJson([act |-> a,
                             a |-> [p |-> p, q |-> q, m |-> meant], b |-> [p |-> p', q |-> q', m |-> meant']]))
Spec == Init /\ [][Next]_vars

(* C23: the slots give what they should with their passphrase and nothing with another. *)
Restored == \A x \in Slots : \A w \in Passes :
              /\ files[x].box[1] = w => /\ meant[x].pass = w
                                        /\ meant[x].id = files[x].box[2]
                                        /\ meant[x].name = files[x].nick
              /\ files[x].box[1] # w => meant[x].pass # w
Real == \A x \in Slots : files[x] # Box => files[x].box[2] \in {1, 2} /\ files[x].nick \in Names
=============================================================================
