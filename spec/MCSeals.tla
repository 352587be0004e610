------------------------------- MODULE MCSeals -------------------------------
(***************************************************************************)
(* Signatures and password encryption with perfect cryptography.  After a  *)
(* few signatures and a few encrypted texts, every question is put once:   *)
(* each signature, or junk, for each text and each key; each combination   *)
(* of the three parts of the encrypted texts, or junk, with each password. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)[1]
Set(s)  == {s[i] : i \in DOMAIN s}
Users  == Set(U.users)
Data   == Set(U.data)
Passes == Set(U.passes)

VARIABLES sigs,      \* made: [by, d]
          boxes,     \* made: [pass, d]
          ask        \* the question
vars == <<sigs, boxes, ask>>
None == [kind |-> "none"]
Init == sigs = <<>> /\ boxes = <<>> /\ ask = None

Sign(u, d) == /\ ask = None /\ Len(sigs) < U.sigs /\ sigs' = Append(sigs, [by |-> u, d |-> d]) /\ UNCHANGED <<boxes, ask>>
Seal(w, d) == /\ ask = None /\ Len(boxes) < U.boxes /\ boxes' = Append(boxes, [pass |-> w, d |-> d]) /\ UNCHANGED <<sigs, ask>>

Text(i) == [n |-> i, w |-> boxes[i].pass, d |-> boxes[i].d]      \* under nonce i and the password
Tag(i)  == [n |-> i, w |-> boxes[i].pass, c |-> Text(i)]
Valid(a) == a.sig # 0 /\ sigs[a.sig] = [by |-> a.pub, d |-> a.d]
Opens(a) == /\ \A f \in 1..3 : a.src[f] # 0
            /\ Tag(a.src[2]) = [n |-> a.src[1], w |-> a.pass, c |-> Text(a.src[3])]

Questions == {[kind |-> "sig", pub |-> u, d |-> d, sig |-> s] : u \in Users, d \in Data, s \in 0..Len(sigs)}
             \cup {[kind |-> "box", src |-> s, pass |-> w] : s \in [1..3 -> 0..Len(boxes)], w \in Passes}
Ask == /\ ask = None /\ ask' \in Questions /\ UNCHANGED <<sigs, boxes>>
       /\ (\E i \in DOMAIN U.chosen : U.chosen[i] = [sigs |-> sigs, boxes |-> boxes]) =>
            PrintT("@@EDGE " \o ToJson([sigs |-> sigs, boxes |-> boxes, ask |-> ask']))
Next == \/ \E u \in Users, d \in Data : Sign(u, d)
        \/ \E w \in Passes, d \in Data : Seal(w, d)
        \/ Ask
Spec == Init /\ [][Next]_vars

(* C20 *)
OnlySigned == ask.kind = "sig" =>
  (Valid(ask) <=> \E i \in DOMAIN sigs : ask.sig = i /\ sigs[i].by = ask.pub /\ sigs[i].d = ask.d)
(* C24 *)
OnlyWhole == ask.kind = "box" =>
  (Opens(ask) <=> \E i \in DOMAIN boxes : ask.src = <<i, i, i>> /\ boxes[i].pass = ask.pass)
=============================================================================
