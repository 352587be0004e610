------------------------------- MODULE MCKeys -------------------------------
(***************************************************************************)
(* Envelopes as keypairs.py makes and opens them, with perfect             *)
(* cryptography, against an adversary who is also one of the users (mole). *)
(*                                                                         *)
(* Some envelopes are made.  Then a delivery is put together from          *)
(*   esk    session keys under a receiver's key: those of the envelopes,   *)
(*          the mole's own session key, and the ones the mole received,    *)
(*          both for any receiver                                          *)
(*   nonce, ct   of the envelopes, the mole's own, or (ct) nothing at all  *)
(*   tag    of the envelopes, or the right one under a key the mole knows  *)
(*   sig    of the envelopes, or the mole's own over this delivery,        *)
(* any of them may be junk, and it goes to any receiver as coming from any *)
(* sender.  With U.bound the tag covers the sender and the signature all   *)
(* fields, as the code has it; without, the signature covers the           *)
(* ciphertext only, as it had been (then OnlyWhole does not hold).         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)[1]
Users == {U.users[i] : i \in DOMAIN U.users}
Data  == {U.data[i] : i \in DOMAIN U.data}
Mole  == U.mole

VARIABLES made,       \* sequence of envelopes [from, to, data]
          sent        \* the delivery under consideration, or none
vars == <<made, sent>>

(* Session keys and nonces are numbers: those of the envelopes, 100 for the*)
(* mole's.  No ciphertext is different from another when there is no data. *)
Own  == 100
Nil  == [k |-> 0, d |-> ""]
CText(i)  == IF made[i].data = "" THEN Nil ELSE [k |-> i, d |-> made[i].data]
Esk(i)    == [to |-> made[i].to, k |-> i]
Tag(k, n, s, c)   == [k |-> k, n |-> n, s |-> IF U.bound THEN s ELSE "", c |-> c]
Over(e, n, t, c)  == IF U.bound THEN <<e, n, t, c>> ELSE <<c>>
TagOf(i)  == Tag(i, i, made[i].from, CText(i))
Sig(i)    == [by |-> made[i].from, over |-> Over(Esk(i), i, TagOf(i), CText(i))]

Known == {Own} \cup {i \in DOMAIN made : made[i].to = Mole}

(* A delivery names its fields: i is that of envelope i, 0 is junk.        *)
Esks   == [w : {"of"}, i : 0..Len(made), to : {""}] \cup [w : {"new"}, i : Known, to : Users]
Nonces == 0..Len(made) \cup {Own}
Texts  == 0..Len(made) \cup {Own, 200}          \* 200: nothing
Tags   == [w : {"of"}, i : 0..Len(made)] \cup [w : {"new"}, i : Known]
Sigs   == 0..Len(made) \cup {Own}
Deliveries == [esk : Esks, nonce : Nonces, text : Texts, tag : Tags, sig : Sigs, r : Users, s : Users]

JunkEsk == [to |-> "junk", k |-> 999]
EskT(d) == IF d.esk.w = "new" THEN [to |-> d.esk.to, k |-> d.esk.i]
           ELSE IF d.esk.i = 0 THEN JunkEsk ELSE Esk(d.esk.i)
TextT(d) == CASE d.text = 0 -> [k |-> 999, d |-> "junk"]
              [] d.text = Own -> [k |-> Own, d |-> "own"]
              [] d.text = 200 -> Nil
              [] OTHER -> CText(d.text)
TagT(d) == IF d.tag.w = "new" THEN Tag(d.tag.i, d.nonce, d.s, TextT(d))
           ELSE IF d.tag.i = 0 THEN Tag(999, 0, "", Nil) ELSE TagOf(d.tag.i)
SigT(d) == CASE d.sig = 0 -> [by |-> "junk", over |-> <<>>]
             [] d.sig = Own -> [by |-> Mole, over |-> Over(EskT(d), d.nonce, TagT(d), TextT(d))]
             [] OTHER -> Sig(d.sig)
Accepts(d) ==
  /\ SigT(d) = [by |-> d.s, over |-> Over(EskT(d), d.nonce, TagT(d), TextT(d))]
  /\ EskT(d).to = d.r
  /\ TagT(d) = Tag(EskT(d).k, d.nonce, d.s, TextT(d))

(* The delivery is a whole envelope in the right hands.                    *)
Whole(d) == \E i \in DOMAIN made :
  /\ EskT(d) = Esk(i) /\ d.nonce = i /\ TagT(d) = TagOf(i) /\ TextT(d) = CText(i) /\ SigT(d) = Sig(i)
  /\ made[i].to = d.r /\ made[i].from = d.s
(* The mole writes to somebody in his own name.                            *)
Mine(d) == d.s = Mole /\ EskT(d).k \in Known

(* With a field of his own making: an envelope of his that he makes again  *)
(* is whole here, but not byte for byte.                                   *)
MadeUp(d) == d.esk.w = "new" \/ d.tag.w = "new" \/ Own \in {d.nonce, d.text, d.sig}

(* Deliveries of the chosen envelopes are printed, to be made on the code. *)
Chosen == {U.chosen[i] : i \in DOMAIN U.chosen}
None == [r |-> ""]
Init == made = <<>> /\ sent = None
Make == /\ sent = None /\ Len(made) < U.max
        /\ \E a, b \in Users, d \in Data : made' = Append(made, [from |-> a, to |-> b, data |-> d])
        /\ U.only => \E x \in Chosen : made' = SubSeq(x, 1, Len(made'))
        /\ UNCHANGED sent
Loose(d) == SigT(d).by = d.s /\ EskT(d).to = d.r /\ TagT(d).k = EskT(d).k     \* nearly right
Deliver == /\ sent = None /\ made # <<>>
           /\ sent' \in Deliveries
           /\ made \in Chosen => PrintT("@@EDGE " \o ToJson([made |-> made, sent |-> sent',
                                   near |-> Loose(sent'), mine |-> Mine(sent') /\ MadeUp(sent')]))
           /\ UNCHANGED made
Next == Make \/ Deliver
Spec == Init /\ [][Next]_vars

(* C21: only whole envelopes are opened, by their receiver, for their      *)
(* sender; but for what the mole himself writes.                           *)
OnlyWhole == sent # None => /\ Whole(sent) => Accepts(sent)
                            /\ Accepts(sent) => Whole(sent) \/ Mine(sent)
=============================================================================
