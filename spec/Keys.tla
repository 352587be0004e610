-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Key pairs, signatures, envelopes, saved key pairs and password          *)
(* encryption as one state machine, in the symbolic style: a signature, an *)
(* envelope or an encrypted text is known by the call that made it, and a  *)
(* call that reads one must give back what was put in exactly when it is   *)
(* one of those, whole, and in the right hands.                            *)
(*                                                                         *)
(* A key pair is [kind, id, name]: kind base, auth or enc; id stands for   *)
(* the public key.  Byte strings are hexadecimal text.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyFun == [x \in {} |-> ""]
Put(f, x, y) == (x :> y) @@ f
Bad(cond, tags, name) == IF cond THEN {[tags |-> tags, clause |-> name]} ELSE {}

Fields == {"enc_session_key", "nonce", "tag", "ciphertext", "signature"}

(* State: K key pairs; S the signatures made [id, data, sig]; E envelopes  *)
(* made [fields, from, to, data]; F saved pairs; B encrypted texts made.   *)
InitKeys == [K |-> EmptyFun, S |-> {}, E |-> {}, F |-> EmptyFun, B |-> {}]

CanSign(t)    == t.kind # "enc"
CanEncrypt(t) == t.kind # "auth"

KStep(w, e) ==
  CASE e.op = "knew" -> [w EXCEPT !.K = Put(@, e.h, [kind |-> e.kind, id |-> e.out.id,
                           name |-> IF e.named THEN e.name ELSE e.out.name, loaded |-> FALSE, lost |-> FALSE])]
    [] e.op = "kname" -> [w EXCEPT !.K[e.h].name = e.name]
    [] e.op = "kregen" -> IF e.out.ok THEN [w EXCEPT !.K[e.h].id = e.out.id] ELSE w
    [] e.op = "ksign" ->
         IF e.out.ok THEN [w EXCEPT !.S = @ \cup {[id |-> w.K[e.h].id, data |-> e.data, sig |-> e.out.sig]}] ELSE w
    [] e.op = "kenc" ->
         IF e.out.ok THEN [w EXCEPT !.E = @ \cup {[fields |-> e.out.fields, from |-> w.K[e.h].id, to |-> e.to, data |-> e.data]}]
         ELSE w
    [] e.op = "ksave" ->
         IF e.out.ok
         THEN [w EXCEPT !.F = Put(@, e.x, [kind |-> w.K[e.h].kind, id |-> w.K[e.h].id, name |-> w.K[e.h].name, pass |-> e.word])]
         ELSE w
    [] e.op = "kload" ->
         IF e.out.ok /\ e.x \in DOMAIN w.F
         THEN LET f == w.F[e.x] IN
              [w EXCEPT !.K = Put(@, e.h, [kind |-> e.kind, id |-> f.id, name |-> f.name, loaded |-> TRUE,
                                           lost |-> e.word # f.pass \/ e.out.id # f.id \/ e.out.name # f.name])]
         ELSE w
    [] e.op = "pwenc" ->
         IF e.out.ok THEN [w EXCEPT !.B = @ \cup {[blob |-> e.out.blob, pass |-> e.word, data |-> e.data]}] ELSE w
    [] OTHER -> w

-----------------------------------------------------------------------------
Own(t) == {"C22"} \cup (IF t.loaded THEN {"C23"} ELSE {})

JudgeSign(t, e) ==
  IF CanSign(t) THEN Bad(~e.out.ok, {"C20"} \cup Own(t), "signing refused")
  ELSE Bad(e.out.ok, Own(t), "encryption pair signs")

JudgeVerify(w, e) ==
  LET t    == w.K[e.h]
      id   == IF e.pub = "" THEN t.id ELSE e.pub
      good == [id |-> id, data |-> e.data, sig |-> e.sig] \in w.S
  IN IF ~CanSign(t) THEN Bad(e.out.ok, Own(t), "encryption pair checks signatures")
     ELSE IF e.badpub THEN Bad(e.out.ok /\ e.out.v, {"C20"}, "signature accepted for what is no key")
     ELSE IF good THEN Bad(~e.out.ok \/ ~e.out.v, {"C20"} \cup Own(t), "signature not accepted")
     ELSE Bad(~e.out.ok, {"C20"}, "wrong signature not answered with False")
          \cup Bad(e.out.ok /\ e.out.v, {"C20"}, "wrong signature accepted")

JudgeDec(w, e) ==
  LET t     == w.K[e.h]
      whole == {x \in w.E : x.fields = e.fields /\ x.to = t.id /\ x.from = e.from}
  IN IF ~CanEncrypt(t) THEN Bad(e.out.ok, Own(t), "authentication pair decrypts")
     ELSE IF whole # {}
     THEN Bad(~e.out.ok, {"C21"} \cup Own(t), "envelope not opened by its receiver")
          \cup Bad(e.out.ok /\ \A x \in whole : x.data # e.out.v, {"C21"} \cup Own(t), "other data from an envelope")
     ELSE Bad(e.out.ok, {"C21"},
              IF \E x \in w.E : x.fields = e.fields
              THEN "envelope opened by another receiver or for another sender"
              ELSE "altered envelope opened" \o (IF e.how = "" THEN "" ELSE ": " \o e.how))

JudgeSave(w, e) ==
  LET t == w.K[e.h]
  IN Bad(~e.out.ok /\ ~e.exotic, {"C23"}, "not saved")
     \cup Bad(e.out.ok /\ e.out.readable, {"C23"}, "saved in readable form")

JudgeLoad(w, e) ==
  IF e.x \notin DOMAIN w.F THEN Bad(e.out.ok, {"C23"}, "loaded what was not saved")
  ELSE LET f == w.F[e.x]
       IN IF e.word = f.pass
          THEN Bad(~e.out.ok /\ e.kind = f.kind, {"C23"}, "not loaded with its passphrase")
               \cup Bad(e.out.ok /\ e.out.id # f.id, {"C23"}, "another public key loaded")
               \cup Bad(e.out.ok /\ e.out.name # f.name, {"C23"}, "another name loaded")
          ELSE Bad(e.out.ok, {"C23"},
                   IF e.word = f.pass \o "00" \/ f.pass = e.word \o "00"
                   THEN "loaded with another passphrase: a NUL added or removed at the end"
                   ELSE "loaded with another passphrase")

JudgePwDec(w, e) ==
  LET made == {b \in w.B : b.blob = e.blob /\ b.pass = e.word}
  IN IF made # {}
     THEN Bad(~e.out.ok \/ \A b \in made : b.data # e.out.v, {"C24"}, "not decrypted to what was encrypted")
     ELSE Bad(e.out.ok, {"C24"}, "decrypted although altered or with another password")

Same(a, b) == a.id = b.id /\ a.name = b.name

Lost(w, e) == "h" \in DOMAIN e /\ e.h \in DOMAIN w.K /\ w.K[e.h].lost

KJudge(w, e) ==
  IF Lost(w, e) THEN {}
  ELSE
  CASE e.op = "knew" -> Bad(~e.out.ok, {"C20", "C21", "C22", "C23", "C25"}, "no key pair made")
                        \cup Bad(e.out.ok /\ e.named /\ e.out.name # e.name, {"C23"}, "name of a new pair")
                        \cup Bad(e.out.ok /\ \E h \in DOMAIN w.K : w.K[h].id = e.out.id,
                                 {"C20", "C21"}, "two new pairs with one key")
    [] e.op = "kname" -> Bad(~e.out.ok, {"C23"}, "name not set")
    [] e.op = "kregen" -> Bad(~e.out.ok, {"C22"}, "not generated again")
                          \cup Bad(e.out.ok /\ \E h \in DOMAIN w.K : w.K[h].id = e.out.id,
                                   {"C20", "C21"}, "generated again with a key in use")
    [] e.op = "ksign" -> JudgeSign(w.K[e.h], e)
    [] e.op = "kverify" -> JudgeVerify(w, e)
    [] e.op = "kenc" ->
         IF CanEncrypt(w.K[e.h]) THEN Bad(~e.out.ok, {"C21"} \cup Own(w.K[e.h]), "encryption refused")
         ELSE Bad(e.out.ok, Own(w.K[e.h]), "authentication pair encrypts")
    [] e.op = "kdec" -> JudgeDec(w, e)
    [] e.op = "kother" -> \* an operation of the other kind, with any arguments
         Bad(e.out.ok, {"C22"}, e.what \o " not refused")
    [] e.op = "ksave" -> JudgeSave(w, e)
    [] e.op = "kload" -> JudgeLoad(w, e)
    [] e.op = "keq" ->
         LET a == w.K[e.h] b == w.K[e.h2]
         IN IF b.lost THEN {}
            ELSE Bad(~e.out.ok \/ (e.out.eq /\ ~Same(a, b)) \/ (~e.out.eq /\ Same(a, b) /\ a.kind = b.kind), {"C25"},
                     "equality of key pairs")
            \cup Bad(e.out.ok /\ Same(a, b) /\ ~e.out.samehash, {"C25"}, "hash of equal key pairs")
    [] e.op = "keqother" -> Bad(~e.out.ok \/ e.out.eq, {"C25"}, "key pair equal to another kind of object")
    [] e.op = "pwenc" -> Bad(~e.out.ok, {"C24"}, "not encrypted")
                         \cup Bad(e.out.ok /\ \E b \in w.B : b.blob = e.out.blob, {"C24"}, "encrypted twice to the same bytes")
    [] e.op = "pwdec" -> JudgePwDec(w, e)
    [] OTHER -> {[tags |-> {"MACHINERY"}, clause |-> "unknown event " \o e.op]}
=============================================================================
