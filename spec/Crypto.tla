------------------------------ MODULE Crypto ------------------------------
(***************************************************************************)
(* Digests over byte strings written as lower-case hexadecimal text.       *)
(*                                                                         *)
(* Keccak and Digest are evaluated by java/Crypto.java (a TLC operator     *)
(* override); as far as the specification is concerned they are            *)
(* collision-free functions.  Cat has a definition here and an override    *)
(* only for speed.                                                         *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC

(* Keccak-256 with the original (Ethereum) padding. *)
Keccak(s) == Assert(FALSE, "Crypto.class is not on TLC's class path")

(* Digest("sha256", s), and the other algorithms of MerkleTools. *)
Digest(alg, s) == Assert(FALSE, "Crypto.class is not on TLC's class path")

(* Concatenation of a sequence of strings. *)
RECURSIVE CatFrom(_, _)
CatFrom(seq, i) == IF i > Len(seq) THEN "" ELSE seq[i] \o CatFrom(seq, i + 1)
Cat(seq) == CatFrom(seq, 1)
===========================================================================
