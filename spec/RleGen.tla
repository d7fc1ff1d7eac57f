------------------------------- MODULE RleGen -------------------------------
(* Every header a legal run may have: sub-encoding, width code, length.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Lengths
VARIABLES h
Kinds == 0..3
Init == h \in [kind : Kinds, code : 0..31, n : Lengths, signed : BOOLEAN]
(* short repeats have 8 widths and 8 lengths                               *)
Once(x) == x.kind # 0 \/ (x.code < 8 /\ x.n < 8)
Next == /\ h.kind < 4 /\ Once(h)
        /\ PrintT("SEQ " \o ToJson(h))
        /\ h' = [h EXCEPT !.kind = 4]
Spec == Init /\ [][Next]_h
=============================================================================
