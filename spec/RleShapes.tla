----------------------------- MODULE RleShapes -----------------------------
(* Sequences around the points where an encoder of runs changes its mind:   *)
(* outliers at every kind of distance (a gap of a patch is at most 255),    *)
(* differences and values of every width, repeats of every length between   *)
(* other values.  The harness draws the rest of the values.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Every      \* TRUE: no thinning
VARIABLES h

Firsts == {0, 1, 2, 20, 254, 255, 256, 257, 300}
Gaps == {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128} \cup 253..259 \cup {300, 509, 510, 511}
Outliers == {[shape |-> "outlier", signed |-> s, a |-> f, b |-> g, c |-> w, d |-> x] :
               s \in BOOLEAN, f \in Firsts, g \in Gaps, w \in {1, 6, 20}, x \in {1, 2, 9, 24, 40}}
Monos == {[shape |-> "mono", signed |-> s, a |-> w, b |-> up, c |-> n, d |-> 0] :
               s \in BOOLEAN, w \in 0..63, up \in {0, 1}, n \in {3, 4, 6, 11, 512}}
Widths == {[shape |-> "width", signed |-> s, a |-> w, b |-> n, c |-> 0, d |-> 0] :
               s \in BOOLEAN, w \in 0..64, n \in {1, 2, 5, 20, 512}}
Repeats == {[shape |-> "repeat", signed |-> s, a |-> p, b |-> r, c |-> q, d |-> w] :
               s \in BOOLEAN, p \in 0..3, r \in {2, 3, 4, 9, 10, 11, 12, 255, 256, 257, 511, 512, 513}, q \in 0..3, w \in {1, 8, 63}}

Keep(x) ==
  /\ x.shape = "outlier" => /\ x.a + x.b < 512
                            /\ Every \/ (x.b >= 253 /\ x.b <= 257 /\ x.c = 6 /\ x.d = 9) \/ (x.a + x.b + x.c + x.d) % 11 = 0
  /\ Every \/ x.shape = "outlier" \/ (x.c < 100 /\ x.b < 100) \/ (x.a + x.b + x.c + x.d) % 8 = 0

Init == h \in {x \in Outliers \cup Monos \cup Widths \cup Repeats : Keep(x)}
Next == /\ h.shape # "done"
        /\ PrintT("SEQ " \o ToJson(h))
        /\ h' = [h EXCEPT !.shape = "done"]
Spec == Init /\ [][Next]_h
=============================================================================
