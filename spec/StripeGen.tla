----------------------------- MODULE StripeGen -----------------------------
(* Prints every stripe footer that is up to one change (those of Pairs: two) away from a sound one. *)
EXTENDS StripeTail, TLC, Json
CONSTANT Pairs
VARIABLES t, sound
GInit ==
  /\ \E b \in Bases :
       \/ t = b /\ sound = TRUE
       \/ sound = FALSE /\ \E x \in Edits(b) :
            \/ t = x
            \/ b.kinds[2] \in Pairs /\ b.inc # {1} /\ t \in Edits(x)
  /\ PrintT("SEQ " \o ToJson([t |-> t, sound |-> sound]))
GSpec == GInit /\ [][FALSE]_<<t, sound>>
Decided == ~(sound /\ Contradicts(t))
==============================================================================
