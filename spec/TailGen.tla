------------------------------ MODULE TailGen ------------------------------
(* Prints every tail that is one or two changes away from a base.          *)
EXTENDS FileTail, TLC, Json
CONSTANT Pairs           \* bases whose tails are changed twice
VARIABLE t
GInit ==
  /\ \E b \in 1..Len(Bases) :
       LET one == Edits(Bases[b])
       IN t \in {Bases[b]} \cup one \cup (IF b \in Pairs THEN UNION {Edits(x) : x \in one} ELSE {})
  /\ Plain(t)
  /\ PrintT("SEQ " \o ToJson(t))
GSpec == GInit /\ [][FALSE]_t
(* No tail has to be opened and refused.                                   *)
Decided == ~(Sound(t) /\ Contradicts(t))
==============================================================================
