------------------------------- MODULE Fleet -------------------------------
(***************************************************************************)
(* Several actors - writers of their own files, readers, batch readers of  *)
(* one reader - take their steps in any order. A step of one of them is    *)
(* the step it would have taken alone (C17): it depends on and changes     *)
(* nothing but the actor's own state, here what it has answered so far.    *)
(* As a generator: every order of steps of every actor.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Actors, Steps      \* actors are 1..Actors, each takes Steps steps

VARIABLES pos, order
vars == <<pos, order>>

Init == pos = [a \in 1..Actors |-> 0] /\ order = <<>>

Step(a) == pos[a] < Steps /\ pos' = [pos EXCEPT ![a] = @ + 1] /\ order' = Append(order, a)

Done == \A a \in 1..Actors : pos[a] = Steps
Next ==
  \/ \E a \in 1..Actors : Step(a)
  \/ Done /\ PrintT("SEQ " \o ToJson(order)) /\ order' = Append(order, 0) /\ pos' = [pos EXCEPT ![1] = Steps + 1]
Spec == Init /\ [][Next]_vars

Own(a) == Len(SelectSeq(order, LAMBDA x : x = a))
Counted == \A a \in 1..Actors : pos[a] <= Steps => Own(a) = pos[a]
OneAtATime == [][Cardinality({a \in 1..Actors : pos'[a] # pos[a]}) <= 1]_vars
==============================================================================
