---------------------------- MODULE SchemaTrace ----------------------------
(***************************************************************************)
(* Schemas the library numbered, wrote and read. T.tree is the schema as it *)
(* was made, T.some[c + 1] says whether column c has nulls in the file.      *)
(***************************************************************************)
EXTENDS Schema, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, want, nulls     \* nulls: what the reader says of columns
tvars == <<tid, i, want, nulls, tree, stack, out>>
T == Traces[tid]
E == T.events[i]

Flat(t) == LET p == PreOrder(t, 0) IN
  [j \in 1..Len(p) |-> [id |-> p[j].id, kind |-> p[j].node.kind, names |-> p[j].node.names, children |-> p[j].children]]

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ i = 1
  /\ want = Flat(T.tree) /\ nulls = <<>>
  /\ tree = 0 /\ stack = <<>> /\ out = <<>>

IsEvent(op) == i <= Len(T.events) /\ E.op = op /\ i' = i + 1 /\ UNCHANGED <<tid, want, tree, stack, out>>
SetOf(s) == {s[j] : j \in 1..Len(s)}
Nullable == [j \in 1..Len(want) |-> PreOrder(T.tree, 0)[j].node.nullable]

TraceNext ==
  \* the caller's schema, numbered, any number of times
  \/ IsEvent("numbered") /\ E.ok /\ E.cols = want /\ UNCHANGED nulls
  \* written by a writer, as the caller's object is after it
  \/ IsEvent("written") /\ E.ok /\ E.cols = want /\ UNCHANGED nulls
  \* what a reader reports
  \/ /\ IsEvent("read") /\ E.ok /\ E.cols = want
     /\ Len(E.nulls) = Len(want)
     /\ \A j \in 1..Len(want) : (T.some[j] => E.nulls[j]) /\ (E.nulls[j] => Nullable[j])
     /\ nulls' = E.nulls
  \* a vector made by the schema read or the schema written; from is the column that was asked
  \/ /\ IsEvent("vector") /\ UNCHANGED nulls
     /\ LET p == PreOrder(T.tree, 0)[E.from + 1]
            n == IF E.written THEN Nullable ELSE nulls
        IN E.shape = Shape(p.node, E.from, SetOf(E.inc), E.rows, n)
  \/ i > Len(T.events) /\ UNCHANGED tvars

TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
