----------------------------- MODULE RefusalGen -----------------------------
(***************************************************************************)
(* Prints small schemas, a batch of theirs with one change (or none), and   *)
(* when in a writer's life it is written: "b" is the changed batch, "g" is  *)
(* a good one.                                                             *)
(***************************************************************************)
EXTENDS Refusals, FiniteSets, TLC, Json

CONSTANTS MaxRows, Lives

Leaf(null) == [kind |-> "int", nullable |-> null, kids |-> <<>>]
Struct(null, kids) == [kind |-> "struct", nullable |-> null, kids |-> kids]
Schemas == <<
  <<Leaf(FALSE)>>,
  <<Leaf(TRUE)>>,
  <<Struct(FALSE, <<2, 3>>), Leaf(TRUE), Leaf(FALSE)>>,
  <<Struct(TRUE, <<2, 3>>), Leaf(FALSE), Leaf(FALSE)>>,
  <<Struct(FALSE, <<2, 5>>), Struct(TRUE, <<3, 4>>), Leaf(FALSE), Leaf(FALSE), Leaf(TRUE)>>,
  <<Struct(FALSE, <<2>>), Struct(FALSE, <<3>>), Leaf(TRUE)>> >>

(* The top column that may be null is null in row nul (0: in none).         *)
Nullables(s) == {c \in 1..Len(s) : s[c].nullable}
Under(s, c, p) == \/ c = p
                  \/ \E j \in 1..Len(s[p].kids) : \/ c = s[p].kids[j]
                                                  \/ \E k \in 1..Len(s[s[p].kids[j]].kids) : c = s[s[p].kids[j]].kids[k]
Base(s, n, nul) ==
  [c \in 1..Len(s) |->
     [absent |-> FALSE, id |-> c - 1, kids |-> s[c].kids,
      vals |-> IF Bare(s[c]) THEN <<>>
               ELSE [r \in 1..n |->
                      [null |-> r = nul /\ (\E p \in Nullables(s) : Under(s, c, p)), type |-> IF s[c].kind = "struct" THEN "<nil>" ELSE "int32"]]]]

(* Changes: [what, at, row].                                               *)
Changes(s, n, nul) ==
  {[what |-> "none", at |-> 1, row |-> 0]}
  \cup {[what |-> w, at |-> c, row |-> 0] : w \in {"absent", "id", "more", "long"}, c \in 1..Len(s)}
  \cup {[what |-> "less", at |-> c, row |-> 0] : c \in {x \in 1..Len(s) : Len(s[x].kids) > 0}}
  \cup {[what |-> "swap", at |-> c, row |-> 0] : c \in {x \in 1..Len(s) : Len(s[x].kids) > 1}}
  \cup {[what |-> w, at |-> c, row |-> r] : w \in {"null", "type", "nil"}, c \in {x \in 1..Len(s) : ~Bare(s[x])}, r \in 1..n}
  \cup (IF n > 0 THEN {[what |-> "short", at |-> c, row |-> 0] : c \in {x \in 1..Len(s) : ~Bare(s[x])}} ELSE {})

Value(s, c) == [null |-> FALSE, type |-> IF s[c].kind = "struct" THEN "<nil>" ELSE "int32"]
Apply(s, b, ch) ==
  LET c == ch.at IN
  CASE ch.what = "none" -> b
    [] ch.what = "absent" -> [b EXCEPT ![c].absent = TRUE]
    [] ch.what = "id" -> [b EXCEPT ![c].id = @ + 1]
    [] ch.what = "more" -> [b EXCEPT ![c].kids = Append(@, 1)]
    [] ch.what = "less" -> [b EXCEPT ![c].kids = SubSeq(@, 1, Len(@) - 1)]
    [] ch.what = "swap" -> [b EXCEPT ![c].kids = <<@[2], @[1]>>]
    [] ch.what = "long" -> [b EXCEPT ![c].vals = Append(@, Value(s, c))]
    [] ch.what = "short" -> [b EXCEPT ![c].vals = SubSeq(@, 1, Len(@) - 1)]
    [] ch.what = "null" -> [b EXCEPT ![c].vals[ch.row].null = TRUE]
    [] ch.what = "type" -> [b EXCEPT ![c].vals[ch.row] = [null |-> FALSE, type |-> "string"]]
    [] ch.what = "nil" -> [b EXCEPT ![c].vals[ch.row] = [null |-> FALSE, type |-> "<nil>"]]

VARIABLES p, fits
gvars == <<p, fits, wst, rows, rst, cur>>

GInit ==
  /\ RInit
  /\ \E k \in 1..Len(Schemas), n \in 0..MaxRows :
       \E nul \in 0..(IF Nullables(Schemas[k]) = {} THEN 0 ELSE n) :
         \E ch \in Changes(Schemas[k], n, nul), life \in Lives :
           /\ p = [schema |-> Schemas[k], n |-> n, nul |-> nul, change |-> ch, life |-> life]
           /\ fits = RowsOf(Schemas[k], Apply(Schemas[k], Base(Schemas[k], n, nul), ch))
  /\ PrintT("SEQ " \o ToJson(p))
GSpec == GInit /\ [][FALSE]_gvars

(* What no reading of the rules may change.                                *)
S == p.schema
W == p.change.what
At == p.change.at
NullAbove == p.change.row = p.nul /\ \E c \in Nullables(S) : c # At /\ Under(S, At, c)
Sane ==
  /\ W = "none" => fits = p.n
  /\ W \in {"absent", "id", "more", "less", "swap"} => fits = -1
  \* without rows there is nothing to be longer than; a value alone in a schema is a batch of one more
  /\ (W = "short" /\ Len(S) > 1 /\ Cardinality({c \in 1..Len(S) : ~Bare(S[c])}) > 1) => fits = -1
  /\ (W = "null" /\ ~NullAbove /\ ~S[At].nullable) => fits = -1
  /\ (W \in {"type", "nil"} /\ S[At].kind # "struct" /\ ~NullAbove) => fits = -1
  /\ (W \in {"null", "type", "nil"} /\ NullAbove) => fits = p.n
==============================================================================
