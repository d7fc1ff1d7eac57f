------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Schemas are trees; columns are numbered in pre-order, from 0. A tree is *)
(* a record with a sequence of trees in kids. The machine walks a tree with *)
(* a stack, the way a writer's or reader's loop does, and must number it    *)
(* like the recursive definition (C22).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Size(_), SizeAll(_)
Size(t) == 1 + SizeAll(t.kids)
SizeAll(ts) == IF ts = <<>> THEN 0 ELSE Size(Head(ts)) + SizeAll(Tail(ts))

(* Number of the j-th child of a node numbered id.                          *)
ChildId(t, id, j) == id + 1 + SizeAll(SubSeq(t.kids, 1, j - 1))

(* Nodes in pre-order: [id, node, children]                                 *)
RECURSIVE PreOrder(_, _), PreOrderAll(_, _)
PreOrder(t, id) == <<[id |-> id, node |-> t, children |-> [j \in 1..Len(t.kids) |-> ChildId(t, id, j)]]>> \o PreOrderAll(t.kids, id + 1)
PreOrderAll(ts, id) == IF ts = <<>> THEN <<>> ELSE PreOrder(Head(ts), id) \o PreOrderAll(Tail(ts), id + Size(Head(ts)))

(* Vector of a column for included columns, with rows cells; <<>>: none.     *)
(* Columns have cells, but for structs without nulls.                       *)
Included(inc, id) == inc = {} \/ id \in inc
RECURSIVE Shape(_, _, _, _, _)
Shape(t, id, inc, rows, nulls) ==
  IF ~Included(inc, id) THEN <<>>
  ELSE LET kid(j) == Shape(t.kids[j], ChildId(t, id, j), inc, rows, nulls)
           RECURSIVE From(_)
           From(j) == IF j > Len(t.kids) THEN <<>> ELSE kid(j) \o From(j + 1)
       IN <<[id |-> id, kind |-> t.kind, cells |-> IF t.kind # "struct" \/ nulls[id + 1] THEN rows ELSE -1, kids |-> From(1)]>>

------------------------------------------------------------------------------
CONSTANT MaxSize
RECURSIVE Trees(_), Forests(_)
Trees(n) == {[kind |-> "struct", kids |-> f] : f \in Forests(n - 1)}
Forests(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{<<t>> \o f : t \in Trees(k), f \in Forests(n - k)} : k \in 1..n}

VARIABLES tree, stack, out     \* stack: nodes to visit, with the position of their parent in out
vars == <<tree, stack, out>>

Init == /\ tree \in UNION {Trees(n) : n \in 1..MaxSize}
        /\ stack = <<[t |-> tree, up |-> 0]>> /\ out = <<>>
Visit ==
  /\ stack # <<>>
  /\ LET top == Head(stack)
         id == Len(out)
         linked == IF top.up = 0 THEN out ELSE [out EXCEPT ![top.up].children = Append(@, id)]
     IN /\ out' = Append(linked, [id |-> id, node |-> top.t, children |-> <<>>])
        /\ stack' = [j \in 1..Len(top.t.kids) |-> [t |-> top.t.kids[j], up |-> id + 1]] \o Tail(stack)
  /\ tree' = tree
Spec == Init /\ [][Visit]_vars

SameNumbers == stack = <<>> => out = PreOrder(tree, 0)
Dense == \A j \in 1..Len(out) : out[j].id = j - 1
ParentsFirst == \A j \in 1..Len(out) : \A k \in 1..Len(out[j].children) : out[j].children[k] > out[j].id
==============================================================================
