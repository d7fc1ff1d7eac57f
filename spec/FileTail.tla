----------------------------- MODULE FileTail -----------------------------
(***************************************************************************)
(* What the end of a file says of the file (C24): postscript and footer    *)
(* tell where the content ends, where the stripes are, how many rows there *)
(* are and what types the columns have.  A reader is handed out only when  *)
(* that fits together.                                                     *)
(*                                                                         *)
(* A tail:                                                                 *)
(*   head    the file begins with the magic                                *)
(*   mag     magic of the postscript: "orc", "none", "other"               *)
(*   psl     length of the postscript: "exact", "over" (one byte more than *)
(*           the file has), "max"                                          *)
(*   fl      length of the footer: "exact", "over" (one byte more than     *)
(*           there is between the magic and the postscript), "size" (of    *)
(*           the file), "wrap" (2^64 - 8)                                  *)
(*   ml      length of the metadata, which is Meta bytes                   *)
(*   end     where the metadata starts, the length of what is before it    *)
(*   content length of the content, or Absent                              *)
(*   stripes sequence of [off, il, dl, fo, rows]                           *)
(*   rows    of the file                                                   *)
(*   types   sequence of [kind, subs, names], names the number of names    *)
(*   stats   how many column statistics                                    *)
(* A negative number v stands for 2^64 + v.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Meta == 5
Absent == -1000
Magic == 3

(* The end of the content by what the postscript says.                     *)
End(t) == t.end + Meta - t.ml

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).rows + Sum(Tail(s))

SEnd(s) == s.off + s.il + s.dl + s.fo
(* Stripes are in the content, one after the other; there may be gaps.     *)
StripesFit(t) ==
  /\ \A k \in 1..Len(t.stripes) :
       LET s == t.stripes[k] IN
       /\ s.off >= 0 /\ s.il >= 0 /\ s.dl >= 0 /\ s.fo >= 0
       /\ s.off >= (IF k = 1 THEN Magic ELSE SEnd(t.stripes[k - 1]))
       /\ SEnd(s) <= End(t)

Subs(t) == {<<k, j>> \in (1..Len(t.types)) \X (1..5) : j <= Len(t.types[k].subs)}
Sub(t, p) == t.types[p[1]].subs[p[2]]
(* Types are a tree, every one is before its subtypes; numbers from 0.     *)
TypesFit(t) ==
  /\ t.types # <<>>
  /\ \A p \in Subs(t) : Sub(t, p) > p[1] - 1 /\ Sub(t, p) < Len(t.types)
  /\ \A p, q \in Subs(t) : Sub(t, p) = Sub(t, q) => p = q
  /\ \A k \in 1..Len(t.types) :
       LET x == t.types[k] IN
       /\ x.kind = "struct" => x.names >= Len(x.subs)
       /\ x.kind = "list" => Len(x.subs) = 1
       /\ x.kind = "map" => Len(x.subs) = 2

Contradicts(t) ==
  \/ ~t.head \/ t.mag = "other" \/ t.psl # "exact" \/ t.fl # "exact"
  \/ t.ml < 0 \/ End(t) < Magic
  \/ t.content # Absent /\ t.content # End(t) /\ t.content # End(t) - Magic
  \/ ~StripesFit(t) \/ Sum(t.stripes) # t.rows
  \/ ~TypesFit(t) \/ t.stats > Len(t.types)

(* Nothing is odd about it either.                                         *)
Sound(t) ==
  /\ ~Contradicts(t)
  /\ t.mag = "orc" /\ t.ml = Meta
  /\ \A k \in 1..Len(t.stripes) : t.stripes[k].rows > 0 /\ t.stripes[k].fo > 0
  /\ \A k \in 2..Len(t.types) : \E p \in Subs(t) : Sub(t, p) = k - 1
  /\ \A k \in 1..Len(t.types) :
       /\ t.types[k].kind = "int" => t.types[k].subs = <<>>
       /\ t.types[k].kind = "struct" => t.types[k].names = Len(t.types[k].subs)
  /\ t.types[1].kind = "struct"
  /\ t.stats \in {0, Len(t.types)}

(* What opening the file may answer.                                       *)
MayOpen(t, ok, n) ==
  /\ Sound(t) => ok
  /\ Contradicts(t) => ~ok
  /\ ok => n = t.rows

------------------------------------------------------------------------------
(* Tails of small files, and what becomes of them when one thing or two    *)
(* are changed.                                                            *)
IntType == [kind |-> "int", subs |-> <<>>, names |-> 0]
Struct(s) == [kind |-> "struct", subs |-> s, names |-> Len(s)]
Str(o, i, d, f, r) == [off |-> o, il |-> i, dl |-> d, fo |-> f, rows |-> r]

Base(end, ss, ts, n) ==
  [head |-> TRUE, mag |-> "orc", psl |-> "exact", fl |-> "exact", ml |-> Meta, end |-> end, content |-> end,
   stripes |-> ss, rows |-> n, types |-> ts, stats |-> Len(ts)]

Bases == <<
  Base(3, <<>>, <<Struct(<<1>>), IntType>>, 0),
  Base(23, <<Str(3, 0, 12, 8, 4)>>, <<Struct(<<1, 2>>), IntType, IntType>>, 4),
  Base(60, <<Str(3, 5, 10, 9, 2), Str(30, 6, 12, 10, 3)>>, <<Struct(<<1, 3>>), Struct(<<2>>), IntType, IntType>>, 5),
  Base(33, <<Str(3, 0, 4, 6, 1), Str(13, 0, 4, 6, 1), Str(23, 0, 4, 6, 1)>>,
       <<Struct(<<1>>), [kind |-> "list", subs |-> <<2>>, names |-> 0], IntType>>, 3) >>

Near(t, v) == {v - 1, v + 1, 0, t.end, t.end + 1, -1, -t.end, -v}

Edits(t) ==
     {[t EXCEPT !.head = FALSE]}
  \cup {[t EXCEPT !.mag = m] : m \in {"none", "other"}}
  \cup {[t EXCEPT !.psl = m] : m \in {"over", "max"}}
  \cup {[t EXCEPT !.fl = m] : m \in {"over", "size", "wrap"}}
  \cup {[t EXCEPT !.ml = v] : v \in {0, Meta - 1, Meta + 1, t.end, t.end + Meta, t.end + Meta - 2, -1, 8}}
  \cup {[t EXCEPT !.content = v] : v \in {Absent, 0, t.end - 1, t.end - 3, t.end + 1, t.end + 3, -1, -3, 2 * t.end}}
  \cup {[t EXCEPT !.rows = v] : v \in {0, 1, t.rows - 1, t.rows + 1, -1}}
  \cup {[t EXCEPT !.stats = v] : v \in {0, 1, t.stats + 1}}
  \cup UNION {
        {[t EXCEPT !.stripes[k].off = v] : v \in Near(t, t.stripes[k].off)}
     \cup {[t EXCEPT !.stripes[k].il = v] : v \in Near(t, t.stripes[k].il)}
     \cup {[t EXCEPT !.stripes[k].dl = v] : v \in Near(t, t.stripes[k].dl)}
     \cup {[t EXCEPT !.stripes[k].fo = v] : v \in Near(t, t.stripes[k].fo)}
     \cup {[t EXCEPT !.stripes[k].rows = v] : v \in {t.stripes[k].rows - 1, t.stripes[k].rows + 1}}
       : k \in 1..Len(t.stripes)}
  \cup {[t EXCEPT !.stripes = SubSeq(t.stripes, 1, n)] : n \in 0..(Len(t.stripes) - 1)}
  \cup {[t EXCEPT !.types = SubSeq(t.types, 1, n)] : n \in 0..(Len(t.types) - 1)}
  \cup UNION {
        {[t EXCEPT !.types[k].kind = m] : m \in {"struct", "list", "map", "int"}}
     \cup {[t EXCEPT !.types[k].names = v] : v \in {0, Len(t.types[k].subs) - 1, Len(t.types[k].subs) + 1} \cap Nat}
     \cup {[t EXCEPT !.types[k].subs = Append(t.types[k].subs, v), !.types[k].names = @ + 1] : v \in 0..Len(t.types)}
     \cup {[t EXCEPT !.types[k].subs[j] = v] : j \in 1..Len(t.types[k].subs), v \in (0..Len(t.types)) \cup {1000000}}
       : k \in 1..Len(t.types)}

(* What a negative number would be as rows or in a sum is not of interest. *)
Plain(t) == \A k \in 1..Len(t.stripes) : t.stripes[k].rows >= 0
==============================================================================
