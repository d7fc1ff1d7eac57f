------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* The freedom the ORC format leaves to a writer: how rows are cut into    *)
(* stripes, which encoding a text column has in a stripe, which streams a  *)
(* stripe has and in what order, which auxiliary streams come with them,   *)
(* and what the file's tail says. A behaviour is a writer that lays out    *)
(* given rows; what it decided is the plan of a file. The driver makes the *)
(* bytes (FileTrace says whether they are legal), goorc reads them, and    *)
(* OrcFileTrace judges what it read.                                       *)
(*                                                                         *)
(* Files: [rows, stride, cols, nulls]; cols[c] = [kind, parent], parent is *)
(* a column number from 0 or -1, nulls[c] the rows without a cell.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Randomization, TLC, Json, IOUtils

CONSTANTS Sim,        \* choices are random
          Wide        \* every choice there is, or few of them

Files == JsonDeserialize(IOEnv.FILES)

VARIABLES f,          \* file
          head,       \* decisions for the whole file
          done,       \* stripes laid out: <<[rows, dict, streams, gap]>>
          cur,        \* the stripe being laid out
          ph          \* "head", "stripe", "streams", "tail", "end"
vars == <<f, head, done, cur, ph>>

F == Files[f]
NCols == Len(F.cols)
Cols == 1..NCols
Choose(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

PRESENT == 0 DATA == 1 LENGTH == 2 DICT == 3 SECONDARY == 5 ROWINDEX == 6 BLOOM == 7 BLOOMUTF8 == 8
IsIndex(s) == s[2] \in {ROWINDEX, BLOOM, BLOOMUTF8}

Texts == {"string", "char", "varchar"}
TextCols == {c \in Cols : F.cols[c].kind \in Texts}
RECURSIVE SumTo(_, _)
SumTo(g, n) == IF n = 0 THEN 0 ELSE g[n] + SumTo(g, n - 1)
RowsDone == SumTo([j \in 1..Len(done) |-> done[j].rows], Len(done))

(* Rows a..b in which column c has a place, and in which it has a value.   *)
Slots(c, a, b) == {r \in a..b : F.cols[c].parent < 0 \/ F.nulls[F.cols[c].parent + 1][r] = 0}
Filled(c, a, b) == {r \in Slots(c, a, b) : F.nulls[c][r] = 0}
HasNull(c, a, b) == Filled(c, a, b) # Slots(c, a, b)

(* Streams of the values of a column.                                      *)
ValueKinds(c, dict) ==
  LET kind == F.cols[c].kind IN
  CASE kind = "struct" -> {}
    [] kind \in Texts -> IF c \in dict THEN {DATA, LENGTH, DICT} ELSE {DATA, LENGTH}
    [] kind = "binary" -> {DATA, LENGTH}
    [] kind \in {"timestamp", "decimal"} -> {DATA, SECONDARY}
    [] OTHER -> {DATA}
(* Those that cannot be left out. A stream without a byte may always be,   *)
(* and so may the bytes of empty texts; the driver says none of that here  *)
(* if the column has a row index, whose positions go by streams there are. *)
Needed(c, dict, a, b, indexed) ==
  (IF HasNull(c, a, b) THEN {PRESENT} ELSE {})
  \cup (IF Filled(c, a, b) # {} \/ c \in indexed THEN ValueKinds(c, dict) ELSE {})

RECURSIVE Under(_, _)
Under(c, p) == /\ F.cols[c].parent >= 0
               /\ \/ F.cols[c].parent + 1 = p
                  \/ Under(F.cols[c].parent + 1, p)
(* goorc reads no present stream below another one (it refuses the file).  *)
Nested(S) == \E c, d \in S : Under(c, d)

------------------------------------------------------------------------------
Orders == IF Wide THEN {"any", "columns", "reversed", "kinds"} ELSE {"columns", "reversed"}
Blocks == {64, 300, 4096, 262144}
HeadOf ==
  IF Sim
  THEN [comp |-> RandomElement({"none", "zlib"}), block |-> RandomElement(Blocks), chunks |-> RandomElement({"full", "any", "original"}), stride |-> F.stride,
        hasnull |-> IF RandomElement(1..4) = 1 THEN "absent" ELSE "set", stats |-> RandomElement({"file", "entries", "stripes"}),
        content |-> RandomElement({"whole", "body"}), usermeta |-> RandomElement({0, 0, 1, 40, 20000}),
        footer |-> RandomElement({"one", "pieces", "originals"}), runs |-> RandomElement({"any", "short"}), skips |-> RandomElement({"near", "far"}),
        unknown |-> RandomElement(BOOLEAN), blocksize |-> RandomElement(BOOLEAN)]
  ELSE [comp |-> "none", block |-> 64, chunks |-> "any", stride |-> F.stride, hasnull |-> "set", stats |-> "file", content |-> "whole", usermeta |-> 0,
        footer |-> "one", runs |-> "any", skips |-> "near", unknown |-> FALSE, blocksize |-> TRUE]

NoStripe == [rows |-> 0, from |-> 0, dict |-> {}, left |-> {}, streams |-> <<>>, order |-> "any"]

Init ==
  /\ f \in 1..Len(Files)
  /\ head = [comp |-> "none"] /\ done = <<>> /\ cur = NoStripe /\ ph = "head"

(* Compression none or zlib, everything else as it comes.                  *)
Decide ==
  /\ ph = "head"
  /\ IF Sim THEN head' = HeadOf ELSE \E z \in {"none", "zlib"} : head' = [HeadOf EXCEPT !.comp = z]
  /\ ph' = IF F.rows = 0 THEN "tail" ELSE "stripe"
  /\ UNCHANGED <<f, done, cur>>

(* A random subset, or all.                                                *)
Sub(S) == IF Sim THEN (CASE RandomElement(1..4) = 1 -> {{}}
                         [] RandomElement(1..3) = 1 -> {S}
                         [] OTHER -> {RandomSubset(RandomElement(0..Cardinality(S)), S)})
          ELSE SUBSET S

Open ==
  /\ ph = "stripe" /\ RowsDone < F.rows
  /\ \E n \in (IF Sim THEN {RandomElement({1, F.rows - RowsDone, 1 + (F.rows - RowsDone) \div 2, RandomElement(1..(F.rows - RowsDone))})} ELSE 1..(F.rows - RowsDone)) :
     LET m == IF n > F.rows - RowsDone \/ (Sim /\ Len(done) >= 4) THEN F.rows - RowsDone ELSE n
         a == RowsDone + 1
         b == RowsDone + m
     IN \E dict \in Sub(TextCols), indexed \in (IF F.stride = 0 THEN {{}} ELSE Sub(Cols)), bloom \in Sub(IF Wide THEN Cols ELSE {}),
           extra \in Sub(Cols \X {PRESENT, DATA, LENGTH, DICT, SECONDARY}), order \in Choose(Orders) :
        LET must == UNION {{<<c, k>> : k \in Needed(c, dict, a, b, indexed)} : c \in Cols}
            may == UNION {{<<c, k>> : k \in {PRESENT} \cup ValueKinds(c, dict)} : c \in Cols}
            more == extra \cap may
            plus == IF Nested({c \in Cols : <<c, PRESENT>> \in must \cup more}) THEN {s \in more : s[2] # PRESENT} ELSE more
        IN /\ Sim \/ extra \subseteq may \ must
           /\ Sim \/ plus = more
           /\ cur' = [rows |-> m, from |-> a, dict |-> dict, streams |-> <<>>, order |-> order,
                      left |-> must \cup plus \cup (indexed \X {ROWINDEX}) \cup (bloom \X (IF Sim THEN {RandomElement({BLOOM, BLOOMUTF8})} ELSE {BLOOM}))]
  /\ ph' = "streams"
  /\ UNCHANGED <<f, head, done>>

(* Next streams that may come in the order of the stripe.                  *)
Before(order, s, t) ==
  CASE order = "columns" -> s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
    [] order = "reversed" -> s[1] > t[1] \/ (s[1] = t[1] /\ s[2] > t[2])
    [] OTHER -> s[2] < t[2] \/ (s[2] = t[2] /\ s[1] < t[1])
Heirs == LET ix == {s \in cur.left : IsIndex(s)}
             pool == IF ix # {} THEN ix ELSE cur.left
         IN IF cur.order = "any" THEN pool
            ELSE {s \in pool : \A t \in pool : s = t \/ Before(cur.order, s, t)}
Emit ==
  /\ ph = "streams" /\ cur.left # {}
  /\ \E s \in Choose(Heirs) : cur' = [cur EXCEPT !.left = @ \ {s}, !.streams = Append(@, s)]
  /\ UNCHANGED <<f, head, done, ph>>

Close ==
  /\ ph = "streams" /\ cur.left = {}
  /\ \E gap \in (IF Sim THEN {RandomElement({0, 0, 0, 1, 17})} ELSE {0}) :
       done' = Append(done, [rows |-> cur.rows, dict |-> {c - 1 : c \in cur.dict}, streams |-> [j \in 1..Len(cur.streams) |-> <<cur.streams[j][1] - 1, cur.streams[j][2]>>], gap |-> gap])
  /\ cur' = NoStripe
  /\ ph' = IF RowsDone + cur.rows = F.rows THEN "tail" ELSE "stripe"
  /\ UNCHANGED <<f, head>>

Plan == [f |-> f, head |-> head, stripes |-> done]
Finish ==
  /\ ph = "tail"
  /\ PrintT("SEQ " \o ToJson(Plan))
  /\ ph' = "end"
  /\ UNCHANGED <<f, head, done, cur>>

Next == Decide \/ Open \/ Emit \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the plans keep to.                                                 *)
RowsFit == RowsDone + cur.rows <= F.rows /\ (ph \in {"tail", "end"} => RowsDone = F.rows)
StripeOk(j) ==
  LET y == done[j]
      a == SumTo([m \in 1..(j - 1) |-> done[m].rows], j - 1) + 1
      b == a + y.rows - 1
      st == {<<y.streams[m][1] + 1, y.streams[m][2]>> : m \in 1..Len(y.streams)}
      dict == {c \in Cols : c - 1 \in y.dict}
  IN /\ y.rows > 0
     /\ Cardinality(st) = Len(y.streams)
     /\ \A c \in Cols : \A k \in Needed(c, dict, a, b, {}) : <<c, k>> \in st
     /\ \A s \in st : IsIndex(s) \/ s[2] \in {PRESENT} \cup ValueKinds(s[1], dict)
     /\ \A m \in 2..Len(y.streams) : IsIndex(y.streams[m]) => IsIndex(y.streams[m - 1])
     /\ ~Nested({c \in Cols : <<c, PRESENT>> \in st})
PlansOk == RowsFit /\ \A j \in 1..Len(done) : StripeOk(j)
=============================================================================
