----------------------------- MODULE FileTrace -----------------------------
(***************************************************************************)
(* A whole ORC file read by the rules of the ORC v1 specification. The     *)
(* driver takes the bytes apart (protobuf fields, inflated chunks); what   *)
(* they must say is stated here, and every stream is decoded run by run    *)
(* against the values its column's rows require.                           *)
(*                                                                         *)
(* A trace: [id, n, schema, cells, meta, opts, dicts]; schema[c + 1] is    *)
(* [kind, enc, nullable, children, names, parent], cells[c + 1] its rows.  *)
(* Aspects chooses what is looked at.                                      *)
(***************************************************************************)
EXTENDS RleV2, ByteRle, Values, Stats, FiniteSets, TLC, Json, IOUtils

CONSTANT Aspects          \* subset of {"layout", "data", "index", "stats"}

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, ph, s, x, p, k, want, hits,
  sure,      \* bytes of the stream that were with the stream before the stripe's last row
  held       \* and those of the streams before it in the stripe
vars == <<tid, i, ph, s, x, p, k, want, hits, sure, held>>

T == Traces[tid]
M == T.meta
S == M.stripes[s]
X == S.streams[x]

NoWant == [how |-> "none", vals |-> <<>>, entries |-> <<>>]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ i = 1 /\ ph = "tail" /\ s = 1 /\ x = 1 /\ p = 1 /\ k = 0 /\ want = NoWant /\ hits = 0 /\ sure = 0 /\ held = 0

(* Cells of the parent, <<>> for the root.                                 *)
Above(c) == IF T.schema[c].parent < 0 THEN <<>> ELSE T.cells[T.schema[c].parent + 1]

IsIndex(kind) == kind \in {6, 7, 8}      \* row index, bloom filters

SumOver(words) == FoldLeft(LAMBDA a, w : a + Len(w) - 1, 0, SetToSeq(words))
Sums(n, Op(_)) == FoldLeft(+, 0, [j \in 1..n |-> Op(j)])

------------------------------------------------------------------------------
(* Framing of chunks                                                       *)
Header(c) == c[1] + 256 * c[2] + 65536 * c[3]
ChunkOk(c) == /\ Header(c) \div 2 = c[4]
              /\ Header(c) % 2 = 1 => c[5] = c[4]
              /\ c[5] <= M.block
AreaOk(a) == IF M.comp = 0 THEN a.n = a.raw
             ELSE /\ \A j \in 1..Len(a.chunks) : ChunkOk(a.chunks[j])
                  \* the sixth and seventh number say where chunk and text start
                  /\ \A j \in 2..Len(a.chunks) :
                       LET b == a.chunks[j - 1]  c == a.chunks[j] IN c[6] = b[6] + 3 + b[4] /\ c[7] = b[7] + b[5]
                  /\ IF Len(a.chunks) = 0 THEN a.raw = 0 /\ a.n = 0
                     ELSE LET b == a.chunks[1]  c == a.chunks[Len(a.chunks)] IN
                          b[6] = 0 /\ b[7] = 0 /\ c[6] + 3 + c[4] = a.raw /\ c[7] + c[5] = a.n

------------------------------------------------------------------------------
(* Tail and footer                                                         *)
Magic == <<79, 82, 67>>
KindNo(kind) == CASE kind = "boolean" -> 0 [] kind = "byte" -> 1 [] kind = "short" -> 2 [] kind = "int" -> 3
                  [] kind = "long" -> 4 [] kind = "float" -> 5 [] kind = "double" -> 6 [] kind = "string" -> 7
                  [] kind = "binary" -> 8 [] kind = "timestamp" -> 9 [] kind = "struct" -> 12 [] kind = "decimal" -> 14
                  [] kind = "date" -> 15 [] kind = "varchar" -> 16 [] kind = "char" -> 17

NCols == Len(T.schema)
TypesOk ==
  /\ Len(M.types) = NCols
  /\ \A c \in 1..NCols :
       /\ M.types[c].kind = KindNo(T.schema[c].kind)
       /\ M.types[c].subtypes = T.schema[c].children
       /\ M.types[c].names = T.schema[c].names

StripesEnd == IF Len(M.stripes) = 0 THEN M.hdrlen
              ELSE LET z == M.stripes[Len(M.stripes)] IN z.off + z.ilen + z.dlen + z.flen
BodyEnd == M.size - 1 - M.pslen - M.footlen - M.metalen

(* Stripes closed after n rows; the last one may have to wait for Close.   *)
StripeEnd(j) == IF j = 0 THEN M.hdrlen ELSE LET z == M.stripes[j] IN z.off + z.ilen + z.dlen + z.flen
RowsTo(j) == Sums(j, LAMBDA m : M.stripes[m].rows)
Closed(n) == Cardinality({j \in 1..Len(M.stripes) : RowsTo(j) <= n})
FlushedInTime ==
  \A w \in 1..Len(T.after) :
    LET j == Closed(T.after[w][1]) IN
    \/ T.after[w][2] = StripeEnd(j)
    \/ j = Len(M.stripes) /\ j > 0 /\ T.after[w][2] = StripeEnd(j - 1)

(* Bytes a column buffers for some rows, of streams that are not encoded.  *)
Buffered(c, from, to) ==
  LET kind == T.schema[c].kind
      cs == SelectSeq(SubSeq(T.cells[c], from, to), LAMBDA v : v # <<0>>)
  IN CASE kind = "float" -> 4 * Len(cs)
       [] kind = "double" -> 8 * Len(cs)
       [] kind \in {"string", "char", "varchar", "binary"} ->
            IF T.schema[c].enc = "dictv2"
            THEN LET words == {cs[j] : j \in 1..Len(cs)} IN SumOver(words)
            ELSE FoldLeft(LAMBDA a, v : a + Len(v) - 1, 0, cs)
       [] OTHER -> 0
(* Of an encoded stream at most one run (512 values, 130 bytes) was still  *)
(* with its encoder before the last row.                                   *)
Late(c, kind, last) ==
  LET of == T.schema[c].kind IN
  CASE kind = 0 \/ (kind = 1 /\ of \in {"boolean", "byte"}) -> 150
    [] T.schema[c].enc = "dictv2" -> 1073741824
    [] kind = 1 /\ of \in {"string", "char", "varchar", "binary"} -> Len(T.cells[c][last])
    [] kind = 1 /\ of \in {"float", "double", "decimal"} -> 16
    [] OTHER -> 5200
Held(st, last) == LET h == st.area.raw - 3 * Len(st.area.chunks) - Late(st.col + 1, st.kind, last) IN IF h < 0 THEN 0 ELSE h
HasDict == \E c \in 1..NCols : T.schema[c].enc = "dictv2"
(* A stripe is closed with the row that fills it, not before and not later.*)
FlushRule ==
  \A j \in 1..Len(M.stripes) :
    LET y == M.stripes[j]
        data == {m \in 1..Len(y.streams) : y.streams[m].kind \notin {6, 7, 8}}
        from == RowsTo(j - 1)
    IN
    /\ (j < Len(M.stripes) /\ ~HasDict) =>
         Sums(Len(y.streams), LAMBDA m : IF m \in data THEN y.streams[m].area.n + 3 * Len(y.streams[m].area.chunks) ELSE 0) >= T.opts.stripe
    /\ ~T.opts.compress =>
         Sums(NCols, LAMBDA c : Buffered(c, from + 1, from + y.rows - 1)) < T.opts.stripe
    /\ Sums(Len(y.streams), LAMBDA m : IF m \in data THEN Held(y.streams[m], from + y.rows) ELSE 0) < T.opts.stripe

TailData ==
  /\ M.header = Magic /\ M.magic = Magic
  /\ AreaOk(M.foot) /\ AreaOk(M.meta)
  /\ TypesOk
  /\ M.rows = T.n
  /\ Sums(Len(M.stripes), LAMBDA j : M.stripes[j].rows) = T.n
TailLayout ==
  /\ M.header = Magic /\ M.magic = Magic /\ M.hdrlen = 3
  /\ Len(M.stripes) > 0 => M.stripes[1].off = M.hdrlen
  /\ \A j \in 2..Len(M.stripes) :
       LET y == M.stripes[j - 1] IN M.stripes[j].off = y.off + y.ilen + y.dlen + y.flen
  /\ StripesEnd = BodyEnd                       \* stripes end where the metadata and the footer begin
  /\ M.content \in {StripesEnd, StripesEnd - M.hdrlen}
  /\ M.rows = T.n
  /\ Sums(Len(M.stripes), LAMBDA j : M.stripes[j].rows) = T.n
  /\ \A j \in 1..Len(M.stripes) : M.stripes[j].rows > 0
  /\ M.footlen = M.foot.raw /\ M.metalen = M.meta.raw
  /\ M.nmeta \in {0, Len(M.stripes)}
  /\ FlushedInTime
  /\ FlushRule
TailStats ==
  /\ Len(M.stats) = NCols
  /\ \A c \in 1..NCols : StatTrue(M.stats[c], T.schema[c].kind, T.cells[c], Above(c)) = TRUE
  /\ M.nmeta > 0 => \A j \in 1..Len(M.stripes) :
       LET from == Sums(j - 1, LAMBDA m : M.stripes[m].rows)  st == M.stripes[j].stats IN
       /\ Len(st) = NCols
       /\ \A c \in 1..NCols : StatTrue(st[c], T.schema[c].kind, SubSeq(T.cells[c], from + 1, from + M.stripes[j].rows),
                                       IF T.schema[c].parent < 0 THEN <<>> ELSE SubSeq(Above(c), from + 1, from + M.stripes[j].rows)) = TRUE
  /\ \A c \in 1..NCols : M.stats[c].disk # <<>> =>
       M.stats[c].disk = Of(Sums(Len(M.stripes), LAMBDA j : LET y == M.stripes[j] IN
         Sums(Len(y.streams), LAMBDA m : IF y.streams[m].col = c - 1 /\ ~IsIndex(y.streams[m].kind) THEN y.streams[m].len ELSE 0)))
  /\ T.got # <<>> => T.got = M.stats            \* what Reader.GetStatistics returned

Tail1 ==
  /\ ph = "tail"
  /\ "data" \in Aspects => TailData = TRUE
  /\ "layout" \in Aspects => TailLayout = TRUE
  /\ "stats" \in Aspects => TailStats = TRUE
  /\ ph' = IF Len(M.stripes) = 0 THEN "done" ELSE "stripe"
  /\ i' = i + 1
  /\ UNCHANGED <<tid, s, x, p, k, want, hits, sure, held>>

------------------------------------------------------------------------------
(* A stripe                                                                *)
PRESENT == 0 DATA == 1 LENGTH == 2 DICT == 3 SECONDARY == 5 ROWINDEX == 6
From == Sums(s - 1, LAMBDA j : M.stripes[j].rows)
RowsOf == [j \in 1..S.rows |-> From + j]

Slots(c) == IF T.schema[c].parent < 0 THEN RowsOf
            ELSE LET up == Above(c) IN SelectSeq(RowsOf, LAMBDA r : up[r] # <<0>>)
Filled(c) == LET cs == T.cells[c] IN SelectSeq(Slots(c), LAMBDA r : cs[r] # <<0>>)

Texts == {"string", "char", "varchar"}
EncOk(c) ==
  LET e == S.encs[c].kind  kind == T.schema[c].kind IN
  IF kind \in {"boolean", "byte", "float", "double", "struct"} THEN e = 0
  ELSE IF kind \in Texts THEN e \in {2, 3}
  ELSE e = 2
Dictionary(c) == T.schema[c].kind \in Texts /\ S.encs[c].kind = 3

HasStream(c, kind) == \E j \in 1..Len(S.streams) : S.streams[j].col = c - 1 /\ S.streams[j].kind = kind
(* Streams a column needs for rows it has.                                 *)
Needs(c) ==
  LET kind == T.schema[c].kind IN
  (IF Len(Filled(c)) < Len(Slots(c)) THEN {PRESENT} ELSE {})
  \cup (IF Len(Filled(c)) = 0 \/ kind = "struct" THEN {}
        ELSE IF Dictionary(c) THEN {DATA, LENGTH}
        ELSE IF kind \in Texts \cup {"binary"} THEN {LENGTH}       \* data may be empty
        ELSE IF kind \in {"timestamp", "decimal"} THEN {DATA, SECONDARY}
        ELSE {DATA})
May(c) ==
  LET kind == T.schema[c].kind IN
  {PRESENT, ROWINDEX, 7, 8}
  \cup (IF kind = "struct" THEN {}
        ELSE IF Dictionary(c) THEN {DATA, LENGTH, DICT}
        ELSE IF kind \in Texts \cup {"binary"} THEN {DATA, LENGTH}
        ELSE IF kind \in {"timestamp", "decimal"} THEN {DATA, SECONDARY}
        ELSE {DATA})

StripeData ==
  /\ Len(S.encs) = NCols /\ \A c \in 1..NCols : EncOk(c)
  /\ AreaOk(S.foot)
  /\ \A j \in 1..Len(S.streams) :
       LET st == S.streams[j] IN
       /\ st.col \in 0..(NCols - 1) /\ AreaOk(st.area)
       /\ ~IsIndex(st.kind) => st.kind \in May(st.col + 1)
       /\ \A m \in 1..(j - 1) : ~(S.streams[m].col = st.col /\ S.streams[m].kind = st.kind)
  /\ \A c \in 1..NCols : \A kind \in Needs(c) : HasStream(c, kind)
  (* index streams come first, so that the index is the stripe's head      *)
  /\ \A j \in 2..Len(S.streams) : IsIndex(S.streams[j].kind) => IsIndex(S.streams[j - 1].kind)
  /\ Sums(Len(S.streams), LAMBDA j : IF IsIndex(S.streams[j].kind) THEN S.streams[j].len ELSE 0) = S.ilen
StripeLayout ==
  /\ Sums(Len(S.streams), LAMBDA j : IF IsIndex(S.streams[j].kind) THEN S.streams[j].len ELSE 0) = S.ilen
  /\ Sums(Len(S.streams), LAMBDA j : IF IsIndex(S.streams[j].kind) THEN 0 ELSE S.streams[j].len) = S.dlen
  /\ S.foot.raw = S.flen
  /\ \A d \in 1..Len(T.dicts) :
       LET D == T.dicts[d]  words == {D.words[j] : j \in 1..Len(D.words)} IN
       D.stripe = s =>
         /\ Len(D.words) = S.encs[D.col + 1].dict
         /\ Cardinality(words) = Len(D.words)
         /\ \A r \in From + 1..From + S.rows :
              LET v == T.cells[D.col + 1][r] IN v = <<0>> \/ Tail(v) \in words
StripeIndex ==
  T.opts.index =>
    /\ M.stride = T.opts.stride
    /\ \A c \in 1..NCols : HasStream(c, ROWINDEX)
    /\ \A j \in 1..Len(S.streams) : S.streams[j].kind = ROWINDEX =>
         Len(S.streams[j].entries) = (S.rows + M.stride - 1) \div M.stride
EntryStats ==
  \A j \in 1..Len(S.streams) : S.streams[j].kind = ROWINDEX /\ M.stride > 0 =>
    LET c == S.streams[j].col + 1 IN
    \A e \in 1..Len(S.streams[j].entries) :
      LET a == From + (e - 1) * M.stride + 1
          b == IF From + e * M.stride > From + S.rows THEN From + S.rows ELSE From + e * M.stride
          st == S.streams[j].entries[e].stat
      IN Len(st) = 1 => StatTrue(st[1], T.schema[c].kind, SubSeq(T.cells[c], a, b),
                                 IF T.schema[c].parent < 0 THEN <<>> ELSE SubSeq(Above(c), a, b)) = TRUE

Stripe ==
  /\ ph = "stripe"
  /\ "data" \in Aspects => StripeData = TRUE
  /\ "layout" \in Aspects => StripeLayout = TRUE
  /\ "index" \in Aspects => StripeIndex = TRUE
  /\ "stats" \in Aspects => EntryStats = TRUE
  /\ IF Aspects \cap {"data", "index"} = {} \/ Len(S.streams) = 0
     THEN IF s = Len(M.stripes) THEN ph' = "done" /\ s' = s ELSE ph' = "stripe" /\ s' = s + 1
     ELSE ph' = "enter" /\ s' = s
  /\ x' = 1 /\ i' = i + 1
  /\ held' = 0 /\ UNCHANGED <<tid, p, k, want, hits, sure>>

------------------------------------------------------------------------------
(* A stream and what it must hold                                          *)
Col == X.col + 1
Map(rows, F(_)) == [j \in 1..Len(rows) |-> F(T.cells[Col][rows[j]])]

(* The dictionary of the column in this stripe, taken from the file.       *)
Dict == LET d == CHOOSE d \in 1..Len(T.dicts) : T.dicts[d].stripe = s /\ T.dicts[d].col = Col - 1 IN T.dicts[d].words
IndexOf(words, w) == CHOOSE j \in 1..Len(words) : words[j] = w

WantOf ==
  LET kind == T.schema[Col].kind
      rows == Filled(Col)
      w(how, vals) == [how |-> how, vals |-> vals]
  IN IF X.kind = PRESENT
     THEN w("bools", LET sl == Slots(Col) IN [j \in 1..Len(sl) |-> IF T.cells[Col][sl[j]] = <<0>> THEN 0 ELSE 1])
     ELSE IF X.kind = SECONDARY
          THEN IF kind = "decimal" THEN w("signed", Map(rows, LAMBDA v : Signed(v[6])))
               ELSE w("unsigned", Map(rows, LAMBDA v : PackNanos(Nanos(v))))
     ELSE IF X.kind = DICT THEN w("raw", Dict)
     ELSE IF X.kind = LENGTH
          THEN IF Dictionary(Col) THEN w("unsigned", [j \in 1..Len(Dict) |-> Of(Len(Dict[j]))])
               ELSE w("unsigned", Map(rows, LAMBDA v : Of(Len(v) - 1)))
     ELSE CASE kind = "boolean" -> w("bools", Map(rows, LAMBDA v : v[2]))
            [] kind = "byte" -> w("bytes", Map(rows, LAMBDA v : v[2]))
            [] kind \in {"short", "int", "long"} -> w("signed", Map(rows, LAMBDA v : Num(v)))
            [] kind = "float" -> w("raw", Map(rows, LAMBDA v : FloatBytes(v)))
            [] kind = "double" -> w("raw", Map(rows, LAMBDA v : DoubleBytes(v)))
            [] kind = "date" -> w("signed", Map(rows, LAMBDA v : Signed(DaysOf(v[2], v[3], v[4]))))
            [] kind = "timestamp" -> w("signed", Map(rows, LAMBDA v : Num(v)))
            [] kind = "decimal" -> w("varint", Map(rows, LAMBDA v : Num(v)))
            [] kind = "binary" -> w("raw", Map(rows, LAMBDA v : Text(v)))
            [] OTHER -> IF Dictionary(Col)
                        THEN w("unsigned", LET d == Dict IN Map(rows, LAMBDA v : Of(IndexOf(d, Text(v)) - 1)))
                        ELSE w("raw", Map(rows, LAMBDA v : Text(v)))

(* Entries of the row index that point into this stream:                   *)
(* <<plain offset, values to skip behind it, number of the value>>         *)
StreamWidth(how) == (IF M.comp = 0 THEN 1 ELSE 2) + (CASE how = "bools" -> 2 [] how = "raw" -> 0 [] how = "varint" -> 0 [] OTHER -> 1)
How(c, kind) == IF kind = PRESENT THEN "bools"
                ELSE IF kind \in {LENGTH, SECONDARY} THEN "rle"
                ELSE CASE T.schema[c].kind = "boolean" -> "bools"
                       [] T.schema[c].kind \in {"float", "double", "binary"} -> "raw"
                       [] T.schema[c].kind = "decimal" -> "varint"
                       [] T.schema[c].kind \in Texts -> IF Dictionary(c) THEN "rle" ELSE "raw"
                       [] OTHER -> "rle"
(* Positions of a column's streams follow each other in this order.        *)
Order(c) == SelectSeq(<<PRESENT, DATA, LENGTH, SECONDARY>>,
                      LAMBDA kind : HasStream(c, kind) /\ ~(kind = LENGTH /\ Dictionary(c)))
RECURSIVE Skipped(_, _, _)
Skipped(order, kind, c) == IF order[1] = kind THEN 0 ELSE StreamWidth(How(c, order[1])) + Skipped(Tail(order), kind, c)

PlainOff(a, raw, off) ==
  IF M.comp = 0 THEN raw
  ELSE LET c == {j \in 1..Len(a.chunks) : a.chunks[j][6] = raw}
       IN IF c # {} THEN a.chunks[CHOOSE j \in c : TRUE][7] + off
          ELSE IF raw = a.raw /\ off = 0 THEN a.n ELSE -1

EntriesOf(w) ==
  IF ~("index" \in Aspects) \/ X.kind = DICT \/ (X.kind = LENGTH /\ Dictionary(Col)) \/ ~HasStream(Col, ROWINDEX) THEN <<>>
  ELSE LET ix == S.streams[CHOOSE j \in 1..Len(S.streams) : S.streams[j].col = Col - 1 /\ S.streams[j].kind = ROWINDEX]
           skip == Skipped(Order(Col), X.kind, Col)
           width == StreamWidth(How(Col, X.kind))
           c0 == IF M.comp = 0 THEN 1 ELSE 2
           rows == IF X.kind = PRESENT THEN Slots(Col) ELSE Filled(Col)
       IN [e \in 1..Len(ix.entries) |->
            LET q == ix.entries[e].pos
                first == From + (e - 1) * M.stride
                n == Cardinality({j \in 1..Len(rows) : rows[j] <= first})
                g(j) == q[skip + j]
                total == Sums(Len(Order(Col)), LAMBDA j : StreamWidth(How(Col, Order(Col)[j])))
            IN IF Len(q) # total THEN <<-1, 0, n>>
               ELSE <<PlainOff(X.area, g(1), IF M.comp = 0 THEN 0 ELSE g(2)),
                      CASE How(Col, X.kind) = "bools" -> 8 * g(c0 + 1) + g(c0 + 2)
                        [] How(Col, X.kind) = "rle" -> g(c0 + 1)
                        [] OTHER -> 0,
                      n>>]

NextStream ==
  IF x < Len(S.streams) THEN ph' = "enter" /\ x' = x + 1 /\ s' = s
  ELSE IF s < Len(M.stripes) THEN ph' = "stripe" /\ x' = 1 /\ s' = s + 1
  ELSE ph' = "done" /\ UNCHANGED <<x, s>>

Enter ==
  /\ ph = "enter" /\ ~IsIndex(X.kind)
  /\ LET w == WantOf IN want' = [how |-> w.how, vals |-> w.vals, entries |-> EntriesOf(w)]
  /\ X.kind = DICT => Cardinality({Dict[a] : a \in 1..Len(Dict)}) = Len(Dict)
  /\ X.kind = LENGTH /\ Dictionary(Col) => Len(Dict) = S.encs[Col].dict
  /\ ph' = "runs" /\ p' = 1 /\ k' = 0 /\ hits' = 0 /\ i' = i + 1
  /\ sure' = 0 /\ UNCHANGED <<tid, s, x, held>>
EnterIndex ==
  /\ ph = "enter" /\ IsIndex(X.kind)
  /\ NextStream /\ i' = i + 1
  /\ UNCHANGED <<tid, p, k, want, hits, sure, held>>

(* Values before the run at p: k, for booleans 8 * k.                      *)
RECURSIVE Reach(_, _)
Reach(h, n) ==           \* the entries up to h have been met
  IF h < Len(want.entries) /\ want.entries[h + 1][1] = p - 1 /\ n + want.entries[h + 1][2] = want.entries[h + 1][3]
  THEN Reach(h + 1, n) ELSE h
RECURSIVE ReachEnd(_)
ReachEnd(h) ==
  IF h < Len(want.entries) /\ want.entries[h + 1][1] = p - 1 /\ want.entries[h + 1][2] = 0
     /\ want.entries[h + 1][3] = Len(want.vals)
  THEN ReachEnd(h + 1) ELSE h
Count == IF want.how = "bools" THEN 8 * k ELSE k

(* An encoder keeps 512 values or 130 bytes at most, so a run that ends    *)
(* that many values before the last one has left it before the last row.   *)
Keeps(how) == CASE how \in {"signed", "unsigned"} -> 513 [] how = "bytes" -> 131 [] how = "bools" -> 8 * 131 [] OTHER -> 1
Sure == sure' = IF Len(want.vals) - (IF want.how = "bools" THEN 8 * k' ELSE k') >= Keeps(want.how) THEN p' - 1 ELSE sure
NotHeld == Dictionary(Col) /\ X.kind # PRESENT       \* encoded when the stripe is closed

IntRun ==
  /\ ph = "runs" /\ want.how \in {"signed", "unsigned"} /\ p <= Len(X.area.plain)
  /\ Step(X.area.plain, p, want.how = "signed", want.vals, k) = TRUE
  /\ LET r == Run(X.area.plain, p) IN p' = r.next /\ k' = k + r.n
  /\ hits' = Reach(hits, Count) /\ i' = i + 1
  /\ Sure /\ UNCHANGED <<tid, ph, s, x, want, held>>
ByteRun ==
  /\ ph = "runs" /\ want.how \in {"bytes", "bools"} /\ p <= Len(X.area.plain)
  /\ IF want.how = "bytes" THEN ByteStep(X.area.plain, p, want.vals, k) = TRUE ELSE BoolStep(X.area.plain, p, want.vals, k) = TRUE
  /\ LET r == BRun(X.area.plain, p) IN p' = r.next /\ k' = k + r.n
  /\ hits' = Reach(hits, Count) /\ i' = i + 1
  /\ Sure /\ UNCHANGED <<tid, ph, s, x, want, held>>
VarintValue ==
  /\ ph = "runs" /\ want.how = "varint" /\ k < Len(want.vals)
  /\ LET l == VLen(X.area.plain, p) IN
     /\ VOk(X.area.plain, p, l)
     /\ UnZig(Varint(X.area.plain, p, l)) = want.vals[k + 1]
     /\ p' = p + l /\ k' = k + 1
  /\ hits' = Reach(hits, Count) /\ i' = i + 1
  /\ Sure /\ UNCHANGED <<tid, ph, s, x, want, held>>
RawValue ==
  /\ ph = "runs" /\ want.how = "raw" /\ k < Len(want.vals)
  /\ LET v == want.vals[k + 1] IN
     /\ p + Len(v) - 1 <= Len(X.area.plain)
     /\ SubSeq(X.area.plain, p, p + Len(v) - 1) = v
     /\ p' = p + Len(v) /\ k' = k + 1
  /\ hits' = Reach(hits, Count) /\ i' = i + 1
  /\ Sure /\ UNCHANGED <<tid, ph, s, x, want, held>>

Leave ==
  /\ ph = "runs" /\ p = Len(X.area.plain) + 1
  /\ IF want.how = "bools" THEN BoolEnd(want.vals, k) ELSE k = Len(want.vals)
  /\ LET h == Reach(hits, Count) IN (IF want.how = "bools" THEN ReachEnd(h) ELSE h) = Len(want.entries)
  /\ NextStream
  /\ held' = held + (IF NotHeld THEN 0 ELSE sure)
  (* what was held had not reached the stripe size before the last row     *)
  /\ ("layout" \in Aspects /\ M.comp = 0) => held' < T.opts.stripe
  /\ want' = NoWant /\ hits' = 0 /\ p' = 1 /\ k' = 0 /\ i' = i + 1 /\ sure' = 0
  /\ UNCHANGED tid

Done == ph = "done" /\ T.trouble = "" /\ UNCHANGED vars
Next == Tail1 \/ Stripe \/ Enter \/ EnterIndex \/ IntRun \/ ByteRun \/ VarintValue \/ RawValue \/ Leave \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
