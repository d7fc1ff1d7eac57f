------------------------------- MODULE OrcGen -------------------------------
(***************************************************************************)
(* Makes histories of reader calls from OrcEngine for files that exist:    *)
(* their stripes, strides and projections come from the driver, TLC chooses*)
(* the calls, the driver makes them, OrcFileTrace judges what came back.   *)
(***************************************************************************)
EXTENDS OrcEngine, TLC, Json, IOUtils

Files == JsonDeserialize(IOEnv.FILES)   \* [stripes, stride (0: no index), incs: number of projections, readers, depth]

VARIABLES f, hist
gvars == <<vars, f, hist>>

F == Files[f]
Rs == 0..(F.readers - 1)

GInit ==
  /\ f \in 1..Len(Files)
  /\ hist = <<>>
  /\ wst = "closed" /\ buf = 0 /\ disk = "complete" /\ rst = "open"
  /\ stripes = Files[f].stripes
  /\ lay = [stride |-> IF Files[f].stride = 0 THEN 1 ELSE Files[f].stride, indexed |-> Files[f].stride > 0]
  /\ eng = [r \in Readers |-> Idle]
  /\ last = NoOp

Op(op, r, cap, k, inc) == hist' = Append(hist, [op |-> op, r |-> r, cap |-> cap, k |-> k, inc |-> inc]) /\ f' = f

(* Row numbers at which something changes: stripe and stride borders.      *)
Starts == {StartOf(i) : i \in 1..Len(stripes)}
Near(S) == {x \in UNION {{s - 1, s, s + 1} : s \in S} : x >= 0}
Strides == IF ~lay.indexed THEN {}
           ELSE UNION {{StartOf(i) + j * lay.stride : j \in {1, 2, stripes[i] \div lay.stride}} : i \in 1..Len(stripes)}
Targets(r) == IF F.small THEN 0..Total
              ELSE LET c == eng[r].cursor
                       all == Near(Starts) \cup Near(Strides) \cup {Total - 1, Total, Total + 7, c, c + 1, c \div 2}
                   IN {x \in all : x >= 0}
Caps == IF F.small THEN 1..(Total + 1)
        ELSE {1, 2, 7, lay.stride, lay.stride + 1, Total + 3} \cup {stripes[i] : i \in 1..Len(stripes)} \cup {1 + stripes[1] \div 3}

Choose(S) == IF F.sim /\ S # {} THEN {RandomElement(S)} ELSE S

GNext ==
  IF Len(hist) < F.depth
  THEN \E r \in Choose(Rs) :
         IF eng[r].st # "open"
         THEN IF rst # "open" THEN Op("none", r, 0, 0, 0) /\ UNCHANGED vars
              ELSE \E inc \in Choose(0..F.incs) : BCreate(r) /\ Op("create", r, 0, 0, inc)
         ELSE \E w \in Choose(1..20) :
              IF F.sim
              THEN IF w <= 11 THEN \E cap \in Choose(Caps) : BNext(r, cap) /\ Op("next", r, cap, 0, 0)
                   ELSE IF w = 20 /\ F.incs > 0 THEN BClose(r) /\ Op("close", r, 0, 0, 0)
                   ELSE IF w = 19 /\ rst = "open" /\ Len(hist) * 2 > F.depth THEN RClose /\ Op("closereader", r, 0, 0, 0)
                   ELSE \E k \in Choose(Targets(r)) : BSeek(r, k) /\ Op("seek", r, 0, k, 0)
              ELSE w = 1 /\ (\/ \E cap \in Caps : BNext(r, cap) /\ Op("next", r, cap, 0, 0)
                             \/ \E k \in Targets(r) : BSeek(r, k) /\ Op("seek", r, 0, k, 0))
  ELSE /\ Len(hist) = F.depth
       /\ PrintT("SEQ " \o ToJson([f |-> f, ops |-> hist]))
       /\ hist' = Append(hist, [op |-> "done", r |-> 0, cap |-> 0, k |-> 0, inc |-> 0])
       /\ UNCHANGED <<vars, f>>

GSpec == GInit /\ [][GNext]_gvars
==============================================================================
