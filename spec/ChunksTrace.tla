---------------------------- MODULE ChunksTrace ----------------------------
(***************************************************************************)
(* Streams written and read by the library. Events:                        *)
(*  written  [size, comp, raw, chunks, plain, input]: consumed chunk by    *)
(*           chunk, a chunk is <<header, header, header, body, plain>>      *)
(*  read     [input, got]                                                  *)
(*  position [want, got]: what follows after seeking to a recorded position*)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, c, at, raw
vars == <<tid, i, c, at, raw>>
T == Traces[tid]
E == T.events[i]
Init == tid \in 1..Len(Traces) /\ i = 1 /\ c = 1 /\ at = 0 /\ raw = 0

Header(k) == k[1] + 256 * k[2] + 65536 * k[3]
Chunk ==
  /\ i <= Len(T.events) /\ E.op = "written" /\ E.comp /\ c <= Len(E.chunks)
  /\ LET k == E.chunks[c] IN
     /\ Header(k) \div 2 = k[4]
     /\ Header(k) % 2 = 1 => k[5] = k[4]           \* original
     /\ Header(k) % 2 = 0 => k[4] <= E.size        \* else it had to be stored as original
     /\ k[5] <= E.size
     /\ at + k[5] <= Len(E.input)
     /\ SubSeq(E.plain, at + 1, at + k[5]) = SubSeq(E.input, at + 1, at + k[5])
     /\ at' = at + k[5] /\ raw' = raw + 3 + k[4]
  /\ c' = c + 1 /\ UNCHANGED <<tid, i>>
EndOfStream ==
  /\ i <= Len(T.events) /\ E.op = "written"
  /\ IF E.comp THEN c = Len(E.chunks) + 1 /\ at = Len(E.input) /\ raw = E.raw
     ELSE E.plain = E.input /\ E.raw = Len(E.input)
  /\ E.length = E.raw                              \* what the stream's metadata says
  /\ i' = i + 1 /\ c' = 1 /\ at' = 0 /\ raw' = 0 /\ tid' = tid
ReadBack ==
  /\ i <= Len(T.events) /\ E.op = "read" /\ E.got = E.input
  /\ i' = i + 1 /\ UNCHANGED <<tid, c, at, raw>>
Position ==
  /\ i <= Len(T.events) /\ E.op = "position" /\ E.got = E.want
  /\ i' = i + 1 /\ UNCHANGED <<tid, c, at, raw>>
Done == i > Len(T.events) /\ UNCHANGED vars
Next == Chunk \/ EndOfStream \/ ReadBack \/ Position \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
