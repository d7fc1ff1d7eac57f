---- MODULE DamageTrace_TTrace_1795052554 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, DamageTrace

_expression ==
    LET DamageTrace_TEExpression == INSTANCE DamageTrace_TEExpression
    IN DamageTrace_TEExpression!expression
----

_trace ==
    LET DamageTrace_TETrace == INSTANCE DamageTrace_TETrace
    IN DamageTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        br = ((0 :> [inc |-> {0, 2}, cur |-> 0, st |-> "open"]))
        /\
        rst = ("open")
        /\
        meta = (FALSE)
        /\
        i = (3)
        /\
        written = (33)
        /\
        rows = (33)
        /\
        hurt = ({3})
        /\
        tid = (279)
    )
----

_init ==
    /\ br = _TETrace[1].br
    /\ i = _TETrace[1].i
    /\ written = _TETrace[1].written
    /\ meta = _TETrace[1].meta
    /\ hurt = _TETrace[1].hurt
    /\ rst = _TETrace[1].rst
    /\ rows = _TETrace[1].rows
    /\ tid = _TETrace[1].tid
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ br  = _TETrace[i].br
        /\ br' = _TETrace[j].br
        /\ i  = _TETrace[i].i
        /\ i' = _TETrace[j].i
        /\ written  = _TETrace[i].written
        /\ written' = _TETrace[j].written
        /\ meta  = _TETrace[i].meta
        /\ meta' = _TETrace[j].meta
        /\ hurt  = _TETrace[i].hurt
        /\ hurt' = _TETrace[j].hurt
        /\ rst  = _TETrace[i].rst
        /\ rst' = _TETrace[j].rst
        /\ rows  = _TETrace[i].rows
        /\ rows' = _TETrace[j].rows
        /\ tid  = _TETrace[i].tid
        /\ tid' = _TETrace[j].tid

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("DamageTrace_TTrace_1795052554.json", _TETrace)

=============================================================================

 Note that you can extract this module `DamageTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `DamageTrace_TEExpression.tla` file takes precedence 
  over the module `DamageTrace_TEExpression` below).

---- MODULE DamageTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, DamageTrace

expression == 
    [
        \* To hide variables of the `DamageTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        br |-> br
        ,i |-> i
        ,written |-> written
        ,meta |-> meta
        ,hurt |-> hurt
        ,rst |-> rst
        ,rows |-> rows
        ,tid |-> tid
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_brUnchanged |-> br = br'
        
        \* Format the `br` variable as Json value.
        \* ,_brJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(br)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_brModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].br # _TETrace[s-1].br
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE DamageTrace_TETrace ----
\*EXTENDS IOUtils, TLC, DamageTrace
\*
\*trace == IODeserialize("DamageTrace_TTrace_1795052554.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE DamageTrace_TETrace ----
EXTENDS TLC, DamageTrace

trace == 
    <<
    ([br |-> (0 :> [inc |-> {}, cur |-> 0, st |-> "none"]),rst |-> "none",meta |-> FALSE,i |-> 1,written |-> 33,rows |-> 0,hurt |-> {3},tid |-> 279]),
    ([br |-> (0 :> [inc |-> {}, cur |-> 0, st |-> "none"]),rst |-> "open",meta |-> FALSE,i |-> 2,written |-> 33,rows |-> 33,hurt |-> {3},tid |-> 279]),
    ([br |-> (0 :> [inc |-> {0, 2}, cur |-> 0, st |-> "open"]),rst |-> "open",meta |-> FALSE,i |-> 3,written |-> 33,rows |-> 33,hurt |-> {3},tid |-> 279])
    >>
----


=============================================================================

---- CONFIG DamageTrace_TTrace_1795052554 ----
CONSTANTS
    Readers = { 0 }
    Columns = { }
    MaxRows = 0
    MaxCap = 0
    MemoryBound = 64

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 01:42:36 UTC 2026